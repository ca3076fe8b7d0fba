package checks

import (
	"fmt"
	"os"
	"sync"

	gfield "github.com/consensys/gnark-crypto/field/goldilocks"
	"github.com/consensys/gnark/frontend"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"verif/e1/sym"
)

// switched builds a chip while USE_BIT_DECOMPOSITION_RANGE_CHECK has the given value. Chips of other
// circuits are kept out meanwhile, as the environment is the whole process's.
func switched(api frontend.API, val string) *gl.Chip {
	const name = "USE_BIT_DECOMPOSITION_RANGE_CHECK"
	envMu.Lock()
	defer envMu.Unlock()
	os.Setenv(name, val)
	defer os.Unsetenv(name)
	return gl.New(api)
}

var envMu sync.RWMutex

// newChip is gl.New with the environment as it is outside switched.
func newChip(api frontend.API) *gl.Chip {
	envMu.RLock()
	defer envMu.RUnlock()
	return gl.New(api)
}

func rangeCheckComps(th bool) (out []*Comp) {
	out = append(out, eachMode("RangeCheck", func(e *Env) {
		x := e.GLRaw("x")
		e.Code(func(api frontend.API) []FV {
			chip(e, api).RangeCheck(gv(x))
			return nil
		})
	})...)
	out = append(out, eachMode("RangeCheckQE", func(e *Env) {
		x, y := e.GLRaw("x"), e.GLRaw("y")
		e.Code(func(api frontend.API) []FV {
			chip(e, api).RangeCheckQE(qv([2]*Var{x, y}))
			return nil
		})
	})...)
	ns := []uint{16, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176}
	if th {
		ns = append(ns, 192, 208, 224, 240)
	}
	for _, n := range ns {
		n := n
		out = append(out, eachMode(fmt.Sprintf("RangeCheckWithMaxBits%d", n), func(e *Env) {
			x := e.Raw("x", pow2m1(n))
			e.Code(func(api frontend.API) []FV {
				chip(e, api).RangeCheckWithMaxBits(gv(x), uint64(n))
				return nil
			})
		})...)
	}
	// widths that are not a multiple of the limbs of the commitment-based checker: that one may
	// refuse them (it must not check something weaker)
	odd := []uint{1, 4, 15, 17, 20, 31, 33, 44, 47, 60, 63, 65, 127, 143}
	if th {
		for n := uint(2); n < 253; n++ {
			if n%16 != 0 {
				odd = append(odd, n)
			}
		}
	}
	for _, n := range odd {
		for _, c := range eachMode(fmt.Sprintf("RangeCheckWithMaxBits%d", n), func(e *Env) {
			x := e.Raw("x", pow2m1(n))
			e.Code(func(api frontend.API) []FV {
				chip(e, api).RangeCheckWithMaxBits(gv(x), uint64(n))
				return nil
			})
		}) {
			c.MayPanic = c.Mode.Commits()
			out = append(out, c)
		}
	}
	// circuits with few checks: gnark's commitment-based checker then works with limbs of another
	// width, which it does not check exactly; the chip may refuse them
	few := [][2]int{{0, 0}, {1000, 32}, {30000, 32}, {47610, 32}, {47620, 32}, {63480, 32}, {63500, 32}, {65270, 16}, {65300, 16}, {40000, 64}, {9000, 144}}
	for _, f := range few {
		f := f
		for _, m := range []sym.Mode{sym.Commit, sym.CommitSCS} {
			c := inMode(m, fmt.Sprintf("FewChecks/%dx%d", f[0], f[1]), func(e *Env) {
				x, y := e.GLRaw("x"), e.Raw("y", pow2m1(48))
				e.Code(func(api frontend.API) []FV {
					c := newChip(api)
					padN(c, f[0], uint64(f[1]))
					c.RangeCheck(gv(x))
					c.RangeCheckWithMaxBits(gv(y), 48)
					return nil
				})
			})
			c.MayPanic = true
			out = append(out, c)
		}
	}
	// the environment's switch to bit decomposition: it may change the facility, never what is accepted
	for _, val := range []string{"true", "false", "1"} {
		val := val
		for _, c := range eachMode("Switch"+val, func(e *Env) {
			x, y, z := e.GLRaw("x"), e.Raw("y", pow2m1(48)), e.Raw("z", pow2m1(20))
			e.Code(func(api frontend.API) []FV {
				c := switched(api, val)
				if val != "true" {
					pad(e, c)
				}
				c.RangeCheck(gv(x))
				c.RangeCheckWithMaxBits(gv(y), 48)
				if val == "true" {
					c.RangeCheckWithMaxBits(gv(z), 20)
				} else {
					api.ToBinary(z, 20)
				}
				return nil
			})
		}) {
			out = append(out, c)
		}
	}
	// two checks in one circuit, the second of another width: no check may be lost
	out = append(out, eachMode("RangeCheckTwice", func(e *Env) {
		x, y, z := e.GLRaw("x"), e.Raw("y", pow2m1(48)), e.GLRaw("z")
		e.Code(func(api frontend.API) []FV {
			c := chip(e, api)
			c.RangeCheck(gv(x))
			c.RangeCheckWithMaxBits(gv(y), 48)
			newChip(api).RangeCheck(gv(z))
			return nil
		})
	})...)
	return
}

func baseComps(th bool) (out []*Comp) {
	add := func(name string, build func(e *Env)) { out = append(out, eachMode(name, build)...) }
	one := func(name string, build func(e *Env)) { out = append(out, inMode(sym.Native, name, build)) }
	add("MulAdd", func(e *Env) {
		a, b, c := e.GL("a"), e.GL("b"), e.GL("c")
		e.OutGL("r", e.X(a).Mul(e.X(b)).Add(e.X(c)), true)
		e.Code(func(api frontend.API) []FV {
			return outG(chip(e, api).MulAdd(gv(a), gv(b), gv(c)))
		})
	})
	bin := func(name string, can bool, spec func(e *Env, a, b X) X, code func(c *gl.Chip, a, b gl.Variable) gl.Variable) {
		f := one
		if can {
			f = add
		}
		f(name, func(e *Env) {
			a, b := e.GL("a"), e.GL("b")
			e.OutGL("r", spec(e, e.X(a), e.X(b)), can)
			e.Code(func(api frontend.API) []FV { return outG(code(chip(e, api), gv(a), gv(b))) })
		})
		// the same operand twice, and constants on either side
		one(name+"/same", func(e *Env) {
			a := e.GL("a")
			e.OutGL("r", spec(e, e.X(a), e.X(a)), can)
			e.Code(func(api frontend.API) []FV { return outG(code(chip(e, api), gv(a), gv(a))) })
		})
		for _, k := range []uint64{0, 1, sym.GM - 1} {
			k := k
			one(fmt.Sprintf("%s/const%d", name, k), func(e *Env) {
				a := e.GL("a")
				e.OutGL("r", spec(e, e.X(a), e.CX(k)), can)
				e.OutGL("s", spec(e, e.CX(k), e.X(a)), can)
				e.Code(func(api frontend.API) []FV {
					c := chip(e, api)
					return outG(code(c, gv(a), gl.NewVariable(k)), code(c, gl.NewVariable(k), gv(a)))
				})
			})
		}
	}
	bin("Add", true, func(e *Env, a, b X) X { return a.Add(b) }, (*gl.Chip).Add)
	bin("Sub", true, func(e *Env, a, b X) X { return a.Sub(b) }, (*gl.Chip).Sub)
	bin("Mul", true, func(e *Env, a, b X) X { return a.Mul(b) }, (*gl.Chip).Mul)
	bin("AddNoReduce", false, func(e *Env, a, b X) X { return a.Add(b) }, (*gl.Chip).AddNoReduce)
	bin("SubNoReduce", false, func(e *Env, a, b X) X { return a.Sub(b) }, (*gl.Chip).SubNoReduce)
	bin("MulNoReduce", false, func(e *Env, a, b X) X { return a.Mul(b) }, (*gl.Chip).MulNoReduce)
	one("MulAddNoReduce", func(e *Env) {
		a, b, c := e.GL("a"), e.GL("b"), e.GL("c")
		e.OutGL("r", e.X(a).Mul(e.X(b)).Add(e.X(c)), false)
		e.Code(func(api frontend.API) []FV {
			return outG(chip(e, api).MulAddNoReduce(gv(a), gv(b), gv(c)))
		})
	})
	// multiply-add with constants and repeated operands
	for _, d := range []struct {
		name string
		red  bool
	}{{"MulAdd", true}, {"MulAddNoReduce", false}} {
		d := d
		op := func(c *gl.Chip, x, y, z gl.Variable) gl.Variable {
			if d.red {
				return c.MulAdd(x, y, z)
			}
			return c.MulAddNoReduce(x, y, z)
		}
		one(d.name+"/same", func(e *Env) {
			a, b := e.GL("a"), e.GL("b")
			A, B := e.X(a), e.X(b)
			e.OutGL("r", A.Mul(A).Add(A), d.red)
			e.OutGL("r", A.Mul(B).Add(A), d.red)
			e.OutGL("r", A.Mul(B).Add(B), d.red)
			e.OutGL("r", A.Mul(A).Add(B), d.red)
			e.Code(func(api frontend.API) []FV {
				c := chip(e, api)
				x, y := gv(a), gv(b)
				return outG(op(c, x, x, x), op(c, x, y, x), op(c, x, y, y), op(c, x, x, y))
			})
		})
		for _, k := range []uint64{0, 1, 7, sym.GM - 1} {
			k := k
			one(fmt.Sprintf("%s/const%d", d.name, k), func(e *Env) {
				a, b := e.GL("a"), e.GL("b")
				A, B, C := e.X(a), e.X(b), e.CX(k)
				e.OutGL("r", A.Mul(C).Add(B), d.red)
				e.OutGL("r", C.Mul(A).Add(B), d.red)
				e.OutGL("r", A.Mul(B).Add(C), d.red)
				e.OutGL("r", C.Mul(C).Add(B), d.red)
				e.OutGL("r", C.Mul(A).Add(C), d.red)
				e.Code(func(api frontend.API) []FV {
					c := chip(e, api)
					x, y, z := gv(a), gv(b), gl.NewVariable(k)
					return outG(op(c, x, z, y), op(c, z, x, y), op(c, x, y, z), op(c, z, z, y), op(c, z, x, z))
				})
			})
		}
	}
	// operations repeated on one chip do not interfere
	one("Repeated", func(e *Env) {
		a, b, c := e.GL("a"), e.GL("b"), e.GL("c")
		A, B, C := e.X(a), e.X(b), e.X(c)
		e.OutGL("r", A.Mul(B).Add(C), true)
		e.OutGL("r", A.Mul(B).Add(A), true)
		e.OutGL("r", A.Mul(C).Add(C), true)
		e.OutGL("r", B.Mul(A).Add(C), true)
		e.OutGL("r", A.Add(B), true)
		e.OutGL("r", A.Sub(B), true)
		e.OutGL("r", B.Sub(A), true)
		e.OutGL("r", A.Mul(B), true)
		e.OutGL("r", A.Mul(B).Scale(3), true)
		e.Code(func(api frontend.API) []FV {
			ch := chip(e, api)
			x, y, z := gv(a), gv(b), gv(c)
			p := ch.MulNoReduce(x, y)
			return outG(ch.MulAdd(x, y, z), ch.MulAdd(x, y, x), ch.MulAdd(x, z, z), gl.New(api).MulAdd(y, x, z), ch.Add(x, y), ch.Sub(x, y), ch.Sub(y, x),
				ch.Reduce(p), ch.Reduce(ch.AddNoReduce(ch.AddNoReduce(p, p), p)))
		})
	})
	// an accumulator handed to several operations keeps its value
	one("Accumulator", func(e *Env) {
		a, b, c := e.GL("a"), e.GL("b"), e.GL("c")
		acc := e.X(a).Mul(e.X(b)).Add(e.X(c))
		e.OutGL("s", acc.Add(e.X(c).Scale(5)), false)
		e.OutGL("t", acc.Add(e.X(a).Scale(9)), true)
		e.OutGL("acc", acc, false)
		e.Code(func(api frontend.API) []FV {
			ch := chip(e, api)
			r := ch.MulAddNoReduce(gv(a), gv(b), gv(c))
			s := ch.MulAddNoReduce(gv(c), gl.NewVariable(5), r)
			t := ch.Reduce(ch.MulAddNoReduce(gv(a), gl.NewVariable(9), r))
			return outG(s, t, r)
		})
	})
	add("Reduce", func(e *Env) {
		x := e.Bounded("x", pow2m1(140))
		e.OutGL("r", e.X(x), true)
		e.Code(func(api frontend.API) []FV { return outG(chip(e, api).Reduce(gv(x))) })
	})
	add("ReduceConst", func(e *Env) {
		for i := 0; i < 3; i++ {
			e.OutGL("r", e.CX(sym.AddM(sym.MulM(uint64(i), sym.GM-1), 5)), true)
		}
		e.Code(func(api frontend.API) (o []FV) {
			c := chip(e, api)
			for i := 0; i < 3; i++ {
				o = append(o, outG(c.Reduce(c.AddNoReduce(c.MulNoReduce(gl.NewVariable(i), gl.NegOne()), gl.NewVariable(5))))...)
			}
			return
		})
	})
	for _, n := range []uint64{32, 64, 112, 128} {
		n := n
		add(fmt.Sprintf("ReduceWithMaxBits%d", n), func(e *Env) {
			x := e.Bounded("x", pow2m1(uint(n)+63))
			e.OutGL("r", e.X(x), true)
			e.Code(func(api frontend.API) []FV { return outG(chip(e, api).ReduceWithMaxBits(gv(x), n)) })
		})
	}
	one("DotProduct", func(e *Env) {
		n := 64
		a, b := e.GLs("a", n), e.GLs("b", n)
		s := e.CX(0)
		for i := range a {
			s = s.Add(e.X(a[i]).Mul(e.X(b[i])))
		}
		e.OutGL("r", s, true)
		e.Code(func(api frontend.API) []FV {
			c := chip(e, api)
			acc := gl.Zero()
			for i := range a {
				acc = c.MulAddNoReduce(gv(a[i]), gv(b[i]), acc)
			}
			return outG(c.Reduce(acc))
		})
	})
	add("Inverse", func(e *Env) {
		x := e.GLNZ("x")
		e.OutGL("inv", e.Inv(e.X(x)), true)
		e.OutN("hasInv", e.C.V(1))
		e.Code(func(api frontend.API) []FV {
			i, h := chip(e, api).Inverse(gv(x))
			return []FV{i.Limb, h}
		})
	})
	one("Inverse/several", func(e *Env) {
		x, y := e.GLNZ("x"), e.GLNZ("y")
		for _, v := range []X{e.X(x), e.X(y), e.CX(1), e.CX(2), e.CX(sym.GM - 1), e.X(x)} {
			e.OutGL("inv", e.Inv(v), true)
			e.OutN("hasInv", e.C.V(1))
		}
		e.Code(func(api frontend.API) (o []FV) {
			c := chip(e, api)
			for _, v := range []gl.Variable{gv(x), gv(y), gl.One(), gl.NewVariable(2), gl.NegOne(), gv(x)} {
				i, h := c.Inverse(v)
				o = append(o, i.Limb, h)
			}
			return
		})
	})
	one("Inverse/zero", func(e *Env) {
		e.OutN("hasInv", e.C.V(0))
		e.Code(func(api frontend.API) []FV {
			_, h := chip(e, api).Inverse(gl.Zero())
			return []FV{h}
		})
	})
	one("Inverse/computed-zero", func(e *Env) {
		x := e.GL("x")
		e.OutN("hasInv", e.C.V(0))
		e.Code(func(api frontend.API) []FV {
			c := chip(e, api)
			_, h := c.Inverse(c.Sub(gv(x), gv(x)))
			return []FV{h}
		})
	})
	one("AssertIsEqual", func(e *Env) {
		x, y := e.GL("x"), e.GL("y")
		e.EqGL("x=y", e.X(x), e.X(y), x)
		e.Code(func(api frontend.API) []FV {
			chip(e, api).AssertIsEqual(gv(x), gv(y))
			return nil
		})
	})
	return
}

func init() {
	register(&Prop{ID: "C01", Title: "range checks", Comps: rangeCheckComps,
		Functions: []string{"goldilocks.New, NewRangeChecker, Chip.RangeCheck, RangeCheckQE, RangeCheckWithMaxBits, rangeCheckerCheck and the commitment-based checker (gnark's own commitChecker included), SplitLimbsHint as a free answer"},
		Bounds:    "no bound on the values: every element of the BN254 scalar field as the checked value and as every hint answer; widths 1, 16, 20, 32, 48, 63, 64, 144 (thorough: more, up to 176; the commitment-based checker may refuse widths that are not a multiple of 16); up to three checks in one circuit, and circuits with 0 to 65300 further checks around the sizes at which gnark's limb width changes; all range-check facilities, the commitment-based one under both the R1CS and the PLONK builder"})
	register(&Prop{ID: "C02", Title: "base arithmetic", Comps: baseComps,
		Functions: []string{"goldilocks.Chip: Add, Sub, Mul, MulAdd (with and without reduction), Reduce, ReduceWithMaxBits, Inverse, AssertIsEqual, and the MulAddHint, ReduceHint, InverseHint answers as free values"},
		Bounds:    "all canonical operands, all values below 2^144 for Reduce (2^64 times 2^n for the bounded variants), every element of the BN254 scalar field as a hint answer; constants 0, 1, 7 and p-1 and repeated operands; several operations on one chip",
		Assume:    []string{"operands are canonical, or within the headroom that the deferred variants document"}})
	register(&Prop{ID: "C03", Title: "extension arithmetic", Comps: extComps,
		Functions: []string{"goldilocks.Chip: every *Extension function, ReduceWithPowers, InnerProductExtension, ExpExtension, IsZero, Lookup, Lookup2"},
		Bounds:    "all canonical operands; constants, zero coordinates and repeated operands on either side; 0 to 20 terms in sums; exponents: 0 to 8, and selected ones up to 2^64-1 (thorough: more)",
		Assume:    []string{"operands are canonical"}})
	register(&Prop{ID: "C04", Title: "extension algebra", Comps: algComps,
		Functions: []string{"goldilocks.Chip: *ExtensionAlgebra functions, PartialInterpolateExtAlgebra"},
		Bounds:    "all canonical operands, values, points and initial states; constants and zero coordinates on either side; 1 to 3 interpolation points (thorough: up to 8), zero and repeated points and zero weights included, from any state and from the empty one",
		Assume:    []string{"operands are canonical"}})
}

func extComps(th bool) (out []*Comp) {
	one := func(name string, build func(e *Env)) { out = append(out, inMode(sym.Native, name, build)) }
	type Q = gl.QuadraticExtensionVariable
	bin := func(name string, can bool, spec func(a, b QX) QX, code func(c *gl.Chip, a, b Q) Q) {
		// operands in the base field, multiples of X and constants, on either side
		one(name+"/special", func(e *Env) {
			a, x := e.QE("a"), e.GL("x")
			n := 0
			for _, y := range specialQ(e, x) {
				e.OutQ(fmt.Sprintf("r%d", n), spec(e.QX(a), y.spec), can)
				e.OutQ(fmt.Sprintf("s%d", n), spec(y.spec, e.QX(a)), can)
				e.OutQ(fmt.Sprintf("t%d", n), spec(y.spec, y.spec), can)
				n++
			}
			e.Code(func(api frontend.API) (o []FV) {
				c := chip(e, api)
				for _, y := range specialQ(e, x) {
					o = append(o, outQ(code(c, qv(a), y.code), code(c, y.code, qv(a)), code(c, y.code, y.code))...)
				}
				return
			})
		})
		one(name, func(e *Env) {
			a, b := e.QE("a"), e.QE("b")
			e.OutQ("r", spec(e.QX(a), e.QX(b)), can)
			e.OutQ("sq", spec(e.QX(a), e.QX(a)), can)
			e.OutQ("c", spec(e.QX(a), e.CQ(1)), can)
			e.Code(func(api frontend.API) []FV {
				c := chip(e, api)
				return outQ(code(c, qv(a), qv(b)), code(c, qv(a), qv(a)), code(c, qv(a), gl.OneExtension()))
			})
		})
	}
	bin("AddExtension", true, QX.Add, (*gl.Chip).AddExtension)
	bin("SubExtension", true, QX.Sub, (*gl.Chip).SubExtension)
	bin("MulExtension", true, QX.Mul, (*gl.Chip).MulExtension)
	bin("AddExtensionNoReduce", false, QX.Add, (*gl.Chip).AddExtensionNoReduce)
	bin("SubExtensionNoReduce", false, QX.Sub, (*gl.Chip).SubExtensionNoReduce)
	bin("MulExtensionNoReduce", false, QX.Mul, (*gl.Chip).MulExtensionNoReduce)
	tri := func(name string, can bool, spec func(a, b, c QX) QX, code func(ch *gl.Chip, a, b, c Q) Q) {
		one(name, func(e *Env) {
			a, b, c := e.QE("a"), e.QE("b"), e.QE("c")
			e.OutQ("r", spec(e.QX(a), e.QX(b), e.QX(c)), can)
			e.Code(func(api frontend.API) []FV { return outQ(code(chip(e, api), qv(a), qv(b), qv(c))) })
		})
		one(name+"/special", func(e *Env) {
			a, b, x := e.QE("a"), e.QE("b"), e.GL("x")
			A, B := e.QX(a), e.QX(b)
			for _, y := range specialQ(e, x) {
				e.OutQ("r", spec(y.spec, A, B), can)
				e.OutQ("r", spec(A, y.spec, B), can)
				e.OutQ("r", spec(A, B, y.spec), can)
			}
			e.OutQ("r", spec(A, A, B), can)
			e.OutQ("r", spec(A, B, A), can)
			e.OutQ("r", spec(B, A, A), can)
			e.OutQ("r", spec(A, A, A), can)
			e.Code(func(api frontend.API) (o []FV) {
				ch := chip(e, api)
				p, q := qv(a), qv(b)
				for _, y := range specialQ(e, x) {
					o = append(o, outQ(code(ch, y.code, p, q), code(ch, p, y.code, q), code(ch, p, q, y.code))...)
				}
				return append(o, outQ(code(ch, p, p, q), code(ch, p, q, p), code(ch, q, p, p), code(ch, p, p, p))...)
			})
		})
	}
	ma := func(a, b, c QX) QX { return a.Mul(b).Add(c) }
	tri("MulAddExtension", true, ma, (*gl.Chip).MulAddExtension)
	tri("MulAddExtensionNoReduce", false, ma, (*gl.Chip).MulAddExtensionNoReduce)
	tri("SubMulExtension", true, func(a, b, c QX) QX { return a.Sub(b).Mul(c) }, (*gl.Chip).SubMulExtension)
	one("ScalarMulExtension", func(e *Env) {
		a, b := e.QE("a"), e.GL("b")
		e.OutQ("r", e.QX(a).MulX(e.X(b)), true)
		e.Code(func(api frontend.API) []FV { return outQ(chip(e, api).ScalarMulExtension(qv(a), gv(b))) })
	})
	one("ScalarMulExtension/special", func(e *Env) {
		a, x := e.QE("a"), e.GL("x")
		ks := []uint64{0, 1, 7, sym.GM - 1}
		for _, k := range ks {
			e.OutQ("r", e.QX(a).MulX(e.CX(k)), true)
		}
		for _, y := range specialQ(e, x) {
			e.OutQ("r", y.spec.MulX(e.X(x)), true)
		}
		e.Code(func(api frontend.API) (o []FV) {
			c := chip(e, api)
			for _, k := range ks {
				o = append(o, outQ(c.ScalarMulExtension(qv(a), gl.NewVariable(k)))...)
			}
			for _, y := range specialQ(e, x) {
				o = append(o, outQ(c.ScalarMulExtension(y.code, gv(x)))...)
			}
			return
		})
	})
	one("ReduceExtension", func(e *Env) {
		x, y := e.Bounded("x", pow2m1(140)), e.Bounded("y", pow2m1(140))
		e.OutQ("r", QX{e.X(x), e.X(y)}, true)
		e.Code(func(api frontend.API) []FV { return outQ(chip(e, api).ReduceExtension(qv([2]*Var{x, y}))) })
	})
	for _, n := range []int{0, 1, 2, 5} {
		n := n
		one(fmt.Sprintf("InnerProductExtension%d", n), func(e *Env) {
			k, s := e.GL("k"), e.QE("s")
			a, b := e.QEs("a", n), e.QEs("b", n)
			r := e.QX(s)
			for i := range a {
				r = r.Add(e.RQ(e.QX(a[i]).MulX(e.X(k))).Mul(e.QX(b[i])))
			}
			e.OutQ("r", r, true)
			e.Code(func(api frontend.API) []FV {
				var ps [][2]Q
				for i := range a {
					ps = append(ps, [2]Q{qv(a[i]), qv(b[i])})
				}
				return outQ(chip(e, api).InnerProductExtension(gv(k), qv(s), ps))
			})
		})
	}
	nzq := func(e *Env, n string) [2]*Var {
		v := e.QE(n)
		for k := range v[0].Sh {
			if v[0].Sh[k].IsZero() && v[1].Sh[k].IsZero() {
				e.C.DivByZero[k] = true
			}
		}
		return v
	}
	one("InverseExtension", func(e *Env) {
		a := nzq(e, "a")
		e.OutQ("inv", e.InvQ(e.QX(a)), true)
		e.OutN("hasInv", e.C.V(1))
		e.Code(func(api frontend.API) []FV {
			i, h := chip(e, api).InverseExtension(qv(a))
			return append(outQ(i), h)
		})
	})
	one("InverseExtension/special", func(e *Env) {
		x, y := e.GLNZ("x"), e.GLNZ("y")
		X0, Y0 := e.X(x), e.X(y)
		for _, q := range []QX{{X0, e.CX(0)}, {e.CX(0), Y0}, {X0, Y0}, e.CQ(1), e.CQ(sym.GM - 1), {e.CX(0), e.CX(1)}, {e.CX(5), e.CX(3)}, {X0, e.CX(0)}} {
			e.OutQ("inv", e.InvQ(q), true)
			e.OutN("hasInv", e.C.V(1))
		}
		e.Code(func(api frontend.API) (o []FV) {
			c := chip(e, api)
			z := gl.Zero()
			for _, q := range []Q{{gv(x), z}, {z, gv(y)}, {gv(x), gv(y)}, {gl.One(), z}, {gl.NegOne(), z}, {z, gl.One()}, {gl.NewVariable(5), gl.NewVariable(3)}, {gv(x), z}} {
				i, h := c.InverseExtension(q)
				o = append(append(o, outQ(i)...), h)
			}
			return
		})
	})
	one("DivExtension/special", func(e *Env) {
		a, b := e.QE("a"), nzq(e, "b")
		A, B := e.QX(a), e.QX(b)
		e.OutQ("0/b", e.CQ(0).Mul(e.InvQ(B)), true)
		e.OutQ("1/b", e.InvQ(B), true)
		e.OutQ("a/1", A, true)
		e.OutQ("a/7", A.Mul(e.InvQ(e.CQ(7))), true)
		e.Code(func(api frontend.API) (o []FV) {
			c := chip(e, api)
			for _, p := range [][2]Q{{gl.ZeroExtension(), qv(b)}, {gl.OneExtension(), qv(b)}, {qv(a), gl.OneExtension()}, {qv(a), {gl.NewVariable(7), gl.Zero()}}} {
				i, _ := c.DivExtension(p[0], p[1])
				o = append(o, outQ(i)...)
			}
			return
		})
	})
	one("DivExtension", func(e *Env) {
		a, b := e.QE("a"), nzq(e, "b")
		e.OutQ("q", e.QX(a).Mul(e.InvQ(e.QX(b))), true)
		e.OutN("hasInv", e.C.V(1))
		e.Code(func(api frontend.API) []FV {
			i, h := chip(e, api).DivExtension(qv(a), qv(b))
			return append(outQ(i), h)
		})
	})
	rej := func(name string, build func(e *Env)) {
		c := inMode(sym.Native, name, build)
		c.Reject = true
		out = append(out, c)
	}
	rej("InverseExtension/zero", func(e *Env) {
		e.Code(func(api frontend.API) []FV {
			chip(e, api).InverseExtension(gl.ZeroExtension())
			return nil
		})
	})
	rej("DivExtension/zero", func(e *Env) {
		a := e.QE("a")
		e.Code(func(api frontend.API) []FV {
			chip(e, api).DivExtension(qv(a), gl.ZeroExtension())
			return nil
		})
	})
	exps := []uint64{0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 13, 16, 64, 255, 256, 257, 1<<20 + 5, 1<<32 - 1, 1 << 63, ^uint64(0)}
	for _, n := range exps {
		n := n
		one(fmt.Sprintf("ExpExtension%d", n), func(e *Env) {
			a := e.QE("a")
			e.OutQ("r", e.PowQ(e.QX(a), n), true)
			e.Code(func(api frontend.API) []FV { return outQ(chip(e, api).ExpExtension(qv(a), n)) })
		})
	}
	for _, n := range []int{0, 1, 2, 7, 20} {
		n := n
		one(fmt.Sprintf("ReduceWithPowers%d", n), func(e *Env) {
			t, s := e.QEs("t", n), e.QE("s")
			r := e.CQ(0)
			for i := n - 1; i >= 0; i-- {
				r = e.RQ(r.Mul(e.QX(s)).Add(e.QX(t[i])))
			}
			e.OutQ("r", r, true)
			e.Code(func(api frontend.API) []FV { return outQ(chip(e, api).ReduceWithPowers(qvs(t), qv(s))) })
		})
	}
	one("ReduceWithPowers/special", func(e *Env) {
		t, x := e.QEs("t", 3), e.GL("x")
		S := func(t []QX, s QX) QX {
			r := e.CQ(0)
			for i := len(t) - 1; i >= 0; i-- {
				r = e.RQ(r.Mul(s).Add(t[i]))
			}
			return r
		}
		T := []QX{e.QX(t[0]), e.QX(t[1]), e.QX(t[2])}
		for _, y := range specialQ(e, x) {
			e.OutQ("r", S(T, y.spec), true)
			e.OutQ("r", S([]QX{T[0], y.spec, T[2]}, T[1]), true)
			e.OutQ("r", S([]QX{T[0], T[1], y.spec}, T[0]), true)
		}
		e.OutQ("r", S([]QX{T[0], e.CQ(0), e.CQ(0), T[1], e.CQ(0)}, T[2]), true)
		e.Code(func(api frontend.API) (o []FV) {
			c := chip(e, api)
			q := qvs(t)
			z := gl.ZeroExtension()
			for _, y := range specialQ(e, x) {
				o = append(o, outQ(c.ReduceWithPowers(q, y.code), c.ReduceWithPowers([]Q{q[0], y.code, q[2]}, q[1]), c.ReduceWithPowers([]Q{q[0], q[1], y.code}, q[0]))...)
			}
			return append(o, outQ(c.ReduceWithPowers([]Q{q[0], z, z, q[1], z}, q[2]))...)
		})
	})
	one("InnerProductExtension/special", func(e *Env) {
		k, s, a, b := e.GL("k"), e.QE("s"), e.QE("a"), e.QE("b")
		S, A, B := e.QX(s), e.QX(a), e.QX(b)
		for _, c := range []uint64{0, 1, 7} {
			e.OutQ("r", S.Add(e.RQ(A.Scale(c)).Mul(B)).Add(e.RQ(A.Scale(c)).Mul(A)), true)
		}
		e.OutQ("r", e.RQ(A.MulX(e.X(k))).Mul(B), true)
		e.OutQ("r", S.Add(e.RQ(A.MulX(e.X(k))).Mul(A)), true)
		e.OutQ("r", S.Add(e.RQ(A.MulX(e.X(k)))).Add(e.RQ(e.CQ(1).MulX(e.X(k))).Mul(B)), true)
		e.Code(func(api frontend.API) (o []FV) {
			c := chip(e, api)
			p, q, z, u := qv(a), qv(b), gl.ZeroExtension(), gl.OneExtension()
			for _, n := range []uint64{0, 1, 7} {
				o = append(o, outQ(c.InnerProductExtension(gl.NewVariable(n), qv(s), [][2]Q{{p, q}, {p, p}}))...)
			}
			return append(o, outQ(c.InnerProductExtension(gv(k), z, [][2]Q{{p, q}, {z, q}}), c.InnerProductExtension(gv(k), qv(s), [][2]Q{{p, p}, {p, z}}),
				c.InnerProductExtension(gv(k), qv(s), [][2]Q{{p, u}, {u, q}}))...)
		})
	})
	one("ExpExtension/special", func(e *Env) {
		x := e.GL("x")
		ns := []uint64{0, 1, 2, 5}
		for _, y := range specialQ(e, x) {
			for _, n := range ns {
				e.OutQ("r", e.PowQ(y.spec, n), true)
			}
		}
		e.Code(func(api frontend.API) (o []FV) {
			c := chip(e, api)
			for _, y := range specialQ(e, x) {
				for _, n := range ns {
					o = append(o, outQ(c.ExpExtension(y.code, n))...)
				}
			}
			return
		})
	})
	one("Lookup/special", func(e *Env) {
		b := e.Raw("b", pow2m1(1))
		x, y := e.QE("x"), e.GL("y")
		sel := func(b X, p, q QX) QX { return p.Add(q.Sub(p).MulX(b)) }
		for _, z := range specialQ(e, y) {
			e.OutQ("r", sel(e.X(b), e.QX(x), z.spec), false)
			e.OutQ("r", sel(e.X(b), z.spec, e.QX(x)), false)
		}
		e.OutQ("r", e.QX(x), false)
		e.OutQ("r", e.CQ(1), false)
		e.Code(func(api frontend.API) (o []FV) {
			c := chip(e, api)
			for _, z := range specialQ(e, y) {
				o = append(o, outQ(c.Lookup(b, qv(x), z.code), c.Lookup(b, z.code, qv(x)))...)
			}
			return append(o, outQ(c.Lookup(0, qv(x), gl.OneExtension()), c.Lookup(1, qv(x), gl.OneExtension()))...)
		})
	})
	one("IsZero/sum", func(e *Env) {
		// x, -x: neither coordinate is zero but their sum is
		x := e.GLNZ("x")
		e.OutN("nz", e.C.V(0))
		e.OutN("nz", e.C.V(0))
		e.Code(func(api frontend.API) []FV {
			c := chip(e, api)
			n := c.Sub(gl.Zero(), gv(x))
			return []FV{c.IsZero(Q{gv(x), n}), c.IsZero(gl.OneExtension())}
		})
	})
	one("IsZero", func(e *Env) {
		e.OutN("z", e.C.V(1))
		e.OutN("nz", e.C.V(0))
		e.OutN("nz", e.C.V(0))
		x := e.GLNZ("x")
		e.Code(func(api frontend.API) []FV {
			c := chip(e, api)
			return []FV{c.IsZero(gl.ZeroExtension()), c.IsZero(gl.NewQuadraticExtensionVariable(gv(x), gl.Zero())), c.IsZero(gl.NewQuadraticExtensionVariable(gl.Zero(), gv(x)))}
		})
	})
	one("Lookup", func(e *Env) {
		b := e.Raw("b", pow2m1(1))
		x, y := e.QE("x"), e.QE("y")
		r := e.QX(x).Add(e.QX(y).Sub(e.QX(x)).MulX(e.X(b)))
		e.OutQ("r", r, false)
		e.Code(func(api frontend.API) []FV { return outQ(chip(e, api).Lookup(b, qv(x), qv(y))) })
	})
	one("Lookup2", func(e *Env) {
		b0, b1 := e.Raw("b0", pow2m1(1)), e.Raw("b1", pow2m1(1))
		x := e.QEs("x", 4)
		lo := e.QX(x[0]).Add(e.QX(x[1]).Sub(e.QX(x[0])).MulX(e.X(b0)))
		hi := e.QX(x[2]).Add(e.QX(x[3]).Sub(e.QX(x[2])).MulX(e.X(b0)))
		e.OutQ("r", lo.Add(hi.Sub(lo).MulX(e.X(b1))), false)
		e.Code(func(api frontend.API) []FV {
			return outQ(chip(e, api).Lookup2(b0, b1, qv(x[0]), qv(x[1]), qv(x[2]), qv(x[3])))
		})
	})
	one("AssertIsEqualExtension", func(e *Env) {
		x, y := e.QE("x"), e.QE("y")
		e.EqQ("x=y", e.QX(x), e.QX(y), x)
		e.Code(func(api frontend.API) []FV {
			chip(e, api).AssertIsEqualExtension(qv(x), qv(y))
			return nil
		})
	})
	return
}

type special struct {
	spec QX
	code gl.QuadraticExtensionVariable
}

// specialQ are operands that code may treat specially: constants, and elements with a zero coordinate.
func specialQ(e *Env, x *Var) []special {
	v, z := gv(x), gl.Zero()
	k := func(a, b uint64) special {
		return special{QX{e.CX(a), e.CX(b)}, gl.QuadraticExtensionVariable{gl.NewVariable(a), gl.NewVariable(b)}}
	}
	return []special{k(0, 0), k(1, 0), k(0, 1), k(sym.GM-1, 0), k(5, 9), {QX{e.X(x), e.CX(0)}, gl.QuadraticExtensionVariable{v, z}},
		{QX{e.CX(0), e.X(x)}, gl.QuadraticExtensionVariable{z, v}}, {QX{e.X(x), e.X(x)}, gl.QuadraticExtensionVariable{v, v}}}
}

// AX is an element of the algebra F_ext[X]/(X^2-7).
type AX [2]QX

func (a AX) Add(b AX) AX { return AX{a[0].Add(b[0]), a[1].Add(b[1])} }
func (a AX) Sub(b AX) AX { return AX{a[0].Sub(b[0]), a[1].Sub(b[1])} }
func (a AX) Mul(b AX) AX {
	return AX{a[0].Mul(b[0]).Add(a[1].Mul(b[1]).Scale(7)), a[0].Mul(b[1]).Add(a[1].Mul(b[0]))}
}
func (a AX) MulQ(b QX) AX      { return AX{a[0].Mul(b), a[1].Mul(b)} }
func (a AX) Scale(u uint64) AX { return AX{a[0].Scale(u), a[1].Scale(u)} }
func redA(e *Env, a AX) AX     { return AX{e.RQ(a[0]), e.RQ(a[1])} }
func inA(e *Env, n string) [2][2]*Var {
	return [2][2]*Var{e.QE(n + ".a"), e.QE(n + ".b")}
}
func ax(e *Env, a [2][2]*Var) AX { return AX{e.QX(a[0]), e.QX(a[1])} }
func av(a [2][2]*Var) gl.QuadraticExtensionAlgebraVariable {
	return gl.QuadraticExtensionAlgebraVariable{qv(a[0]), qv(a[1])}
}
func A2(a, b gl.QuadraticExtensionVariable) gl.QuadraticExtensionAlgebraVariable {
	return gl.QuadraticExtensionAlgebraVariable{a, b}
}
func outAX(e *Env, n string, a AX, can bool) {
	e.OutQ(n+".a", a[0], can)
	e.OutQ(n+".b", a[1], can)
}

func algComps(th bool) (out []*Comp) {
	one := func(name string, build func(e *Env)) { out = append(out, inMode(sym.Native, name, build)) }
	type A = gl.QuadraticExtensionAlgebraVariable
	bin := func(name string, spec func(a, b AX) AX, code func(c *gl.Chip, a, b A) A) {
		one(name, func(e *Env) {
			a, b := inA(e, "a"), inA(e, "b")
			outAX(e, "r", spec(ax(e, a), ax(e, b)), true)
			e.Code(func(api frontend.API) []FV {
				r := code(chip(e, api), av(a), av(b))
				return outQ(r[:]...)
			})
		})
	}
	bin("AddExtensionAlgebra", AX.Add, (*gl.Chip).AddExtensionAlgebra)
	bin("SubExtensionAlgebra", AX.Sub, (*gl.Chip).SubExtensionAlgebra)
	bin("MulExtensionAlgebra", AX.Mul, (*gl.Chip).MulExtensionAlgebra)
	one("ScalarMulExtensionAlgebra", func(e *Env) {
		a, b := e.QE("a"), inA(e, "b")
		outAX(e, "r", ax(e, b).MulQ(e.QX(a)), true)
		e.Code(func(api frontend.API) []FV {
			r := chip(e, api).ScalarMulExtensionAlgebra(qv(a), av(b))
			return outQ(r[:]...)
		})
	})
	one("constants", func(e *Env) {
		a := e.QE("a")
		outAX(e, "zero", AX{e.CQ(0), e.CQ(0)}, true)
		outAX(e, "one", AX{e.CQ(1), e.CQ(0)}, true)
		outAX(e, "lift", AX{e.QX(a), e.CQ(0)}, true)
		e.Code(func(api frontend.API) []FV {
			z, o, l := gl.ZeroExtensionAlgebra(), gl.OneExtensionAlgebra(), qv(a).ToQuadraticExtensionAlgebra()
			return outQ(append(append(z[:], o[:]...), l[:]...)...)
		})
	})
	// constants and zero coordinates
	one("special", func(e *Env) {
		a, x := inA(e, "a"), e.GL("x")
		va := ax(e, a)
		type sp struct {
			spec AX
			code gl.QuadraticExtensionAlgebraVariable
		}
		var sps []sp
		for _, y := range specialQ(e, x) {
			sps = append(sps, sp{AX{y.spec, e.CQ(0)}, A2(y.code, gl.ZeroExtension())}, sp{AX{e.CQ(0), y.spec}, A2(gl.ZeroExtension(), y.code)}, sp{AX{y.spec, y.spec}, A2(y.code, y.code)})
		}
		for _, y := range sps {
			outAX(e, "r", va.Mul(y.spec), true)
			outAX(e, "r", y.spec.Mul(va), true)
			outAX(e, "r", va.Add(y.spec), true)
			outAX(e, "r", va.Sub(y.spec), true)
			outAX(e, "r", y.spec.Sub(va), true)
		}
		outAX(e, "r", va.Mul(va), true)
		outAX(e, "r", va.Sub(va), true)
		for _, y := range specialQ(e, x) {
			outAX(e, "r", va.MulQ(y.spec), true)
		}
		outAX(e, "r", va.MulQ(va[0]), true)
		e.Code(func(api frontend.API) (o []FV) {
			c := chip(e, api)
			add := func(r A) { o = append(o, outQ(r[:]...)...) }
			for _, y := range sps {
				add(c.MulExtensionAlgebra(av(a), y.code))
				add(c.MulExtensionAlgebra(y.code, av(a)))
				add(c.AddExtensionAlgebra(av(a), y.code))
				add(c.SubExtensionAlgebra(av(a), y.code))
				add(c.SubExtensionAlgebra(y.code, av(a)))
			}
			add(c.MulExtensionAlgebra(av(a), av(a)))
			add(c.SubExtensionAlgebra(av(a), av(a)))
			for _, y := range specialQ(e, x) {
				add(c.ScalarMulExtensionAlgebra(y.code, av(a)))
			}
			add(c.ScalarMulExtensionAlgebra(qv(a[0]), av(a)))
			return
		})
	})
	type dw struct {
		name     string
		dom, wts []gfield.Element
		start    bool // from the empty product
	}
	var dws []dw
	ks := []int{1, 2, 3, 4, 6, 8}
	if th {
		ks = append(ks, 5, 7, 9, 12, 16, 24, 32)
	}
	for _, n := range ks {
		d, w := genDom(n)
		dws = append(dws, dw{fmt.Sprint(n), d, w, false}, dw{fmt.Sprint(n, "/start"), d, w, true})
	}
	el := func(us ...uint64) (o []gfield.Element) {
		for _, u := range us {
			o = append(o, gfield.NewElement(u))
		}
		return
	}
	// zero and repeated points, zero weights
	dws = append(dws, dw{"/zeros", el(0, 1, 0), el(0, 5, 1), false}, dw{"/zeroWeights", el(3, 1, 9), el(2, 0, 0), false},
		dw{"/repeated", el(4, 4, sym.GM-1), el(1, sym.GM-1, 1), false}, dw{"/ones", el(1), el(1), false}, dw{"/allZero", el(0, 0), el(0, 0), false})
	for _, d := range dws {
		d := d
		n := len(d.dom)
		one("PartialInterpolate"+d.name, func(e *Env) {
			vals := make([][2][2]*Var, n)
			for i := range vals {
				vals[i] = inA(e, fmt.Sprintf("v%d", i))
			}
			pt := inA(e, "pt")
			dom, wts := d.dom, d.wts
			E, P := AX{e.CQ(0), e.CQ(0)}, AX{e.CQ(1), e.CQ(0)}
			ev, pp := gl.ZeroExtensionAlgebra(), gl.OneExtensionAlgebra()
			if !d.start {
				v, p := inA(e, "ev"), inA(e, "pp")
				E, P, ev, pp = ax(e, v), ax(e, p), av(v), av(p)
			}
			for i := range vals {
				t := AX{ax(e, pt)[0].Sub(e.CQ(dom[i].Uint64())), ax(e, pt)[1]}
				t = redA(e, t)
				w := redA(e, ax(e, vals[i]).Scale(wts[i].Uint64()))
				E = redA(e, redA(e, E.Mul(t)).Add(redA(e, w.Mul(P))))
				P = redA(e, P.Mul(t))
			}
			outAX(e, "eval", E, true)
			outAX(e, "prod", P, true)
			e.Code(func(api frontend.API) []FV {
				var vs []A
				for i := range vals {
					vs = append(vs, av(vals[i]))
				}
				a, b := chip(e, api).PartialInterpolateExtAlgebra(dom, vs, wts, av(pt), ev, pp)
				return outQ(append(a[:], b[:]...)...)
			})
		})
	}
	return
}
