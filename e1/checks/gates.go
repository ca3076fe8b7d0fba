package checks

import (
	"fmt"
	"strings"

	gfield "github.com/consensys/gnark-crypto/field/goldilocks"
	"github.com/consensys/gnark/frontend"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/plonk/gates"
	"verif/e1/sym"
)

// gateSpec is a gate as plonky2 defines it.
type gateSpec struct {
	id            string // as plonky2 prints it
	wires, consts int
	mk            func() gates.Gate
	f             func(e *Env, c, w []QX, pih []X) []QX
}

const phantom = "_phantom: PhantomData<plonky2_field::goldilocks_field::GoldilocksField> }<D=2>"

func alg(w []QX, i int) AX { return AX{w[i], w[i+1]} }
func (a AX) list() []QX    { return []QX{a[0], a[1]} }

func gArith(n int) gateSpec {
	return gateSpec{fmt.Sprintf("ArithmeticGate { num_ops: %d }", n), 4 * n, 2, func() gates.Gate { return gates.NewArithmeticGate(uint64(n)) },
		func(e *Env, c, w []QX, _ []X) (o []QX) {
			for i := 0; i < n; i++ {
				p := e.RQ(e.RQ(w[4*i].Mul(w[4*i+1])).Mul(c[0]))
				o = append(o, w[4*i+3].Sub(p.Add(e.RQ(w[4*i+2].Mul(c[1])))))
			}
			return
		}}
}
func gArithExt(n int) gateSpec {
	return gateSpec{fmt.Sprintf("ArithmeticExtensionGate { num_ops: %d }", n), 8 * n, 2, func() gates.Gate { return gates.NewArithmeticExtensionGate(uint64(n)) },
		func(e *Env, c, w []QX, _ []X) (o []QX) {
			for i := 0; i < n; i++ {
				p := redA(e, redA(e, alg(w, 8*i).Mul(alg(w, 8*i+2))).MulQ(c[0]))
				o = append(o, alg(w, 8*i+6).Sub(p.Add(redA(e, alg(w, 8*i+4).MulQ(c[1])))).list()...)
			}
			return
		}}
}
func gMulExt(n int) gateSpec {
	return gateSpec{fmt.Sprintf("MulExtensionGate { num_ops: %d }", n), 6 * n, 1, func() gates.Gate { return gates.NewMultiplicationExtensionGate(uint64(n)) },
		func(e *Env, c, w []QX, _ []X) (o []QX) {
			for i := 0; i < n; i++ {
				p := redA(e, redA(e, alg(w, 6*i).Mul(alg(w, 6*i+2))).MulQ(c[0]))
				o = append(o, alg(w, 6*i+4).Sub(p).list()...)
			}
			return
		}}
}
func gBaseSum(n, base int) gateSpec {
	return gateSpec{fmt.Sprintf("BaseSumGate { num_limbs: %d } + Base: %d", n, base), n + 1, 0, func() gates.Gate { return gates.NewBaseSumGate(uint64(n), uint64(base)) },
		func(e *Env, c, w []QX, _ []X) (o []QX) {
			s := e.CQ(0)
			for i := n; i >= 1; i-- {
				s = e.RQ(s.Scale(uint64(base)).Add(w[i]))
			}
			o = append(o, s.Sub(w[0]))
			for i := 1; i <= n; i++ {
				p := e.CQ(1)
				for k := 0; k < base; k++ {
					p = e.RQ(p.Mul(w[i].Sub(e.CQ(uint64(k)))))
				}
				o = append(o, p)
			}
			return
		}}
}
func gConst(n int) gateSpec {
	return gateSpec{fmt.Sprintf("ConstantGate { num_consts: %d }", n), n, n, func() gates.Gate { return gates.NewConstantGate(uint64(n)) },
		func(e *Env, c, w []QX, _ []X) (o []QX) {
			for i := 0; i < n; i++ {
				o = append(o, c[i].Sub(w[i]))
			}
			return
		}}
}
func gNoop() gateSpec {
	return gateSpec{"NoopGate", 0, 0, func() gates.Gate { return gates.NewNoopGate() }, func(e *Env, c, w []QX, _ []X) []QX { return nil }}
}
func gPI() gateSpec {
	return gateSpec{"PublicInputGate", 4, 0, func() gates.Gate { return gates.NewPublicInputGate() },
		func(e *Env, c, w []QX, pih []X) (o []QX) {
			for i := 0; i < 4; i++ {
				o = append(o, w[i].Sub(e.FromX(pih[i])))
			}
			return
		}}
}
func gExp(n int) gateSpec {
	return gateSpec{fmt.Sprintf("ExponentiationGate { num_power_bits: %d, ", n) + phantom, 2 + 2*n, 0, func() gates.Gate { return gates.NewExponentiationGate(uint64(n)) },
		func(e *Env, c, w []QX, _ []X) (o []QX) {
			mid := w[2+n:]
			for i := 0; i < n; i++ {
				prev := e.CQ(1)
				if i > 0 {
					prev = e.RQ(mid[i-1].Mul(mid[i-1]))
				}
				b := w[1+n-1-i]
				sel := e.RQ(e.RQ(b.Mul(w[0])).Add(e.CQ(1).Sub(b)))
				o = append(o, e.RQ(prev.Mul(sel)).Sub(mid[i]))
			}
			return append(o, w[1+n].Sub(mid[n-1]))
		}}
}
func gRandomAccess(bits, copies, extra int) gateSpec {
	v := 1 << bits
	routed := (2+v)*copies + extra
	return gateSpec{fmt.Sprintf("RandomAccessGate { bits: %d, num_copies: %d, num_extra_constants: %d, ", bits, copies, extra) + phantom,
		routed + copies*bits, extra, func() gates.Gate {
			return gates.NewRandomAccessGate(uint64(bits), uint64(copies), uint64(extra))
		},
		func(e *Env, c, w []QX, _ []X) (o []QX) {
			for k := 0; k < copies; k++ {
				at := (2 + v) * k
				bs := w[routed+k*bits : routed+(k+1)*bits]
				for _, b := range bs {
					o = append(o, e.RQ(b.Mul(b)).Sub(b))
				}
				idx := e.CQ(0)
				for i := bits - 1; i >= 0; i-- {
					idx = e.RQ(idx.Scale(2).Add(bs[i]))
				}
				o = append(o, idx.Sub(w[at]))
				items := append([]QX{}, w[at+2:at+2+v]...)
				for _, b := range bs {
					var nx []QX
					for i := 0; i < len(items); i += 2 {
						nx = append(nx, e.RQ(items[i].Add(b.Mul(items[i+1].Sub(items[i])))))
					}
					items = nx
				}
				o = append(o, items[0].Sub(w[at+1]))
			}
			for i := 0; i < extra; i++ {
				o = append(o, c[i].Sub(w[routed-extra+i]))
			}
			return
		}}
}

// gReducing: the coefficients are extension elements or algebra elements.
func gReducing(n int, ext bool) gateSpec {
	d, name := 1, "ReducingGate"
	mk := func() gates.Gate { return gates.NewReducingGate(uint64(n)) }
	if ext {
		d, name = 2, "ReducingExtensionGate"
		mk = func() gates.Gate { return gates.NewReducingExtensionGate(uint64(n)) }
	}
	accs := 6 + d*n
	return gateSpec{fmt.Sprintf("%s { num_coeffs: %d }", name, n), accs + 2*(n-1), 0, mk,
		func(e *Env, c, w []QX, _ []X) (o []QX) {
			acc := alg(w, 4)
			for i := 0; i < n; i++ {
				co := AX{w[6+d*i], e.CQ(0)}
				if ext {
					co = alg(w, 6+d*i)
				}
				next := alg(w, 0)
				if i < n-1 {
					next = alg(w, accs+2*i)
				}
				o = append(o, redA(e, redA(e, acc.Mul(alg(w, 2))).Add(co)).Sub(next).list()...)
				acc = next
			}
			return
		}}
}
func gPoseidonMds() gateSpec {
	return gateSpec{"PoseidonMdsGate(PhantomData<plonky2_field::goldilocks_field::GoldilocksField>)<WIDTH=12>", 48, 0, func() gates.Gate { return gates.NewPoseidonMdsGate() },
		func(e *Env, c, w []QX, _ []X) (o []QX) {
			for i := 0; i < 12; i++ {
				s := alg(w, 2*i).Scale(glDiag[i])
				for j := 0; j < 12; j++ {
					s = s.Add(alg(w, 2*((i+j)%12)).Scale(glCirc[j]))
				}
				o = append(o, alg(w, 24+2*i).Sub(redA(e, s)).list()...)
			}
			return
		}}
}
func gPoseidon() gateSpec {
	return gateSpec{"PoseidonGate(PhantomData<plonky2_field::goldilocks_field::GoldilocksField>)<WIDTH=12>", 135, 0, func() gates.Gate { return gates.NewPoseidonGate() },
		func(e *Env, c, w []QX, _ []X) (o []QX) {
			swap := w[24]
			o = append(o, e.RQ(swap.Mul(swap.Sub(e.CQ(1)))))
			s := append([]QX{}, w[:12]...)
			for i := 0; i < 4; i++ {
				o = append(o, e.RQ(swap.Mul(w[i+4].Sub(w[i]))).Sub(w[25+i]))
				s[i] = w[i].Add(w[25+i])
				s[i+4] = w[i+4].Sub(w[25+i])
			}
			at := 29
			take := func(i int) {
				o = append(o, e.RQ(s[i]).Sub(w[at]))
				s[i] = w[at]
				at++
			}
			for r := 0; r < 30; r++ {
				full := r < 4 || r >= 26
				for i := range s {
					s[i] = s[i].Add(e.CQ(glRC[12*r+i]))
				}
				for i := range s {
					if !full && i > 0 {
						break
					}
					if r > 0 {
						take(i)
					}
					x := e.RQ(s[i])
					x2 := e.RQ(x.Mul(x))
					s[i] = e.RQ(e.RQ(x2.Mul(x2)).Mul(e.RQ(x2.Mul(x))))
				}
				n := make([]QX, 12)
				for i := range n {
					n[i] = s[i].Scale(glDiag[i])
					for j := range s {
						n[i] = n[i].Add(s[(i+j)%12].Scale(glCirc[j]))
					}
					if full {
						n[i] = e.RQ(n[i])
					}
				}
				s = n
			}
			for i := range s {
				o = append(o, s[i].Sub(w[12+i]))
			}
			return
		}}
}

// baryWeights of the subgroup of size 2^bits.
func baryWeights(bits int) (out []uint64) {
	n := 1 << bits
	g := rootGL(uint64(bits))
	var xs []uint64
	for i := 0; i < n; i++ {
		xs = append(xs, sym.PowM(g, uint64(i)))
	}
	for i := range xs {
		w := uint64(1)
		for j := range xs {
			if i != j {
				w = sym.MulM(w, sym.SubM(xs[i], xs[j]))
			}
		}
		out = append(out, sym.InvM(w))
	}
	return
}
func gCoset(bits, degree int) gateSpec {
	n := 1 << bits
	wts := baryWeights(bits)
	var el []gfield.Element
	var ws []string
	for _, x := range wts {
		el = append(el, gfield.NewElement(x))
		ws = append(ws, fmt.Sprint(x))
	}
	im := (n - 2) / (degree - 1)
	return gateSpec{fmt.Sprintf("CosetInterpolationGate { subgroup_bits: %d, degree: %d, barycentric_weights: [%s], ", bits, degree, strings.Join(ws, ", ")) + phantom,
		1 + 2*n + 4 + 4*im + 2, 0, func() gates.Gate { return gates.NewCosetInterpolationGate(uint64(bits), uint64(degree), el) },
		func(e *Env, c, w []QX, _ []X) (o []QX) {
			pt, val, mid := alg(w, 1+2*n), alg(w, 3+2*n), 5+2*n
			sh := alg(w, mid+4*im)
			o = append(o, pt.Sub(redA(e, sh.MulQ(w[0]))).list()...)
			g := rootGL(uint64(bits))
			E, P := AX{e.CQ(0), e.CQ(0)}, AX{e.CQ(1), e.CQ(0)}
			k := 0
			for i := 0; i < n; i++ {
				if i >= degree && (i-1)%(degree-1) == 0 && k < im {
					me, mp := alg(w, mid+2*k), alg(w, mid+2*(im+k))
					o = append(o, me.Sub(E).list()...)
					o = append(o, mp.Sub(P).list()...)
					E, P = me, mp
					k++
				}
				t := AX{e.RQ(sh[0].Sub(e.CQ(sym.PowM(g, uint64(i))))), sh[1]}
				wv := redA(e, alg(w, 1+2*i).Scale(wts[i]))
				E = redA(e, redA(e, E.Mul(t)).Add(redA(e, wv.Mul(P))))
				P = redA(e, P.Mul(t))
			}
			if k != im {
				panic(fmt.Sprintf("harness: %d intermediates used, %d expected", k, im))
			}
			return append(o, val.Sub(E).list()...)
		}}
}

func gateComp(m sym.Mode, g gateSpec) *Comp {
	nm := g.id
	if i := strings.Index(nm, ", barycentric"); i > 0 {
		nm = nm[:i]
	}
	nm = strings.NewReplacer(" ", "", "_phantom:PhantomData<plonky2_field::goldilocks_field::GoldilocksField>}", "", "PhantomData<plonky2_field::goldilocks_field::GoldilocksField>", "").Replace(nm)
	return inMode(m, nm, func(e *Env) {
		in := mkIn{e: e, gl: e.GL}
		cs, ws, ph := in.qes("constant", g.consts), in.qes("wire", g.wires), e.GLs("publicInputsHash", 4)
		var hx []X
		for _, h := range ph {
			hx = append(hx, e.X(h))
		}
		for i, q := range g.f(e, qxs(e, cs), qxs(e, ws), hx) {
			e.OutQ(fmt.Sprintf("constraint[%d]", i), q, false)
		}
		e.Code(func(api frontend.API) []FV {
			c := chip(e, api)
			return outQ(g.mk().EvalUnfiltered(api, c, *gates.NewEvaluationVars(qvs(cs), qvs(ws), glHash(ph)))...)
		})
	})
}

func quickGates() []gateSpec {
	return []gateSpec{gNoop(), gPI(), gArith(1), gArith(3), gArithExt(1), gArithExt(3), gMulExt(1), gMulExt(3), gBaseSum(1, 2), gBaseSum(7, 2), gBaseSum(3, 4), gBaseSum(4, 3),
		gConst(1), gConst(2), gConst(5), gExp(1), gExp(2), gExp(7), gRandomAccess(1, 1, 0), gRandomAccess(1, 2, 2), gRandomAccess(2, 3, 1), gRandomAccess(4, 2, 2), gRandomAccess(3, 1, 3),
		gReducing(1, false), gReducing(5, false), gReducing(1, true), gReducing(5, true), gPoseidonMds(), gPoseidon(),
		gCoset(1, 2), gCoset(2, 2), gCoset(2, 3), gCoset(3, 3), gCoset(3, 4), gCoset(4, 6), gCoset(2, 4)}
}
func wideGates() (o []gateSpec) {
	for n := 1; n <= 20; n++ {
		o = append(o, gArith(n), gMulExt(min(n, 13)), gConst(n), gReducing(n, false), gReducing(n, true))
		if n <= 10 {
			o = append(o, gArithExt(n))
		}
	}
	for _, n := range []int{1, 2, 3, 16, 31, 32, 33, 48, 62, 63, 66, 67} {
		o = append(o, gExp(n), gBaseSum(n, 2))
	}
	for b := 2; b <= 8; b++ {
		o = append(o, gBaseSum(9, b))
	}
	for b := 1; b <= 6; b++ {
		for c := 1; c <= 4; c++ {
			o = append(o, gRandomAccess(b, c, (b+c)%4))
		}
	}
	o = append(o, gRandomAccess(4, 4, 2), gReducing(43, false), gReducing(32, true), gReducing(33, true), gReducing(64, false))
	for b := 1; b <= 4; b++ {
		for d := 2; d <= 1<<b && d <= 9; d++ {
			o = append(o, gCoset(b, d))
		}
	}
	o = append(o, gCoset(5, 2), gCoset(5, 5), gCoset(5, 8))
	return append(o, gNoop(), gPI(), gPoseidon(), gPoseidonMds(), gArith(20), gArithExt(10), gMulExt(13))
}
func thoroughGates() (o []gateSpec) {
	for n := 1; n <= 67; n++ {
		o = append(o, gExp(n), gBaseSum(n, 2), gReducing(n, false), gReducing(n, true))
		if n <= 40 {
			o = append(o, gArith(n), gArithExt(n), gMulExt(n), gConst(n))
		}
		if n <= 20 {
			o = append(o, gBaseSum(n, 3), gBaseSum(n, 4), gBaseSum(n, 8), gBaseSum(n, 16))
		}
	}
	for b := 1; b <= 6; b++ {
		for c := 1; c <= 5; c++ {
			for x := 0; x < 4; x++ {
				o = append(o, gRandomAccess(b, c, x))
			}
		}
	}
	for b := 1; b <= 5; b++ {
		for d := 2; d <= 1<<b; d++ {
			o = append(o, gCoset(b, d))
		}
	}
	return append(o, gRandomAccess(7, 1, 1), gRandomAccess(8, 1, 0), gCoset(6, 7), gCoset(6, 33))
}

func init() {
	register(&Prop{ID: "C17", Title: "gates",
		Functions: []string{"EvalUnfiltered of plonk/gates: ArithmeticGate, ArithmeticExtensionGate, MultiplicationExtensionGate, BaseSumGate, ConstantGate, NoopGate, PublicInputGate, ExponentiationGate, RandomAccessGate, ReducingGate, ReducingExtensionGate, PoseidonGate, PoseidonMdsGate, CosetInterpolationGate (with their wire layouts)", "poseidon.GoldilocksChip *Extension layers", "goldilocks.Chip extension and extension-algebra arithmetic", "goldilocks.TwoAdicSubgroup"},
		Bounds:    "gate parameters as listed by the components; every wire, constant and public-input-hash value",
		Assume:    []string{"wires, constants and public-input hash are canonical (C12, C07)"},
		Comps: func(th bool) (out []*Comp) {
			gs := append(quickGates(), wideGates()...)
			if th {
				gs = append(gs, thoroughGates()...)
			}
			seen := map[string]bool{}
			for _, g := range gs {
				c := gateComp(sym.Native, g)
				if !seen[c.Name] {
					seen[c.Name] = true
					out = append(out, c)
				}
			}
			out = append(out, gateComp(sym.Plain, gArith(1)), gateComp(sym.Commit, gArith(2)))
			return
		}})
	_ = gl.D
}
