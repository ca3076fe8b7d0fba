package checks

import (
	"fmt"

	"github.com/consensys/gnark/frontend"
	"github.com/succinctlabs/gnark-plonky2-verifier/poseidon"
	"verif/e1/sym"
)

// posGLSpec is the textbook Poseidon permutation over Goldilocks: every round
// adds all constants, applies x^7 (to all or to the first element) and the full MDS matrix.
func posGLSpec(e *Env, st []X) []X {
	s := append([]X{}, st...)
	for r := 0; r < 30; r++ {
		full := r < 4 || r >= 26
		for i := range s {
			s[i] = s[i].Add(e.CX(glRC[12*r+i]))
			if full || i == 0 {
				x := e.RX(s[i])
				s[i] = e.RX(x.Mul(x).Mul(x).Mul(x).Mul(x).Mul(x).Mul(x))
			}
		}
		n := make([]X, 12)
		for i := range n {
			n[i] = s[i].Scale(glDiag[i])
			for j := range s {
				n[i] = n[i].Add(s[(i+j)%12].Scale(glCirc[j]))
			}
			if full {
				n[i] = e.RX(n[i])
			}
		}
		s = n
	}
	return s
}

// posGLRef is the same permutation on concrete values.
func posGLRef(st [12]uint64) [12]uint64 {
	s := st
	for r := 0; r < 30; r++ {
		full := r < 4 || r >= 26
		for i := range s {
			s[i] = sym.AddM(s[i], glRC[12*r+i])
			if full || i == 0 {
				s[i] = sym.PowM(s[i], 7)
			}
		}
		var n [12]uint64
		for i := range n {
			n[i] = sym.MulM(s[i], glDiag[i])
			for j := range s {
				n[i] = sym.AddM(n[i], sym.MulM(s[(i+j)%12], glCirc[j]))
			}
		}
		s = n
	}
	return s
}

func init() {
	register(&Prop{ID: "C06", Title: "Goldilocks Poseidon permutation", Comps: posGLComps,
		Functions: []string{"poseidon.GoldilocksChip.Poseidon and everything it calls (fullRounds, partialRounds, the s-box, the fast partial-round layers, the constant tables), goldilocks.Chip.Reduce, ReduceWithMaxBits, MulAdd"},
		Bounds:    "none on the values: every canonical state and every hint answer, all 30 rounds; the specification is the textbook form (round constants, x^7, circulant-plus-diagonal MDS in every round) with the constants of plonky2, against which the fast form of the code is proved round by round",
		Assume:    []string{"the input state is canonical"}})
}

func posGLComps(th bool) (out []*Comp) {
	// every list of states is permuted by one chip, one after the other
	mk := func(name string, states func(e *Env) [][]*Var) {
		out = append(out, inMode(sym.Native, "PoseidonGL"+name, func(e *Env) {
			ins := states(e)
			for _, in := range ins {
				var st []X
				for _, v := range in {
					st = append(st, e.X(v))
				}
				for _, x := range posGLSpec(e, st) {
					e.OutGL("out", x, true)
				}
			}
			e.Code(func(api frontend.API) (fv []FV) {
				c := poseidon.NewGoldilocksChip(api)
				for _, in := range ins {
					var s poseidon.GoldilocksState
					for i := range s {
						s[i] = gv(in[i])
					}
					o := c.Poseidon(s)
					fv = append(fv, outG(o[:]...)...)
				}
				return
			})
		}))
	}
	consts := func(e *Env, vs ...uint64) (r []*Var) {
		for _, v := range vs {
			r = append(r, e.NU(v))
		}
		return
	}
	mk("", func(e *Env) [][]*Var { return [][]*Var{e.GLs("s", 12)} })
	mk("/capacity0", func(e *Env) [][]*Var {
		return [][]*Var{append(e.GLs("s", 8), consts(e, 0, 0, 0, 0)...)}
	})
	mk("/constants", func(e *Env) [][]*Var {
		s := e.GLs("s", 4)
		return [][]*Var{append(append(consts(e, 0, 1, 7, sym.GM-1), s...), consts(e, 5, sym.GM-1, 3, 1<<32)...)}
	})
	mk("/repeated", func(e *Env) [][]*Var {
		a := e.GL("s")
		return [][]*Var{{a, a, a, a, a, a, a, a, a, a, a, a}}
	})
	// the same rate, another capacity; the same capacity, another rate
	mk("/two", func(e *Env) [][]*Var {
		s, c, d := e.GLs("s", 8), e.GLs("c", 4), e.GLs("d", 4)
		j := func(a, b []*Var) []*Var { return append(append([]*Var{}, a...), b...) }
		return [][]*Var{j(s, c), j(s, d)}
	})
	mk("/three", func(e *Env) [][]*Var {
		s, c, t := e.GLs("s", 8), e.GLs("c", 4), e.GLs("t", 8)
		j := func(a, b []*Var) []*Var { return append(append([]*Var{}, a...), b...) }
		return [][]*Var{j(s, c), j(t, c), j(s, c)}
	})
	mk("/lastDiffers", func(e *Env) [][]*Var {
		s := e.GLs("s", 12)
		t := append(append([]*Var{}, s[:11]...), e.GL("t"))
		u := append(append([]*Var{}, s[1:]...), s[0])
		return [][]*Var{s, t, u}
	})
	if th {
		mk("/swapped", func(e *Env) [][]*Var {
			s := e.GLs("s", 12)
			var out [][]*Var
			for i := 0; i < 12; i++ {
				out = append(out, append(append([]*Var{}, s[i:]...), s[:i]...))
			}
			return out
		})
		for i := 0; i < 12; i++ {
			i := i
			mk(fmt.Sprint("/oneFree", i), func(e *Env) [][]*Var {
				t := consts(e, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0)
				t[i] = e.GL("s")
				return [][]*Var{t}
			})
		}
	}
	return
}
