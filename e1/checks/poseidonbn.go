package checks

import (
	"fmt"
	"math/big"
	"sync"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/frontend"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/poseidon"
	"verif/e1/sym"
)

// grain is the Grain LFSR of the Poseidon reference parameter generation.
type grain struct{ b []byte }

func newGrain(field, sbox, n, t, rf, rp int) *grain {
	g := &grain{}
	put := func(v, w int) {
		for i := w - 1; i >= 0; i-- {
			g.b = append(g.b, byte(v>>i&1))
		}
	}
	put(field, 2)
	put(sbox, 4)
	put(n, 12)
	put(t, 12)
	put(rf, 10)
	put(rp, 10)
	for len(g.b) < 80 {
		g.b = append(g.b, 1)
	}
	for i := 0; i < 160; i++ {
		g.raw()
	}
	return g
}
func (g *grain) raw() byte {
	x := g.b[62] ^ g.b[51] ^ g.b[38] ^ g.b[23] ^ g.b[13] ^ g.b[0]
	g.b = append(g.b[1:], x)
	return x
}
func (g *grain) bit() byte {
	for g.raw() == 0 {
		g.raw()
	}
	return g.raw()
}
func (g *grain) bits(n int) *big.Int {
	v := new(big.Int)
	for i := 0; i < n; i++ {
		v.Lsh(v, 1)
		v.SetBit(v, 0, uint(g.bit()))
	}
	return v
}

const bnFull, bnPartial = 8, 56

var bnOnce sync.Once
var bnRC []fr.Element    // round constants
var bnM [4][4]fr.Element // MDS matrix, new[i] = sum_j M[i][j] old[j]

func bnParams() {
	bnOnce.Do(func() {
		g := newGrain(1, 0, 254, 4, bnFull, bnPartial)
		for len(bnRC) < 4*(bnFull+bnPartial) {
			v := g.bits(254)
			if v.Cmp(sym.BigR) < 0 {
				var e fr.Element
				e.SetBigInt(v)
				bnRC = append(bnRC, e)
			}
		}
		var xy [8]fr.Element
		for i := range xy {
			xy[i].SetBigInt(g.bits(254))
		}
		for i := 0; i < 4; i++ {
			for j := 0; j < 4; j++ {
				bnM[i][j].Add(&xy[i], &xy[4+j])
				bnM[i][j].Inverse(&bnM[i][j])
			}
		}
	})
}

// posBNFr is the textbook permutation on concrete values.
func posBNFr(in []fr.Element) []fr.Element {
	bnParams()
	s := append([]fr.Element{}, in...)
	for r := 0; r < bnFull+bnPartial; r++ {
		full := r < bnFull/2 || r >= bnFull/2+bnPartial
		for i := range s {
			s[i].Add(&s[i], &bnRC[4*r+i])
			if full || i == 0 {
				var x fr.Element
				x.Square(&s[i])
				x.Square(&x)
				s[i].Mul(&x, &s[i])
			}
		}
		n := make([]fr.Element, 4)
		for i := range n {
			for j := range s {
				var t fr.Element
				t.Mul(&bnM[i][j], &s[j])
				n[i].Add(&n[i], &t)
			}
		}
		s = n
	}
	return s
}

// posBNSpec is the textbook permutation over symbolic values.
func posBNSpec(e *Env, st []*Var) []*Var {
	bnParams()
	s := append([]*Var{}, st...)
	for r := 0; r < bnFull+bnPartial; r++ {
		full := r < bnFull/2 || r >= bnFull/2+bnPartial
		for i := range s {
			s[i] = e.NAdd(s[i], e.NConst(bnRC[4*r+i]))
			if full || i == 0 {
				x2 := e.NMul(s[i], s[i])
				s[i] = e.NMul(e.NMul(x2, x2), s[i])
			}
		}
		n := make([]*Var, 4)
		for i := range n {
			n[i] = e.NConst(fr.Element{})
			for j := range s {
				n[i] = e.NAdd(n[i], e.NMul(e.NConst(bnM[i][j]), s[j]))
			}
		}
		s = n
	}
	return s
}

func init() {
	register(&Prop{ID: "C08", Title: "BN254 Poseidon permutation", Comps: posBNComps,
		Functions: []string{"poseidon.BN254Chip.Poseidon and everything it calls (ark, exp5, mix, fullRounds, partialRounds, the constant tables)"},
		Bounds:    "none on the values: all states in Fr^4; the specification is the textbook form with constants regenerated from the Grain LFSR of the Poseidon paper"})
}

func posBNComps(th bool) (out []*Comp) {
	// every list of states is permuted by one chip, one after the other
	mk := func(name string, states func(e *Env) [][]*Var) {
		for _, m := range modes {
			out = append(out, inMode(m, "PoseidonBN254"+name, func(e *Env) {
				ins := states(e)
				for k, in := range ins {
					for i, o := range posBNSpec(e, in) {
						e.OutN(fmt.Sprintf("out%d[%d]", k, i), o)
					}
				}
				e.Code(func(api frontend.API) (fv []FV) {
					pad(e, gl.New(api))
					c := poseidon.NewBN254Chip(api)
					for _, in := range ins {
						var s poseidon.BN254State
						for i := range s {
							s[i] = in[i]
						}
						o := c.Poseidon(s)
						fv = append(fv, o[:]...)
					}
					return
				})
			}))
		}
	}
	zero := func(e *Env) *Var { return e.NU(0) }
	mk("", func(e *Env) [][]*Var { return [][]*Var{e.Nats("s", 4)} })
	mk("/capacity0", func(e *Env) [][]*Var {
		in := e.Nats("s", 4)
		in[0], in[1] = zero(e), zero(e)
		return [][]*Var{in}
	})
	mk("/constants", func(e *Env) [][]*Var {
		in := e.Nats("s", 4)
		big := e.NBig(new(big.Int).Sub(sym.BigR, big.NewInt(1)))
		return [][]*Var{{e.NU(1), in[0], in[1], in[2]}, {in[0], e.NU(7), big, in[3]}, {big, e.NU(0), in[2], e.NU(1)}}
	})
	mk("/repeated", func(e *Env) [][]*Var {
		a := e.Nats("s", 1)[0]
		return [][]*Var{{a, a, a, a}, {zero(e), a, a, a}, {zero(e), zero(e), a, a}}
	})
	// the same rate, another capacity; the same capacity, another rate
	mk("/several", func(e *Env) [][]*Var {
		s, t := e.Nats("s", 4), e.Nats("t", 4)
		return [][]*Var{s, {t[0], s[1], s[2], s[3]}, {s[0], s[1], s[2], t[3]}, {s[0], t[1], s[3], s[2]}, s}
	})
	return
}
