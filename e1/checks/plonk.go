package checks

import (
	"fmt"

	"github.com/consensys/gnark/frontend"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/plonk"
	"github.com/succinctlabs/gnark-plonky2-verifier/plonk/gates"
	"verif/e1/sym"
)

// gateSet is a list of gates with their selector groups.
type gateSet struct {
	gs              []gateSpec
	sel, grpS, grpE []uint64
}

// groups makes a gate set from groups of gates.
func groups(gg ...[]gateSpec) (r gateSet) {
	for i, g := range gg {
		r.grpS = append(r.grpS, uint64(len(r.gs)))
		for range g {
			r.sel = append(r.sel, uint64(i))
		}
		r.gs = append(r.gs, g...)
		r.grpE = append(r.grpE, uint64(len(r.gs)))
	}
	return
}
func (g gateSet) ids() (o []string) {
	for _, x := range g.gs {
		o = append(o, x.id)
	}
	return
}
func (g gateSet) need() (wires, consts int) {
	for _, x := range g.gs {
		wires, consts = max(wires, x.wires), max(consts, x.consts)
	}
	return
}

// constraints states the combined gate constraints: n positions.
func (g gateSet) constraints(e *Env, n int, c, w []QX, pih []X) []QX {
	out := make([]QX, n)
	for i := range out {
		out[i] = e.CQ(0)
	}
	nsel := len(g.grpS)
	for i, x := range g.gs {
		s := c[g.sel[i]]
		f := e.CQ(1)
		for j := g.grpS[g.sel[i]]; j < g.grpE[g.sel[i]]; j++ {
			if j != uint64(i) {
				f = e.RQ(f.Mul(e.CQ(j).Sub(s)))
			}
		}
		if nsel > 1 {
			f = e.RQ(f.Mul(e.CQ(1<<32 - 1).Sub(s)))
		}
		for k, q := range x.f(e, c[nsel:], w, pih) {
			out[k] = e.RQ(out[k].Add(e.RQ(e.RQ(q).Mul(f))))
		}
	}
	return out
}

func selectorComp(m sym.Mode, name string, g gateSet, n int) *Comp {
	return inMode(m, "Selectors/"+name, func(e *Env) {
		in := mkIn{e: e, gl: e.GL}
		nw, nc := g.need()
		cs, ws, ph := in.qes("constant", nc+len(g.grpS)), in.qes("wire", nw), e.GLs("publicInputsHash", 4)
		var hx []X
		for _, h := range ph {
			hx = append(hx, e.X(h))
		}
		for i, q := range g.constraints(e, n, qxs(e, cs), qxs(e, ws), hx) {
			e.OutQ(fmt.Sprintf("constraint[%d]", i), q, false)
		}
		e.Code(func(api frontend.API) []FV {
			pad(e, gl.New(api))
			var gg []gates.Gate
			for _, x := range g.gs {
				gg = append(gg, x.mk())
			}
			c := gates.NewEvaluateGatesChip(api, gg, uint64(n), *gates.NewSelectorsInfo(g.sel, g.grpS, g.grpE))
			return outQ(c.EvaluateGateConstraints(*gates.NewEvaluationVars(qvs(cs), qvs(ws), glHash(ph)))...)
		})
	})
}

// plonkSpec states the vanishing identity for every challenge round.
func plonkSpec(e *Env, s shape, g gateSet, ch allCh, o inOpenings, pih []*Var) {
	zeta := e.QX(ch.zeta)
	zn := zeta
	for i := 0; i < int(s.degreeBits); i++ {
		zn = e.RQ(zn.Mul(zn))
	}
	zh := e.RQ(zn.Sub(e.CQ(1)))
	n := uint64(1) << s.degreeBits
	l0 := e.RQ(zh.Mul(e.InvQ(zeta.Scale(n).Sub(e.CQ(n)))))
	var hx []X
	for _, h := range pih {
		hx = append(hx, e.X(h))
	}
	var z1, pp []QX
	for i := 0; i < s.challenges; i++ {
		b, ga := e.X(ch.betas[i]), e.X(ch.gammas[i])
		z1 = append(z1, e.RQ(l0.Mul(e.QX(o.zs[i]).Sub(e.CQ(1)))))
		acc := [][2]*Var{o.zs[i]}
		acc = append(acc, o.partials[i*s.partials:(i+1)*s.partials]...)
		acc = append(acc, o.zsNext[i])
		var nu, de []QX
		for j := 0; j < s.routed; j++ {
			wg := e.RQ(e.QX(o.wires[j]).Add(e.FromX(ga)))
			nu = append(nu, e.RQ(e.RQ(e.RQ(zeta.Scale(s.kis[j])).MulX(b)).Add(wg)))
			de = append(de, e.RQ(e.RQ(e.QX(o.sigmas[j]).MulX(b)).Add(wg)))
		}
		for k := 0; k <= s.partials; k++ {
			a, c := nu[k*s.qdf], de[k*s.qdf]
			for j := k*s.qdf + 1; j < min((k+1)*s.qdf, s.routed); j++ { // the last chunk may be shorter
				a, c = e.RQ(a.Mul(nu[j])), e.RQ(c.Mul(de[j]))
			}
			pp = append(pp, e.RQ(e.RQ(e.QX(acc[k]).Mul(a)).Sub(e.RQ(e.QX(acc[k+1]).Mul(c)))))
		}
	}
	terms := cat(z1, pp, g.constraints(e, int(s.numGateConstraints), qxs(e, o.constants), qxs(e, o.wires), hx))
	for i := 0; i < s.challenges; i++ {
		r := e.CQ(0)
		for j := len(terms) - 1; j >= 0; j-- {
			r = e.RQ(e.RQ(r.MulX(e.X(ch.alphas[i]))).Add(terms[j]))
		}
		q := o.quotients[i*s.qdf : (i+1)*s.qdf]
		t := e.RQ(zh.Mul(hornerQ(e, qxs(e, q), zn)))
		e.EqQ(fmt.Sprintf("vanishing identity, round %d", i), r, t, q...)
	}
}

// withGates makes a shape that runs the given gates.
func (s shape) withGates(g gateSet, slack int) shape {
	s.gates, s.selIdx, s.grpS, s.grpE = g.ids(), g.sel, g.grpS, g.grpE
	w, c := g.need()
	s.wires = max(s.wires, w, s.routed)
	s.constants = max(s.constants, c+len(g.grpS))
	return s
}

// plonkShape: degree bits, challenges, partial products, quotient degree factor, gates.
func plonkShape(deg uint64, ch, parts, qdf int, ncons int, g gateSet) shape {
	return plonkShapeRouted(deg, ch, parts, qdf, (parts+1)*qdf, ncons, g)
}

// plonkShapeRouted: as plonkShape, for a number of routed wires that need not fill the last chunk.
func plonkShapeRouted(deg uint64, ch, parts, qdf, routed, ncons int, g gateSet) shape {
	s := friShape(deg, 3, nil, 1, 1, routed, 1, ch, parts, qdf)
	s = s.withGates(g, 0)
	s.numGateConstraints = uint64(ncons)
	return s
}

func plonkComp(m sym.Mode, name string, s shape, g gateSet) *Comp {
	return inMode(m, fmt.Sprintf("Plonk/%s/d%d/ch%d/pp%d/qdf%d/n%d", name, s.degreeBits, s.challenges, s.partials, s.qdf, s.numGateConstraints), func(e *Env) {
		in := mkIn{e: e, gl: e.GL}
		o := in.openings(s)
		ch := allCh{betas: e.GLs("beta", s.challenges), gammas: e.GLs("gamma", s.challenges), alphas: e.GLs("alpha", s.challenges), zeta: e.QE("zeta")}
		ph := e.GLs("publicInputsHash", 4)
		plonkSpec(e, s, g, ch, o, ph)
		e.Code(func(api frontend.API) []FV {
			pad(e, gl.New(api))
			plonk.NewPlonkChip(api, s.data()).Verify(ch.v(), o.v(), glHash(ph))
			return nil
		})
	})
}

func init() {
	small := groups([]gateSpec{gNoop(), gConst(2), gPI()}, []gateSpec{gArith(2), gBaseSum(3, 2)})
	one := groups([]gateSpec{gNoop(), gPI(), gArith(1)})
	three := groups([]gateSpec{gConst(1), gExp(2)}, []gateSpec{gNoop()}, []gateSpec{gMulExt(1), gRandomAccess(1, 1, 1), gReducing(2, false), gPI()})
	all := groups([]gateSpec{gNoop(), gConst(2), gPI(), gBaseSum(4, 2), gReducing(3, true), gReducing(3, false)}, []gateSpec{gArithExt(2), gArith(2), gMulExt(2), gExp(3)}, []gateSpec{gRandomAccess(2, 2, 2), gCoset(2, 3)}, []gateSpec{gPoseidonMds()})
	reg := groups([]gateSpec{gNoop(), gConst(2), gPI(), gBaseSum(63, 2), gReducing(43, true), gReducing(43, false)}, []gateSpec{gArithExt(10), gArith(20), gMulExt(13), gExp(66)}, []gateSpec{gRandomAccess(4, 4, 2), gCoset(4, 6)}, []gateSpec{gPoseidonMds()}, []gateSpec{gPoseidon()})
	register(&Prop{ID: "C18", Title: "selector filters",
		Functions: []string{"plonk/gates.EvaluateGatesChip.EvaluateGateConstraints, evalFiltered, computeFilter", "EvaluationVars.RemovePrefix", "EvalUnfiltered of the gates used"},
		Bounds:    "gate sets and selector groups as listed by the components (1 to 5 selector columns, 1 to 14 gates); every wire, constant (selectors included) and public-input-hash value",
		Assume:    []string{"wires, constants and public-input hash are canonical (C12, C07)"},
		Comps: func(th bool) (out []*Comp) {
			out = append(out,
				selectorComp(sym.Native, "one-group", one, 4),
				selectorComp(sym.Native, "one-group-slack", one, 9),
				selectorComp(sym.Native, "single-gate", groups([]gateSpec{gArith(2)}), 2),
				selectorComp(sym.Native, "singletons", groups([]gateSpec{gArith(1)}, []gateSpec{gPI()}, []gateSpec{gConst(2)}), 4),
				selectorComp(sym.Native, "two-groups", small, 5),
				selectorComp(sym.Native, "three-groups", three, 6),
				selectorComp(sym.Native, "four-groups", all, 24),
				selectorComp(sym.Plain, "single-gate", groups([]gateSpec{gArith(1), gNoop()}), 1),
				selectorComp(sym.Commit, "one-group", one, 4))
			out = append(out, selectorComp(sym.Native, "recursion", reg, 123))
			if th {
				// every way to split eight gates into two groups of neighbours, and into singletons
				gs := []gateSpec{gNoop(), gConst(1), gPI(), gArith(1), gBaseSum(2, 2), gMulExt(1), gExp(2), gReducing(2, false)}
				for k := 1; k < len(gs); k++ {
					out = append(out, selectorComp(sym.Native, fmt.Sprintf("split%d", k), groups(gs[:k], gs[k:]), 5))
				}
				var one [][]gateSpec
				for _, g := range gs {
					one = append(one, []gateSpec{g})
				}
				out = append(out, selectorComp(sym.Native, "eight-singletons", groups(one...), 5), selectorComp(sym.Native, "eight-in-one", groups(gs), 5))
			}
			return
		}})
	register(&Prop{ID: "C16", Title: "PLONK identity",
		Functions: []string{"plonk.PlonkChip.Verify, evalVanishingPoly, checkPartialProducts, evalL0, expPowerOf2Extension", "plonk/gates (constraints of the gates used)"},
		Bounds:    "degree bits, challenge rounds (1 to 3), partial products (0 to 9), quotient degree factors (1 to 8, also ones that do not divide the number of routed wires) and gate sets as listed by the components; every opening and challenge value",
		Assume:    []string{"openings, challenges and public-input hash are canonical (C12, C10, C07)", "zeta is not 1 (the code refuses it; the chance is 2^-128 in an honest run)"},
		Comps: func(th bool) (out []*Comp) {
			add := func(m sym.Mode, n string, deg uint64, ch, parts, qdf, ncons int, g gateSet) {
				out = append(out, plonkComp(m, n, plonkShape(deg, ch, parts, qdf, ncons, g), g))
			}
			add(sym.Native, "one-group", 3, 1, 0, 2, 4, one)
			add(sym.Native, "one-group", 6, 2, 1, 2, 4, one)
			add(sym.Native, "two-groups", 5, 2, 2, 3, 5, small)
			add(sym.Native, "two-groups", 12, 3, 1, 4, 7, small)
			add(sym.Native, "three-groups", 1, 1, 3, 1, 6, three)
			add(sym.Native, "three-groups", 20, 2, 0, 8, 6, three)
			add(sym.Native, "recursion-widths", 13, 2, 9, 8, 4, one)
			add(sym.Commit, "one-group", 3, 1, 0, 2, 4, one)
			// numbers of routed wires that do not fill the last chunk
			out = append(out,
				plonkComp(sym.Native, "short-chunk7", plonkShapeRouted(4, 2, 1, 4, 7, 4, one), one),
				plonkComp(sym.Native, "short-chunk5", plonkShapeRouted(3, 1, 2, 2, 5, 4, one), one),
				plonkComp(sym.Native, "short-chunk3", plonkShapeRouted(3, 1, 0, 4, 3, 4, one), one))
			add(sym.Plain, "one-group", 3, 1, 0, 2, 4, one)
			add(sym.Native, "recursion", 12, 2, 9, 8, 123, reg)
			add(sym.Native, "four-groups", 12, 2, 9, 8, 24, all)
			for ch := 1; ch <= 4; ch++ {
				for pp := 0; pp <= 4; pp++ {
					add(sym.Native, "two-groups", uint64(2+3*ch+pp), ch, pp, 1+(ch+pp)%5, 5, small)
				}
			}
			if th {
				for ch := 1; ch <= 4; ch++ {
					for pp := 0; pp <= 10; pp++ {
						for qdf := 1; qdf <= 9; qdf++ {
							add(sym.Native, "one-group", uint64(1+(7*ch+3*pp+qdf)%24), ch, pp, qdf, 4, one)
						}
					}
				}
			}
			return
		}})
}
