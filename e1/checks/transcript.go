package checks

import (
	"fmt"

	"github.com/consensys/gnark/frontend"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/poseidon"
	"github.com/succinctlabs/gnark-plonky2-verifier/variables"
	"verif/e1/sym"
)

type allCh struct {
	betas, gammas, alphas []*Var
	zeta                  [2]*Var
	fri                   friCh
}

func (c allCh) list() (out []*Var, names []string) {
	add := func(n string, vs ...*Var) {
		for i, v := range vs {
			out = append(out, v)
			names = append(names, fmt.Sprintf("%s[%d]", n, i))
		}
	}
	add("beta", c.betas...)
	add("gamma", c.gammas...)
	add("alpha", c.alphas...)
	add("zeta", c.zeta[:]...)
	add("friAlpha", c.fri.alpha[:]...)
	for i, b := range c.fri.betas {
		add(fmt.Sprintf("friBeta%d", i), b[:]...)
	}
	add("powResponse", c.fri.pow)
	add("queryIndex", c.fri.idx...)
	return
}

// transcriptSpec is plonky2's Fiat-Shamir transcript of a proof.
func transcriptSpec(e *Env, s shape, p inProof, pih []*Var, k inKey) (c allCh) {
	t := newSpecCh(e)
	t.obsBN(k.digest)
	t.obs(pih...)
	t.obsBN(p.wiresCap...)
	c.betas = t.getN(s.challenges)
	c.gammas = t.getN(s.challenges)
	t.obsBN(p.zsCap...)
	c.alphas = t.getN(s.challenges)
	t.obsBN(p.quotientCap...)
	c.zeta = t.getQ()
	o := p.open
	for _, g := range [][][2]*Var{o.constants, o.sigmas, o.wires, o.zs, o.partials, o.quotients, o.zsNext} {
		t.obsQ(g...)
	}
	c.fri.alpha = t.getQ()
	for _, cp := range p.fri.caps {
		t.obsBN(cp...)
		c.fri.betas = append(c.fri.betas, t.getQ())
	}
	t.obsQ(p.fri.final...)
	t.obs(p.fri.pow)
	c.fri.pow = t.get()
	c.fri.idx = t.getN(int(s.queries))
	return
}

func (c allCh) v() variables.ProofChallenges {
	r := variables.ProofChallenges{PlonkBetas: gvs(c.betas), PlonkGammas: gvs(c.gammas), PlonkAlphas: gvs(c.alphas), PlonkZeta: qv(c.zeta)}
	if c.fri.pow != nil {
		r.FriChallenges = c.fri.v()
	}
	return r
}
func glHash(vs []*Var) poseidon.GoldilocksHashOut {
	return poseidon.GoldilocksHashOut{gv(vs[0]), gv(vs[1]), gv(vs[2]), gv(vs[3])}
}
func outCh(c variables.ProofChallenges) (o []FV) {
	o = append(o, outG(c.PlonkBetas...)...)
	o = append(o, outG(c.PlonkGammas...)...)
	o = append(o, outG(c.PlonkAlphas...)...)
	o = append(o, outQ(c.PlonkZeta, c.FriChallenges.FriAlpha)...)
	o = append(o, outQ(c.FriChallenges.FriBetas...)...)
	o = append(o, outG(c.FriChallenges.FriPowResponse)...)
	return append(o, outG(c.FriChallenges.FriQueryIndices...)...)
}

// lightProof leaves out the query rounds, which the transcript does not absorb.
func (m mkIn) transcriptProof(s shape) (p inProof) {
	p = inProof{wiresCap: m.nats("wiresCap", 16), zsCap: m.nats("zsCap", 16), quotientCap: m.nats("quotientCap", 16), open: m.openings(s)}
	for i := range s.arities {
		p.fri.caps = append(p.fri.caps, m.nats(fmt.Sprintf("commitCap%d", i), 16))
	}
	p.fri.final = m.qes("final", s.finalLen())
	p.fri.pow = m.gl("powWitness")
	return
}

func transcriptComp(m sym.Mode, s shape) *Comp {
	return inMode(m, "Transcript/"+s.String()+fmt.Sprintf("/ch%d", s.challenges), hooked(func(e *Env) {
		in := mkIn{e: e, gl: e.GL}
		p := in.transcriptProof(s)
		pih := e.GLs("publicInputsHash", 4)
		k := in.key()
		vs, ns := transcriptSpec(e, s, p, pih, k).list()
		for i, v := range vs {
			e.OutN(ns[i], v)
		}
		e.Code(func(api frontend.API) []FV {
			pad(e, gl.New(api))
			return outCh(newVerifier(api, s).GetChallenges(p.v(), glHash(pih), k.v()))
		})
	}))
}

func init() {
	register(&Prop{ID: "C11", Title: "Fiat-Shamir transcript",
		Functions: []string{"verifier.VerifierChip.GetChallenges", "challenger.Chip (all of it)", "fri.Chip.ToOpenings", "poseidon.BN254Chip.ToVec"},
		Bounds:    "shapes as listed by the components (1 to 3 challenge rounds, 0 to 3 folding layers, 1 to 84 queries, opening widths 1 to 135); all values of every proof component",
		Assume:    []string{"opened values, final polynomial, proof-of-work witness and public-input hash are canonical (C12, C07)", "the Goldilocks permutation is an uninterpreted function with canonical outputs (C06)"},
		Comps: func(th bool) (out []*Comp) {
			add := func(m sym.Mode, sh ...shape) {
				for _, s := range sh {
					out = append(out, transcriptComp(m, s))
				}
			}
			add(sym.Native,
				friShape(6, 3, []uint64{4}, 1),
				friShape(3, 3, nil, 28, 2, 3, 4, 1, 0, 1),
				friShape(9, 3, []uint64{4, 4}, 2, 1, 2, 3, 3, 1, 2),
				friShape(5, 3, []uint64{4}, 84, 2, 3, 7, 3, 2, 1),
				friShape(4, 4, []uint64{4}, 1, 1, 1, 1, 1, 0, 1),
				friShape(12, 3, []uint64{4, 4}, 28, 4, 80, 135, 2, 9, 8),
				friShape(14, 3, []uint64{4, 4, 4}, 5, 2, 3, 4, 1, 0, 1))
			add(sym.Commit, friShape(6, 3, []uint64{4}, 1))
			add(sym.Plain, friShape(4, 4, []uint64{4}, 1, 1, 1, 1, 1, 0, 1))
			top := 12
			if th {
				top = 84
			}
			{
				ars := [][]uint64{nil, {4}, {4, 4}, {4, 4, 4}, {3}, {1, 2}}
				for ch := 1; ch <= 4; ch++ {
					for q := 1; q <= top; q++ {
						deg := q % 4
						ar := ars[(q+ch)%6]
						for _, a := range ar {
							deg += int(a)
						}
						add(sym.Native, friShape(uint64(deg), 3, ar, uint64(q), 1+q%3, 1+q%5, 2+q%4, ch, q%3, 1+q%4))
					}
				}
			}
			return
		}})
}
