package checks

import (
	"fmt"
	"math/big"
	"reflect"
	"strings"

	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/schema"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/verifier"
	"verif/e1/sym"
)

// verifySpec states everything one verification has to enforce on one proof.
func verifySpec(e *Env, s shape, g gateSet, p inProof, pis []*Var, k inKey) {
	var red []*Var
	for _, v := range pis {
		red = append(red, e.Red(e.X(v)))
	}
	pih := spongeGL(e, red, 4)
	ch := transcriptSpec(e, s, p, pih, k)
	plonkSpec(e, s, g, ch, p.open, pih)
	friSpec(e, s, ch.zeta, p.open, ch.fri, [][]*Var{k.cap, p.wiresCap, p.zsCap, p.quotientCap}, p.fri)
}

// verifyComp verifies n proofs of one shape with one verifier chip.
func verifyComp(m sym.Mode, name string, s shape, g gateSet, n int, circuit bool) *Comp {
	c := inMode(m, fmt.Sprintf("Verify/%s/%s/ch%d/pi%d", name, s.String(), s.challenges, s.pis), hooked(func(e *Env) {
		type job struct {
			p   inProof
			pis []*Var
			k   inKey
		}
		var jobs []job
		for j := 0; j < n; j++ {
			in := mkIn{e: e, gl: e.GLRaw}
			if n > 1 {
				in.pre = fmt.Sprintf("proof%d.", j)
			}
			x := job{p: in.proof(s), k: in.key()}
			for i := 0; i < s.pis; i++ {
				x.pis = append(x.pis, e.Bounded(fmt.Sprintf("%spublicInput[%d]", in.pre, i), pow2m1(64)))
			}
			verifySpec(e, s, g, x.p, x.pis, x.k)
			jobs = append(jobs, x)
		}
		e.Code(func(api frontend.API) []FV {
			pad(e, gl.New(api))
			if circuit {
				x := jobs[0]
				c := verifier.ExampleVerifierCircuit{PublicInputs: gvs(x.pis), Proof: x.p.v(), VerifierOnlyCircuitData: x.k.v(), CommonCircuitData: s.data()}
				if err := c.Define(api); err != nil {
					panic(err)
				}
				return nil
			}
			v := newVerifier(api, s)
			for _, x := range jobs {
				v.Verify(x.p.v(), gvs(x.pis), x.k.v())
			}
			return nil
		})
	}))
	c.Rom = int(64 - s.powBits)
	return c
}

// chooseHint stands for the assignment of a secret input of the circuit: the prover may answer anything.
func chooseHint(_ *big.Int, in []*big.Int, out []*big.Int) error {
	out[0].Set(in[0])
	return nil
}

// visibilityComp: gnark turns the secret leaves of the circuit into inputs the prover chooses, public leaves are
// part of the statement and the others are fixed when the circuit is built. The public inputs must be part of the
// statement, and the key must not be the prover's choice.
func visibilityComp() *Comp {
	s := verifyShape(2, nil, 1, 1, 0, 1, 4, 3, groups([]gateSpec{gPI()}))
	return inMode(sym.Native, "Circuit/visibility", func(e *Env) {
		in := mkIn{e: e, gl: e.GL}
		p, k := in.proof(s), in.key()
		pis := e.GLs("publicInput", s.pis)
		leaf := map[*Var]bool{}
		for _, v := range append(append([]*Var{k.digest}, k.cap...), pis...) {
			leaf[v] = true
		}
		for i, v := range pis {
			e.OutN(fmt.Sprintf("statement: public input %d", i), v)
		}
		e.OutN("key: digest", k.digest)
		for i, v := range k.cap {
			e.OutN(fmt.Sprintf("key: cap[%d]", i), v)
		}
		e.Code(func(api frontend.API) []FV {
			c := verifier.ExampleVerifierCircuit{PublicInputs: gvs(pis), Proof: p.v(), VerifierOnlyCircuitData: k.v(), CommonCircuitData: s.data()}
			public := map[*Var]bool{}
			var tv = reflect.TypeOf((*frontend.Variable)(nil)).Elem()
			if _, err := schema.Walk(&c, tv, func(f schema.LeafInfo, x reflect.Value) error {
				v, ok := x.Interface().(*Var)
				switch {
				case !ok || !leaf[v]:
				case f.Visibility == schema.Public:
					public[v] = true
				case f.Visibility == schema.Secret:
					r, err := api.Compiler().NewHint(chooseHint, 1, v)
					if err != nil {
						return err
					}
					x.Set(reflect.ValueOf(r[0]))
				}
				return nil
			}); err != nil {
				panic(err)
			}
			// what the circuit's Define works on
			var out []FV
			for i, x := range c.PublicInputs {
				if v, ok := x.Limb.(*Var); ok && v == pis[i] && !public[v] {
					panic("a public input is neither public nor an input of the circuit")
				}
				out = append(out, x.Limb)
			}
			out = append(out, c.VerifierOnlyCircuitData.CircuitDigest)
			for _, x := range c.VerifierOnlyCircuitData.ConstantSigmasCap {
				out = append(out, x)
			}
			return out
		})
	})
}

// isElement: the name of one prover-supplied Goldilocks element.
func isElement(n string) bool {
	if i := strings.Index(n, "."); strings.HasPrefix(n, "proof") && i > 0 {
		n = n[i+1:]
	}
	for _, p := range []string{"constants[", "sigmas[", "wires[", "zs[", "zsNext[", "partials[", "quotients[", "final[", "powWitness"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return strings.HasPrefix(n, "q") && (strings.Contains(n, ".leaf") || strings.Contains(n, ".step") && !strings.Contains(n, "sib"))
}

func ownVerify(c *Comp, id string) *Comp {
	one := func(n map[string]bool) bool {
		for k := range n {
			return len(n) == 1 && isElement(k)
		}
		return false
	}
	if id == "C12" {
		c.Own, c.OwnReject = isElement, one
	} else {
		c.Own = func(n string) bool { return !isElement(n) }
		c.OwnReject = func(n map[string]bool) bool { return !one(n) }
	}
	return c
}

// verifyShape is a complete small circuit over the gates g.
func verifyShape(deg uint64, ar []uint64, q uint64, ch, parts, qdf, ncons, pis int, g gateSet) shape {
	s := friShape(deg, 3, ar, q, 1, (parts+1)*qdf, 1, ch, parts, qdf).withGates(g, 0)
	s.numGateConstraints = uint64(ncons)
	s.powBits = 2
	s.pis = pis
	return s
}

func init() {
	for _, id := range []string{"C12", "C22"} {
		id := id
		register(&Prop{ID: id, Title: "verification of one proof",
			Functions: []string{"verifier.VerifierChip.Verify, rangeCheckProof, GetPublicInputsHash, GetChallenges", "verifier.ExampleVerifierCircuit.Define", "plonk.PlonkChip.Verify and the gates used", "fri.Chip.VerifyFriProof, GetInstance, ToOpenings", "challenger.Chip"},
			Bounds:    "shapes as listed by the components (degree bits + rate bits, arities, queries, oracle widths, challenge rounds, public inputs); every value of every proof component, public input and key",
			Assume:    []string{"both permutations are uninterpreted functions (C06, C08); counterexamples are replayed with the permutations as random oracles", "public inputs below 2^64 (the documented contract leaves their range to the caller)", "divisors (zeta - 1, query points minus opening points) are not zero: the code refuses those"},
			Comps: func(th bool) (out []*Comp) {
				g0 := groups([]gateSpec{gPI()})
				g1 := groups([]gateSpec{gNoop(), gPI(), gArith(1)})
				g2 := groups([]gateSpec{gNoop(), gConst(1), gPI()}, []gateSpec{gArith(1), gMulExt(1)})
				add := func(m sym.Mode, n string, s shape, g gateSet, k int, c bool) {
					out = append(out, ownVerify(verifyComp(m, n, s, g, k, c), id))
				}
				add(sym.Native, "flat", verifyShape(2, nil, 1, 1, 0, 1, 4, 1, g0), g0, 1, false)
				add(sym.Native, "noPublicInputs", verifyShape(2, nil, 1, 1, 0, 1, 4, 0, g0), g0, 1, true)
				add(sym.Native, "circuit", verifyShape(2, nil, 1, 2, 1, 2, 5, 3, g2), g2, 1, true)
				add(sym.Native, "twoProofs", verifyShape(1, nil, 1, 1, 0, 1, 4, 1, g0), g0, 2, false)
				add(sym.Native, "folded", verifyShape(5, []uint64{4}, 2, 2, 1, 2, 4, 9, g1), g1, 1, false)
				add(sym.Plain, "bits", verifyShape(1, nil, 1, 1, 0, 1, 4, 1, g0), g0, 1, false)
				if id == "C22" {
					out = append(out, visibilityComp())
				}
				sc := verifyShape(1, nil, 1, 1, 0, 1, 4, 1, g0)
				sc.powBits = 16
				add(sym.Commit, "commit", sc, g0, 1, false)
				if th {
					add(sym.Native, "threeRounds", verifyShape(3, nil, 3, 3, 2, 1, 5, 40, g2), g2, 1, true)
					add(sym.Native, "foldedTwice", verifyShape(9, []uint64{4, 4}, 2, 2, 1, 2, 5, 4, g2), g2, 1, false)
					add(sym.Native, "twoFolded", verifyShape(5, []uint64{4}, 1, 2, 1, 1, 5, 2, g2), g2, 2, false)
				}
				return
			}})
	}
}
