package checks

import (
	"fmt"

	"github.com/consensys/gnark/frontend"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/plonk/gates"
	"github.com/succinctlabs/gnark-plonky2-verifier/types"
	"github.com/succinctlabs/gnark-plonky2-verifier/variables"
	"github.com/succinctlabs/gnark-plonky2-verifier/verifier"
)

// shape are the circuit parameters of a component.
type shape struct {
	degreeBits, rateBits, powBits, queries uint64
	arities                                []uint64
	wires, routed, constants, selectors    int // constants: all constant columns, selectors included
	challenges, partials, qdf              int
	gates                                  []string
	selIdx, grpS, grpE                     []uint64
	numGateConstraints                     uint64
	kis                                    []uint64
	pis                                    int
}

// smallShape is a small but complete circuit description with n public inputs.
func smallShape(n int) shape {
	return shape{degreeBits: 6, rateBits: 3, powBits: 16, queries: 1, arities: []uint64{4},
		wires: 5, routed: 4, constants: 3, challenges: 2, partials: 1, qdf: 2,
		gates: []string{"NoopGate", "PublicInputGate"}, selIdx: []uint64{0, 0}, grpS: []uint64{0}, grpE: []uint64{2},
		numGateConstraints: 4, kis: []uint64{1, 7, 49, 343}, pis: n}
}

func (s shape) data() types.CommonCircuitData {
	fc := types.FriConfig{RateBits: s.rateBits, CapHeight: 4, ProofOfWorkBits: s.powBits, NumQueryRounds: s.queries}
	return types.CommonCircuitData{
		Config: types.CircuitConfig{NumWires: uint64(s.wires), NumRoutedWires: uint64(s.routed), NumConstants: 2, UseBaseArithmeticGate: true,
			SecurityBits: 100, NumChallenges: uint64(s.challenges), MaxQuotientDegreeFactor: 8, FriConfig: fc},
		FriParams:            types.FriParams{Config: fc, DegreeBits: s.degreeBits, ReductionArityBits: s.arities},
		GateIds:              s.gates,
		SelectorsInfo:        *gates.NewSelectorsInfo(s.selIdx, s.grpS, s.grpE),
		DegreeBits:           s.degreeBits,
		QuotientDegreeFactor: uint64(s.qdf),
		NumGateConstraints:   s.numGateConstraints,
		NumConstants:         uint64(s.constants),
		NumPublicInputs:      uint64(s.pis),
		KIs:                  s.kis,
		NumPartialProducts:   uint64(s.partials),
	}
}

func newVerifier(api frontend.API, s shape) *verifier.VerifierChip {
	return verifier.NewVerifierChip(api, s.data())
}

func (s shape) lde() int { return int(s.degreeBits + s.rateBits) }
func (s shape) finalLen() int {
	n := int(s.degreeBits)
	for _, a := range s.arities {
		n -= int(a)
	}
	return 1 << n
}

// oracles are the widths of the four committed oracles.
func (s shape) oracles() [4]int {
	return [4]int{s.constants + s.routed, s.wires, s.challenges * (1 + s.partials), s.challenges * s.qdf}
}

type inOpenings struct {
	constants, sigmas, wires, zs, zsNext, partials, quotients [][2]*Var
}
type inLeaf struct {
	vals []*Var
	sib  []*Var
}
type inStep struct {
	evals [][2]*Var
	sib   []*Var
}
type inQuery struct {
	initial []inLeaf
	steps   []inStep
}
type inFri struct {
	caps    [][]*Var
	queries []inQuery
	final   [][2]*Var
	pow     *Var
}
type inProof struct {
	wiresCap, zsCap, quotientCap []*Var
	open                         inOpenings
	fri                          inFri
}
type inKey struct {
	digest *Var
	cap    []*Var
}

// mkIn declares the inputs; gl decides how a Goldilocks value enters (assumed canonical or raw).
type mkIn struct {
	e   *Env
	gl  func(name string) *Var
	pre string // name prefix, when there are several proofs
}

func (m mkIn) one(n string) *Var           { return m.gl(m.pre + n) }
func (m mkIn) nats(n string, k int) []*Var { return m.e.Nats(m.pre+n, k) }

func (m mkIn) qe(n string) [2]*Var { return [2]*Var{m.one(n + ".0"), m.one(n + ".1")} }
func (m mkIn) qes(n string, k int) (out [][2]*Var) {
	for i := 0; i < k; i++ {
		out = append(out, m.qe(fmt.Sprintf("%s[%d]", n, i)))
	}
	return
}
func (m mkIn) openings(s shape) inOpenings {
	return inOpenings{
		constants: m.qes("constants", s.constants), sigmas: m.qes("sigmas", s.routed), wires: m.qes("wires", s.wires),
		zs: m.qes("zs", s.challenges), zsNext: m.qes("zsNext", s.challenges), partials: m.qes("partials", s.challenges*s.partials),
		quotients: m.qes("quotients", s.challenges*s.qdf),
	}
}
func (m mkIn) fri(s shape) (f inFri) {
	for i := range s.arities {
		f.caps = append(f.caps, m.nats(fmt.Sprintf("commitCap%d", i), 16))
	}
	for q := 0; q < int(s.queries); q++ {
		var r inQuery
		for o, w := range s.oracles() {
			var l inLeaf
			for i := 0; i < w; i++ {
				l.vals = append(l.vals, m.one(fmt.Sprintf("q%d.leaf%d[%d]", q, o, i)))
			}
			l.sib = m.nats(fmt.Sprintf("q%d.sib%d", q, o), s.lde()-4)
			r.initial = append(r.initial, l)
		}
		d := s.lde()
		for i, a := range s.arities {
			d -= int(a)
			r.steps = append(r.steps, inStep{evals: m.qes(fmt.Sprintf("q%d.step%d", q, i), 1<<a), sib: m.nats(fmt.Sprintf("q%d.stepsib%d", q, i), d-4)})
		}
		f.queries = append(f.queries, r)
	}
	f.final = m.qes("final", s.finalLen())
	f.pow = m.one("powWitness")
	return
}
func (m mkIn) proof(s shape) inProof {
	return inProof{wiresCap: m.nats("wiresCap", 16), zsCap: m.nats("zsCap", 16), quotientCap: m.nats("quotientCap", 16),
		open: m.openings(s), fri: m.fri(s)}
}
func (m mkIn) key() inKey {
	return inKey{digest: m.e.Nat(m.pre + "circuitDigest"), cap: m.nats("constantsSigmasCap", 16)}
}

// conversions to the repository's types

func (o inOpenings) v() variables.OpeningSet {
	return variables.OpeningSet{Constants: qvs(o.constants), PlonkSigmas: qvs(o.sigmas), Wires: qvs(o.wires), PlonkZs: qvs(o.zs),
		PlonkZsNext: qvs(o.zsNext), PartialProducts: qvs(o.partials), QuotientPolys: qvs(o.quotients)}
}
func (f inFri) v() variables.FriProof {
	var p variables.FriProof
	for _, c := range f.caps {
		p.CommitPhaseMerkleCaps = append(p.CommitPhaseMerkleCaps, fvs(c))
	}
	for _, q := range f.queries {
		var r variables.FriQueryRound
		for _, l := range q.initial {
			r.InitialTreesProof.EvalsProofs = append(r.InitialTreesProof.EvalsProofs, variables.FriEvalProof{Elements: gvs(l.vals), MerkleProof: variables.FriMerkleProof{Siblings: fvs(l.sib)}})
		}
		for _, s := range q.steps {
			r.Steps = append(r.Steps, variables.FriQueryStep{Evals: qvs(s.evals), MerkleProof: variables.FriMerkleProof{Siblings: fvs(s.sib)}})
		}
		p.QueryRoundProofs = append(p.QueryRoundProofs, r)
	}
	p.FinalPoly = variables.PolynomialCoeffs{Coeffs: qvs(f.final)}
	p.PowWitness = gv(f.pow)
	return p
}
func (p inProof) v() variables.Proof {
	return variables.Proof{WiresCap: fvs(p.wiresCap), PlonkZsPartialProductsCap: fvs(p.zsCap), QuotientPolysCap: fvs(p.quotientCap),
		Openings: p.open.v(), OpeningProof: p.fri.v()}
}
func (k inKey) v() variables.VerifierOnlyCircuitData {
	return variables.VerifierOnlyCircuitData{ConstantSigmasCap: fvs(k.cap), CircuitDigest: k.digest}
}

var _ gl.Variable
