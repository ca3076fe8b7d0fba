package checks

import (
	"fmt"
	"strings"

	"github.com/consensys/gnark/frontend"
	"github.com/succinctlabs/gnark-plonky2-verifier/fri"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/variables"
	"verif/e1/sym"
)

// rootGL is the primitive 2^n-th root of unity plonky2 uses.
func rootGL(n uint64) uint64 {
	r := uint64(1753635133440165772)
	for i := n; i < 32; i++ {
		r = sym.MulM(r, r)
	}
	return r
}

type friCh struct {
	alpha [2]*Var
	betas [][2]*Var
	pow   *Var
	idx   []*Var
}

// merkleSpec: the digest reached from the leaf and the cap entry it has to equal.
func merkleSpec(e *Env, leaf, sib, bits, capBits, cap []*Var) (digest, entry *Var) {
	digest = leafBN(e, leaf)
	for i, s := range sib {
		b := bits[i]
		digest = twoBN(e, e.NSel(b, s, digest), e.NSel(b, digest, s))
	}
	lv := append([]*Var{}, cap...)
	for _, b := range capBits {
		var nx []*Var
		for i := 0; i+1 < len(lv); i += 2 {
			nx = append(nx, e.NSel(b, lv[i+1], lv[i]))
		}
		lv = nx
	}
	return digest, lv[0]
}

// expBits is base^(bits, least significant first).
func expBits(e *Env, base uint64, bits []*Var) X {
	r := e.CX(1)
	for i, b := range bits {
		c := sym.PowM(base, uint64(1)<<uint(i))
		r = e.RX(r.Add(r.Scale(sym.SubM(c, 1)).Mul(e.X(b))))
	}
	return r
}
func rev[T any](a []T) []T {
	out := make([]T, len(a))
	for i := range a {
		out[len(a)-1-i] = a[i]
	}
	return out
}
func hornerQ(e *Env, terms []QX, at QX) QX {
	r := e.CQ(0)
	for i := len(terms) - 1; i >= 0; i-- {
		r = e.RQ(r.Mul(at).Add(terms[i]))
	}
	return r
}
func qxs(e *Env, vs [][2]*Var) (out []QX) {
	for _, v := range vs {
		out = append(out, e.QX(v))
	}
	return
}
func cat[T any](xs ...[]T) (out []T) {
	for _, x := range xs {
		out = append(out, x...)
	}
	return
}

type friParts struct{ merkle, fold, pow bool }

// friSpec states what FRI verification has to enforce.
func friSpec(e *Env, s shape, zeta [2]*Var, o inOpenings, ch friCh, initialCaps [][]*Var, f inFri) {
	e.Bound("proof of work", ch.pow, pow2m1(uint(64-s.powBits)))
	z := e.QX(zeta)
	zNext := e.RQ(z.Scale(rootGL(s.degreeBits)))
	alpha := e.QX(ch.alpha)
	zetaVals := qxs(e, cat(o.constants, o.sigmas, o.wires, o.zs, o.partials, o.quotients))
	red0 := hornerQ(e, zetaVals, alpha)
	red1 := hornerQ(e, qxs(e, o.zsNext), alpha)
	nLog := uint64(s.lde())
	for qi, q := range f.queries {
		nm := func(x string, a ...any) string { return fmt.Sprintf("query %d: ", qi) + fmt.Sprintf(x, a...) }
		bits := e.Bits(ch.idx[qi], int(nLog))
		capBits := bits[len(bits)-4:]
		for i, l := range q.initial {
			d, c := merkleSpec(e, l.vals, l.sib, bits, capBits, initialCaps[i])
			e.EqN(nm("opening of oracle %d", i), d, c, initialCaps[i]...)
		}
		x := e.RX(expBits(e, rootGL(nLog), rev(bits)).Scale(7))
		var all, zs []QX
		for _, l := range q.initial {
			for _, v := range l.vals {
				all = append(all, e.FromX(e.X(v)))
			}
		}
		for _, v := range q.initial[2].vals[:s.challenges] {
			zs = append(zs, e.FromX(e.X(v)))
		}
		part := func(evals []QX, opened, point QX) QX {
			num := hornerQ(e, evals, alpha).Sub(opened)
			return e.RQ(num.Mul(e.InvQ(e.FromX(x).Sub(point))))
		}
		p0 := part(all, red0, z)
		p1 := part(zs, red1, zNext)
		old := e.RQ(e.RQ(p0.Mul(e.PowQ(alpha, uint64(len(zs))))).Add(p1))
		for si, st := range q.steps {
			a := int(s.arities[si])
			in, rest := bits[:a], bits[a:]
			// the evaluation at the query position
			sel := qxs(e, st.evals)
			for _, b := range in {
				var nx []QX
				for i := 0; i < len(sel); i += 2 {
					nx = append(nx, sym.SelQ(e.X(b), sel[i], sel[i+1]))
				}
				sel = nx
			}
			e.EqQ(nm("layer %d continues the previous one", si), sel[0], old, st.evals...)
			var flat []*Var
			for _, v := range st.evals {
				flat = append(flat, v[0], v[1])
			}
			d, c := merkleSpec(e, flat, st.sib, rest, capBits, f.caps[si])
			e.EqN(nm("opening of layer %d", si), d, c, f.caps[si]...)
			// interpolate the coset at beta
			g := rootGL(uint64(a))
			gi := sym.PowM(g, uint64(1)<<uint(a)-1)
			p := e.RX(expBits(e, gi, rev(in)).Mul(x))
			n := 1 << a
			var xs, ys []QX
			for i := 0; i < n; i++ {
				xs = append(xs, e.FromX(p))
				p = e.RX(p.Scale(g))
				j := 0
				for b := 0; b < a; b++ {
					j |= (i >> b & 1) << (a - 1 - b)
				}
				ys = append(ys, e.QX(st.evals[j]))
			}
			beta := e.QX(ch.betas[si])
			lx, sum := e.CQ(1), e.CQ(0)
			for i := range xs {
				lx = e.RQ(beta.Sub(xs[i]).Mul(lx))
				w := e.CQ(1)
				for j := range xs {
					if i != j {
						w = e.RQ(xs[i].Sub(xs[j]).Mul(w))
					}
				}
				t := e.RQ(e.InvQ(w).Mul(e.InvQ(beta.Sub(xs[i]))))
				sum = e.RQ(e.RQ(ys[i].Mul(t)).Add(sum))
			}
			old = e.RQ(lx.Mul(sum))
			for i := 0; i < a; i++ {
				x = e.RX(x.Mul(x))
			}
			bits = rest
		}
		final := hornerQ(e, qxs(e, f.final), e.FromX(x))
		e.EqQ(nm("final polynomial"), old, final, rotate(f.final, qi)...)
	}
}
func rotate[T any](a []T, n int) []T {
	n %= len(a)
	return append(append([]T{}, a[n:]...), a[:n]...)
}

func (c friCh) v() variables.FriChallenges {
	return variables.FriChallenges{FriAlpha: qv(c.alpha), FriBetas: qvs(c.betas), FriPowResponse: gv(c.pow), FriQueryIndices: gvs(c.idx)}
}

func friComp(m sym.Mode, name string, s shape) *Comp {
	return inMode(m, name, hooked(func(e *Env) {
		in := mkIn{e: e, gl: e.GL}
		zeta := e.QE("zeta")
		o := in.openings(s)
		caps := [][]*Var{e.Nats("cap0", 16), e.Nats("cap1", 16), e.Nats("cap2", 16), e.Nats("cap3", 16)}
		ch := friCh{alpha: e.QE("friAlpha")}
		for i := range s.arities {
			ch.betas = append(ch.betas, e.QE(fmt.Sprintf("friBeta%d", i)))
		}
		ch.pow = e.Raw("powResponse", pow2m1(uint(64-s.powBits)))
		for i := 0; i < int(s.queries); i++ {
			ch.idx = append(ch.idx, e.GL(fmt.Sprintf("index%d", i)))
		}
		f := in.fri(s)
		friSpec(e, s, zeta, o, ch, caps, f)
		e.Code(func(api frontend.API) []FV {
			d := s.data()
			pad(e, gl.New(api))
			c := fri.NewChip(api, &d, &d.FriParams)
			pr, cv := f.v(), ch.v()
			c.VerifyFriProof(c.GetInstance(qv(zeta)), c.ToOpenings(o.v()), &cv, capsV(caps), &pr)
			return nil
		})
	}))
}
func capsV(caps [][]*Var) (out []variables.FriMerkleCap) {
	for _, c := range caps {
		out = append(out, fvs(c))
	}
	return
}

// isMerkle, isPow: what a failing constraint is about decides which property it belongs to.
func isMerkle(n map[string]bool) bool { return n["posBN"] }
func isPow(n map[string]bool) bool    { return len(n) == 1 && n["powResponse"] }
func ownFri(c *Comp, id string) *Comp {
	merkle := func(n string) bool { return strings.Contains(n, "opening of") }
	switch id {
	case "C13":
		c.Own, c.OwnReject = merkle, isMerkle
	case "C15":
		c.Own, c.OwnReject = func(n string) bool { return n == "powResponse" || n == "proof of work" }, isPow
	case "C14":
		c.Own = func(n string) bool { return !merkle(n) && n != "powResponse" }
		c.OwnReject = func(n map[string]bool) bool { return !isMerkle(n) && !isPow(n) }
	}
	return c
}

// friShape: degree and rate bits, arities, number of queries, widths (constants, routed, wires, challenges, partials, qdf).
func friShape(deg, rate uint64, ar []uint64, q uint64, w ...int) shape {
	s := smallShape(0)
	s.degreeBits, s.rateBits, s.arities, s.queries = deg, rate, ar, q
	if w != nil {
		s.constants, s.routed, s.wires, s.challenges, s.partials, s.qdf = w[0], w[1], w[2], w[3], w[4], w[5]
		s.kis = nil
		for i := 0; i < s.routed; i++ {
			s.kis = append(s.kis, sym.PowM(7, uint64(i)))
		}
	}
	return s
}
func (s shape) String() string {
	return fmt.Sprintf("d%d+%d/%v/%dq/w%v/pow%d", s.degreeBits, s.rateBits, s.arities, s.queries, s.oracles(), s.powBits)
}

func friShapes(th bool) (out []shape) {
	out = []shape{
		friShape(13, 3, []uint64{4, 4, 4}, 1, 1, 2, 3, 2, 1, 2),
		friShape(6, 3, []uint64{4}, 1),
		friShape(2, 3, nil, 3),
		friShape(9, 3, []uint64{4, 4}, 1, 1, 2, 3, 1, 1, 2),
		friShape(5, 3, []uint64{4}, 2, 2, 3, 7, 3, 2, 1),
		friShape(4, 4, []uint64{4}, 1, 1, 1, 1, 1, 0, 1),
		friShape(1, 3, nil, 1, 3, 12, 40, 2, 3, 8),
		friShape(12, 1, nil, 1, 1, 1, 4, 2, 0, 1),
		friShape(3, 4, nil, 4, 1, 1, 4, 2, 0, 1),
	}
	if th {
		out = append(out,
			friShape(20, 3, []uint64{4, 4, 4, 4}, 1, 1, 2, 3, 2, 1, 2),
			friShape(9, 3, []uint64{4, 4}, 2, 1, 2, 3, 2, 1, 2),
			friShape(8, 3, []uint64{4, 4}, 3),
			friShape(12, 3, []uint64{4, 4}, 2, 4, 80, 135, 2, 9, 8),
			friShape(7, 3, []uint64{4}, 6))
	}
	return
}

func init() {
	fns := []string{"fri.Chip.VerifyFriProof", "GetInstance", "ToOpenings", "verifyMerkleProofToCapWithCapIndex", "verifyInitialProof", "expFromBitsConstBase", "calculateSubgroupX", "friCombineInitial", "finalPolyEval", "interpolate", "computeEvaluation", "verifyQueryRound", "assertLeadingZeros", "fromOpeningsAndAlpha", "poseidon.BN254Chip.HashOrNoop/TwoToOne/ToVec", "goldilocks.Chip extension arithmetic"}
	assume := []string{"openings, leaf values and challenges are canonical (C12, C10)", "the BN254 permutation is an uninterpreted function (C08)", "evaluation points are not equal to a query point (plonky2 has the same side condition: inverting zero is refused)"}
	bounds := "shapes (degree bits + rate bits, arities, queries, oracle widths) as listed by the components; all values of every input, all query indices"
	for _, id := range []string{"C13", "C14"} {
		id := id
		register(&Prop{ID: id, Title: "FRI", Functions: fns, Bounds: bounds, Assume: assume, Comps: func(th bool) (out []*Comp) {
			for _, s := range friShapes(th) {
				out = append(out, ownFri(friComp(sym.Native, "Fri/"+s.String(), s), id))
			}
			return
		}})
	}
	register(&Prop{ID: "C15", Title: "proof of work", Functions: fns[:1], Assume: assume,
		Bounds: "every b from 0 to 64 (native range checker) and a selection with the other range checkers (the commitment-based one may refuse a b that is not a multiple of 16, which it does by panicking; b = 64, which only admits 0, may be refused); every response value",
		Comps: func(th bool) (out []*Comp) {
			add := func(m sym.Mode, b uint64) {
				s := friShape(1, 3, nil, 1, 1, 1, 1, 1, 0, 1)
				s.powBits = b
				c := ownFri(friComp(m, "Pow/"+s.String(), s), "C15")
				c.MayPanic = m.Commits() && b%16 != 0 || b == 64
				out = append(out, c)
			}
			for b := uint64(0); b <= 64; b++ {
				add(sym.Native, b)
				if th || b%8 == 0 || b == 19 {
					add(sym.Plain, b)
				}
				if b == 16 || b == 20 || th && b%4 == 0 {
					add(sym.Commit, b)
				}
			}
			return
		}})
}
