package checks

import (
	"fmt"
	"math/big"

	"github.com/consensys/gnark/frontend"
	"github.com/succinctlabs/gnark-plonky2-verifier/challenger"
	"github.com/succinctlabs/gnark-plonky2-verifier/fri"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/poseidon"
	"github.com/succinctlabs/gnark-plonky2-verifier/variables"
	"verif/e1/sym"
)

// ---- specification of the hashes over the uninterpreted permutations ----

// spongeGL is the overwrite-mode sponge with rate 8 over canonical elements.
func spongeGL(e *Env, in []*Var, nOut int) (out []*Var) {
	st := make([]*Var, 12)
	for i := range st {
		st[i] = e.NU(0)
	}
	for len(in) > 0 {
		n := min(8, len(in))
		copy(st, in[:n])
		in = in[n:]
		st = append([]*Var{}, UFGL(e, st)...)
	}
	for {
		for i := 0; i < 8; i++ {
			if len(out) == nOut {
				return
			}
			out = append(out, st[i])
		}
		if len(out) < nOut {
			st = append([]*Var{}, UFGL(e, st)...)
		}
	}
}

// packBN packs up to three Goldilocks elements into a word, little endian.
func packBN(e *Env, in []*Var) *Var {
	r := e.NU(0)
	for i, v := range in {
		r = e.NAdd(r, e.NMul(e.NBig(pow2(uint(64*i))), v))
	}
	return r
}

// hashBN is the overwrite-mode sponge over packed words, capacity first.
func hashBN(e *Env, in []*Var) *Var {
	st := []*Var{e.NU(0), e.NU(0), e.NU(0), e.NU(0)}
	var words []*Var
	for len(in) > 0 {
		n := min(3, len(in))
		words = append(words, packBN(e, in[:n]))
		in = in[n:]
	}
	for len(words) > 0 {
		n := min(3, len(words))
		copy(st[1:], words[:n])
		words = words[n:]
		st = append([]*Var{}, UFBN(e, st)...)
	}
	return st[0]
}
func leafBN(e *Env, in []*Var) *Var {
	if len(in) <= 3 {
		return packBN(e, in)
	}
	return hashBN(e, in)
}
func twoBN(e *Env, l, r *Var) *Var {
	return UFBN(e, []*Var{e.NU(0), e.NU(0), l, r})[0]
}

// chunksBN are the 56-bit little-endian chunks of the canonical digest.
func chunksBN(e *Env, h *Var) (out []*Var) {
	bs := e.Bits(h, 254)
	for len(bs) > 0 {
		n := min(56, len(bs))
		out = append(out, e.NBits(bs[:n]))
		bs = bs[n:]
	}
	return
}

// specCh is plonky2's duplex challenger.
type specCh struct {
	e   *Env
	st  []*Var
	in  []*Var
	out []*Var
}

func newSpecCh(e *Env) *specCh {
	c := &specCh{e: e}
	for i := 0; i < 12; i++ {
		c.st = append(c.st, e.NU(0))
	}
	return c
}
func (c *specCh) duplex() {
	for i, v := range c.in {
		c.st[i] = v
	}
	c.in = nil
	c.st = append([]*Var{}, UFGL(c.e, c.st)...)
	c.out = append([]*Var{}, c.st[:8]...)
}

// obs absorbs values as the field elements they represent.
func (c *specCh) obs(vs ...*Var) {
	for _, v := range vs {
		c.out = nil
		c.in = append(c.in, c.e.Red(c.e.X(v)))
		if len(c.in) == 8 {
			c.duplex()
		}
	}
}
func (c *specCh) obsQ(vs ...[2]*Var) {
	for _, v := range vs {
		c.obs(v[0], v[1])
	}
}
func (c *specCh) obsBN(hs ...*Var) {
	for _, h := range hs {
		c.obs(chunksBN(c.e, h)...)
	}
}
func (c *specCh) get() *Var {
	if len(c.in) > 0 || len(c.out) == 0 {
		c.duplex()
	}
	v := c.out[len(c.out)-1]
	c.out = c.out[:len(c.out)-1]
	return v
}
func (c *specCh) getN(n int) (out []*Var) {
	for i := 0; i < n; i++ {
		out = append(out, c.get())
	}
	return
}
func (c *specCh) getQ() [2]*Var { a := c.get(); return [2]*Var{a, c.get()} }

// ---- properties ----

func hooked(f func(e *Env)) func(e *Env) {
	return func(e *Env) { e.Hook = true; f(e) }
}

func init() {
	register(&Prop{ID: "C07", Title: "Goldilocks sponge", Comps: glSpongeComps,
		Functions: []string{"poseidon.GoldilocksChip.HashNoPad", "poseidon.GoldilocksChip.HashNToMNoPad", "poseidon.GoldilocksChip.ToVec", "verifier.VerifierChip.GetPublicInputsHash", "goldilocks.Chip.Reduce"},
		Bounds:    "input lengths 0..66 (thorough 0..300), 1..33 outputs; constants, repeated elements and several hashes on one chip; all element values below 2^140 (HashNoPad) or all canonical ones (HashNToMNoPad)",
		Assume:    []string{"the permutation is an uninterpreted function with canonical outputs (C06 decides that the code's permutation is one)"}})
	register(&Prop{ID: "C09", Title: "BN254 packing and digests", Comps: bnHashComps,
		Functions: []string{"poseidon.BN254Chip.HashNoPad", "poseidon.BN254Chip.HashOrNoop", "poseidon.BN254Chip.TwoToOne", "poseidon.BN254Chip.ToVec"},
		Bounds:    "input lengths 0..90 (thorough 0..300); constants, repeated elements and several digests on one chip; all canonical elements, all digests",
		Assume:    []string{"the permutation is an uninterpreted function (C08 decides that the code's permutation is the right one)"}})
	register(&Prop{ID: "C10", Title: "challenger", Comps: challengerComps,
		Functions: []string{"challenger.Chip: ObserveElement, ObserveElements, ObserveHash, ObserveBN254Hash, ObserveCap, ObserveExtensionElement(s), ObserveOpenings, GetChallenge, GetNChallenges, GetExtensionChallenge, GetHash, duplexing"},
		Bounds:    "call sequences: every sequence observe a, draw b, observe c, draw d, draw 1 with block sizes from {0,1,7,8,9,17} (thorough also with the other one-by-one/at-once assignment and with further orders), and the longer ones listed by the components; constants and repeated elements; all element values below 2^140, all digests",
		Assume:    []string{"the permutation is an uninterpreted function with canonical outputs (C06)"}})
}

func glSpongeComps(th bool) (out []*Comp) {
	var lens []int
	top := 66
	if th {
		top = 300
	}
	for i := 0; i <= top; i++ {
		lens = append(lens, i)
	}
	for _, n := range lens {
		n := n
		out = append(out, inMode(sym.Native, fmt.Sprintf("HashNoPad%d", n), hooked(func(e *Env) {
			var raw, can []*Var
			for i := 0; i < n; i++ {
				v := e.Bounded(fmt.Sprintf("in[%d]", i), pow2m1(140))
				raw = append(raw, v)
				can = append(can, e.Red(e.X(v)))
			}
			for i, v := range spongeGL(e, can, 4) {
				e.OutN(fmt.Sprintf("hash[%d]", i), v)
			}
			e.Code(func(api frontend.API) []FV {
				c := poseidon.NewGoldilocksChip(api)
				h := c.HashNoPad(gvs(raw))
				return outG(c.ToVec(h)...)
			})
		})))
		out = append(out, inMode(sym.Native, fmt.Sprintf("PublicInputsHash%d", n), hooked(func(e *Env) {
			var raw, can []*Var
			for i := 0; i < n; i++ {
				v := e.Bounded(fmt.Sprintf("pi[%d]", i), pow2m1(140))
				raw = append(raw, v)
				can = append(can, e.Red(e.X(v)))
			}
			for i, v := range spongeGL(e, can, 4) {
				e.OutN(fmt.Sprintf("hash[%d]", i), v)
			}
			e.Code(func(api frontend.API) []FV {
				h := newVerifier(api, smallShape(n)).GetPublicInputsHash(gvs(raw))
				return outG(h[:]...)
			})
		})))
	}
	// several hashes by one chip: a prefix, an extension by zeros, a permuted and a repeated input
	out = append(out, inMode(sym.Native, "HashNoPad/several", hooked(func(e *Env) {
		in := e.GLs("in", 12)
		z, r := e.NU(0), e.Bounded("r", pow2m1(140))
		ins := [][]*Var{in, in[:8], in[:11], append(append([]*Var{}, in[:8]...), z), append(append([]*Var{}, in[:11]...), z),
			{in[1], in[0]}, {in[0], in[1]}, {in[0], in[0]}, {z}, {}, {z, z}, {r, r, e.NU(sym.GM), e.NBig(pow2m1(139)), r}, in, {e.NU(1), in[0]}}
		k := 0
		for _, x := range ins {
			var can []*Var
			for _, v := range x {
				can = append(can, e.Red(e.X(v)))
			}
			for _, v := range spongeGL(e, can, 4) {
				e.OutN(fmt.Sprintf("hash[%d]", k), v)
				k++
			}
		}
		e.Code(func(api frontend.API) (o []FV) {
			c := poseidon.NewGoldilocksChip(api)
			for _, x := range ins {
				h := c.HashNoPad(gvs(x))
				o = append(o, outG(h[:]...)...)
			}
			return
		})
	})))
	nms := [][2]int{{0, 1}, {1, 1}, {3, 8}, {8, 9}, {9, 12}, {12, 16}, {17, 17}, {20, 33}, {5, 4}}
	step := 3
	if th {
		step = 1
	}
	for i := 0; i < 26; i++ {
		for j := 1; j < 26; j += step {
			nms = append(nms, [2]int{i, j})
		}
	}
	seen := map[string]bool{}
	for _, nm := range nms {
		n, m := nm[0], nm[1]
		name := fmt.Sprintf("HashNToM%d_%d", n, m)
		if seen[name] {
			continue
		}
		seen[name] = true
		out = append(out, inMode(sym.Native, name, hooked(func(e *Env) {
			in := e.GLs("in", n)
			for i, v := range spongeGL(e, in, m) {
				e.OutN(fmt.Sprintf("out[%d]", i), v)
			}
			e.Code(func(api frontend.API) []FV {
				return outG(poseidon.NewGoldilocksChip(api).HashNToMNoPad(gvs(in), m)...)
			})
		})))
	}
	return
}

func bnHashComps(th bool) (out []*Comp) {
	max := 90
	if th {
		max = 300
	}
	for n := 0; n <= max; n++ {
		n := n
		out = append(out, inMode(sym.Native, fmt.Sprintf("HashNoPad%d", n), hooked(func(e *Env) {
			in := e.GLs("in", n)
			e.OutN("digest", hashBN(e, in))
			e.OutN("orNoop", leafBN(e, in))
			e.Code(func(api frontend.API) []FV {
				c := poseidon.NewBN254Chip(api)
				return []FV{c.HashNoPad(gvs(in)), c.HashOrNoop(gvs(in))}
			})
		})))
	}
	// several digests by one chip: a prefix, an extension by zeros, repeated elements, constants
	out = append(out, inMode(sym.Native, "Several", hooked(func(e *Env) {
		in := e.GLs("in", 14)
		z := e.NU(0)
		ext := func(n, m int) (r []*Var) {
			r = append(r, in[:n]...)
			for ; m > 0; m-- {
				r = append(r, z)
			}
			return
		}
		ins := [][]*Var{in, in[:9], in[:3], in[:1], {}, ext(3, 1), ext(9, 1), ext(2, 1), ext(0, 1), ext(0, 4), ext(1, 9),
			{in[0], in[0], in[0], in[0], in[0]}, {in[3], in[2], in[1], in[0]}, {e.NU(sym.GM - 1), in[0], e.NU(1), in[1], e.NU(7)}, in}
		for i, x := range ins {
			e.OutN(fmt.Sprintf("digest%d", i), hashBN(e, x))
			e.OutN(fmt.Sprintf("orNoop%d", i), leafBN(e, x))
		}
		l, r := e.Nat("l"), e.Nat("r")
		two := [][2]*Var{{l, r}, {l, l}, {r, l}, {z, l}, {l, z}, {z, z}, {l, r}}
		for i, x := range two {
			e.OutN(fmt.Sprintf("two%d", i), twoBN(e, x[0], x[1]))
		}
		e.Code(func(api frontend.API) (o []FV) {
			c := poseidon.NewBN254Chip(api)
			for _, x := range ins {
				o = append(o, c.HashNoPad(gvs(x)), c.HashOrNoop(gvs(x)))
			}
			for _, x := range two {
				o = append(o, c.TwoToOne(x[0], x[1]))
			}
			return
		})
	})))
	out = append(out, eachMode("TwoToOne", hooked(func(e *Env) {
		l, r := e.Nat("l"), e.Nat("r")
		e.OutN("digest", twoBN(e, l, r))
		e.OutN("digest2", twoBN(e, r, l))
		e.Code(func(api frontend.API) []FV {
			chip(e, api)
			c := poseidon.NewBN254Chip(api)
			return []FV{c.TwoToOne(l, r), c.TwoToOne(r, l)}
		})
	}))...)
	out = append(out, eachMode("ToVec", hooked(func(e *Env) {
		h, g := e.Nat("h"), e.Nat("g")
		for i, c := range append(chunksBN(e, h), chunksBN(e, g)...) {
			e.OutN(fmt.Sprintf("chunk[%d]", i), c)
		}
		e.Code(func(api frontend.API) []FV {
			chip(e, api)
			c := poseidon.NewBN254Chip(api)
			return outG(append(c.ToVec(h), c.ToVec(g)...)...)
		})
	}))...)
	for i, v := range []*big.Int{big.NewInt(0), big.NewInt(1), new(big.Int).Sub(sym.BigR, big.NewInt(1)), pow2m1(200)} {
		v := v
		out = append(out, inMode(sym.Native, fmt.Sprintf("ToVecConst%d", i), hooked(func(e *Env) {
			for i, c := range chunksBN(e, e.NBig(v)) {
				e.OutN(fmt.Sprintf("chunk[%d]", i), c)
			}
			e.Code(func(api frontend.API) []FV { return outG(poseidon.NewBN254Chip(api).ToVec(v)...) })
		})))
	}
	return
}

func challengerComps(th bool) (out []*Comp) {
	add := func(name string, f func(e *Env)) { out = append(out, inMode(sym.Native, name, hooked(f))) }
	// blocks: positive = observe that many elements, negative = draw that many challenges
	seqs := [][]int{
		{-1}, {-8}, {-9}, {-20}, {1, -1}, {7, -2}, {8, -3}, {9, -9}, {16, -8}, {17, -17},
		{3, -1, 2, -1, 4, -9}, {8, -2, 1, -1}, {1, -8, 1, -8}, {4, -4, 4, -4, 8, -4}, {5, -12, 3, -1, 20, -2, -7},
		{7, 1, -1, 8, -1, 15, -1}, {2, -9, -1, 6, 2, -3}, {1, -1, 1, -1, 1, -1, 1, -1},
		// many elements at once while others wait, many draws at once from a used buffer
		{3, 0, 20, -9}, {1, 0, 8, -1}, {7, 0, 9, 0, 8, -1, 0, -9}, {9, -3, 0, -9}, {5, -1, 16, -8, 0, -8, 8, -1}, {4, 0, 4, -3, 0, -5, 12, 0, 4, -2},
	}
	sz := []int{0, 1, 7, 8, 9, 17}
	for _, a := range sz {
		for _, b := range sz {
			for _, c := range sz {
				for _, d := range sz {
					seqs = append(seqs, []int{a, -b, c, -d, -1})
					if th {
						seqs = append(seqs, []int{a, c, -b, d, -1}, []int{0, a, -b, 0, c, -d, -1}, []int{a, -b, -c, d, -1, 0, a, -1})
					}
				}
			}
		}
	}
	seen := map[string]bool{}
	for _, s := range seqs {
		s := s
		name := fmt.Sprintf("Elements%v", s)
		if seen[name] {
			continue
		}
		seen[name] = true
		add(name, func(e *Env) {
			sp := newSpecCh(e)
			var ins []*Var
			k := 0
			for _, b := range s {
				for i := 0; i < b; i++ {
					v := e.Bounded(fmt.Sprintf("x[%d]", len(ins)), pow2m1(140))
					ins = append(ins, v)
					sp.obs(v)
				}
				for i := 0; i < -b; i++ {
					e.OutN(fmt.Sprintf("challenge[%d]", k), sp.get())
					k++
				}
			}
			e.Code(func(api frontend.API) (o []FV) {
				ch := challenger.NewChip(api)
				xs := gvs(ins)
				for j, b := range s {
					if b > 0 {
						if j%2 == 0 {
							ch.ObserveElements(xs[:b])
						} else {
							for _, x := range xs[:b] {
								ch.ObserveElement(x)
							}
						}
						xs = xs[b:]
					} else if b < 0 {
						if j%2 == 1 {
							o = append(o, outG(ch.GetNChallenges(uint64(-b))...)...)
						} else {
							for i := 0; i < -b; i++ {
								o = append(o, outG(ch.GetChallenge())...)
							}
						}
					}
				}
				return
			})
		})
	}
	// constants (out of range ones too) and one element many times
	add("Special", func(e *Env) {
		sp := newSpecCh(e)
		a := e.Bounded("a", pow2m1(140))
		b := e.GL("b")
		var out []*Var
		cs := []*Var{e.NU(0), e.NU(1), e.NU(sym.GM - 1), e.NU(sym.GM), e.NBig(pow2m1(100))}
		g1 := append([]*Var{a, a, b, b}, cs...)
		g2 := []*Var{cs[0], cs[0], cs[0], cs[0], cs[0], cs[0], cs[0], cs[0]}
		g3 := []*Var{a, cs[3], b, cs[4], a, a}
		for _, g := range [][]*Var{g1, g2, g3} {
			sp.obs(g...)
			out = append(out, sp.getN(3)...)
		}
		for i, v := range out {
			e.OutN(fmt.Sprintf("challenge[%d]", i), v)
		}
		e.Code(func(api frontend.API) (o []FV) {
			ch := challenger.NewChip(api)
			for _, g := range [][]*Var{g1, g2, g3} {
				ch.ObserveElements(gvs(g))
				o = append(o, outG(ch.GetNChallenges(3)...)...)
			}
			return
		})
	})
	add("Typed", func(e *Env) {
		sp := newSpecCh(e)
		h := e.GLs("hash", 4)
		bh := e.Nat("bnhash")
		cap := e.Nats("cap", 4)
		q := e.QE("q")
		qs := e.QEs("qs", 3)
		b0, b1 := e.QEs("b0", 5), e.QEs("b1", 2)
		sp.obs(h...)
		o1 := sp.getQ()
		sp.obsBN(bh)
		o2 := sp.getN(3)
		sp.obsBN(cap...)
		o3 := sp.getN(4)
		sp.obsQ(q)
		sp.obsQ(qs...)
		o4 := sp.get()
		sp.obsQ(b0...)
		sp.obsQ(b1...)
		o5 := sp.getN(2)
		var all []*Var
		all = append(all, o1[:]...)
		all = append(all, o2...)
		all = append(all, o3...)
		all = append(all, o4)
		all = append(all, o5...)
		for i, v := range all {
			e.OutN(fmt.Sprintf("challenge[%d]", i), v)
		}
		e.Code(func(api frontend.API) (o []FV) {
			ch := challenger.NewChip(api)
			ch.ObserveHash(poseidon.GoldilocksHashOut{gv(h[0]), gv(h[1]), gv(h[2]), gv(h[3])})
			o = append(o, outQ(ch.GetExtensionChallenge())...)
			ch.ObserveBN254Hash(bh)
			o = append(o, outG(ch.GetNChallenges(3)...)...)
			ch.ObserveCap(variables.FriMerkleCap(fvs(cap)))
			hh := ch.GetHash()
			o = append(o, outG(hh[:]...)...)
			ch.ObserveExtensionElement(qv(q))
			ch.ObserveExtensionElements(qvs(qs))
			o = append(o, outG(ch.GetChallenge())...)
			ch.ObserveOpenings(fri.Openings{Batches: []fri.OpeningBatch{{Values: qvs(b0)}, {Values: qvs(b1)}}})
			return append(o, outG(ch.GetNChallenges(2)...)...)
		})
	})
	// two challengers in one circuit do not influence each other
	add("Independent", func(e *Env) {
		a, b := e.GLs("a", 9), e.GLs("b", 9)
		s1, s2 := newSpecCh(e), newSpecCh(e)
		s1.obs(a...)
		s2.obs(b...)
		for i := 0; i < 3; i++ {
			e.OutN("a", s1.get())
			e.OutN("b", s2.get())
		}
		e.Code(func(api frontend.API) (o []FV) {
			c1, c2 := challenger.NewChip(api), challenger.NewChip(api)
			for i := range a {
				c1.ObserveElement(gv(a[i]))
				c2.ObserveElement(gv(b[i]))
			}
			for i := 0; i < 3; i++ {
				o = append(o, outG(c1.GetChallenge(), c2.GetChallenge())...)
			}
			return
		})
	})
	_ = gl.Zero
	return
}
