package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"math/big"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"verif/e2/sx"
)

func init() {
	checks["C20"] = check{"Deserialisation carries every proof and key value to its own variable", runDeserialize}
	checks["C21"] = check{"Circuit data is read field by field and derived sizes are exact", runCommonData}
}

var u64max = new(big.Int).SetUint64(1<<64 - 1)

// A docB builds a symbolic document and, next to it, what has to come out of it.
type docB struct {
	want  []wantLeaf
	lens  []wantLen
	size  func(name string, idx ...int) int
	every []*sx.Term
}

type wantLeaf struct {
	path string
	kind string // num, bool, str
	t    *sx.Term
	s    sx.Str
}

type wantLen struct {
	path string
	n    int
}

func (b *docB) num(path string) sx.JVal {
	t := sx.Var("u:"+path, sx.BI(0), u64max)
	b.want = append(b.want, wantLeaf{path: path, kind: "num", t: t})
	b.every = append(b.every, t)
	return sx.JNum{T: t}
}

func (b *docB) flag(path string) (sx.JVal, *sx.Term) {
	t := sx.BoolVar("b:" + path)
	b.want = append(b.want, wantLeaf{path: path, kind: "bool", t: t})
	b.every = append(b.every, t)
	return sx.JBool{T: t}, t
}

func (b *docB) digest(path string) sx.JVal {
	t := sx.Var("d:"+path, sx.BI(0), new(big.Int).Sub(frMod, sx.BI(1)))
	b.want = append(b.want, wantLeaf{path: path, kind: "num", t: t})
	b.every = append(b.every, t)
	return sx.JStr{S: sx.NumStr(t)}
}

// unseen: a value the result need not carry.
func (b *docB) unseen(name string) sx.JVal {
	t := sx.Var("x:"+name, sx.BI(0), u64max)
	b.every = append(b.every, t)
	return sx.JNum{T: t}
}

func (b *docB) list(path string, n int, f func(i int, at string) sx.JVal) sx.JArr {
	b.lens = append(b.lens, wantLen{path, n})
	a := sx.JArr{}
	for i := 0; i < n; i++ {
		a = append(a, f(i, fmt.Sprintf("%s[%d]", path, i)))
	}
	return a
}

func (b *docB) nums(path string, n int) sx.JArr {
	return b.list(path, n, func(i int, at string) sx.JVal { return b.num(at + ".Limb") })
}
func (b *docB) plain(path string, n int) sx.JArr {
	return b.list(path, n, func(i int, at string) sx.JVal { return b.num(at) })
}
func (b *docB) digests(path string, n int) sx.JArr {
	return b.list(path, n, func(i int, at string) sx.JVal { return b.digest(at) })
}
func (b *docB) exts(path string, n int) sx.JArr {
	return b.list(path, n, func(i int, at string) sx.JVal {
		return sx.JArr{b.num(at + "[0].Limb"), b.num(at + "[1].Limb")}
	})
}

type jo = sx.JObj
type jf = sx.JField

func (b *docB) proof() sx.JVal {
	o := jo{}
	pr := jo{{"wires_cap", b.digests("Proof.WiresCap", b.size("wires cap"))},
		{"plonk_zs_partial_products_cap", b.digests("Proof.PlonkZsPartialProductsCap", b.size("partial products cap"))},
		{"quotient_polys_cap", b.digests("Proof.QuotientPolysCap", b.size("quotient cap"))}}
	op := jo{}
	for _, x := range [][3]string{{"constants", "Constants", "constants"}, {"plonk_sigmas", "PlonkSigmas", "sigmas"}, {"wires", "Wires", "wires"}, {"plonk_zs", "PlonkZs", "zs"},
		{"plonk_zs_next", "PlonkZsNext", "zs next"}, {"partial_products", "PartialProducts", "partial products"}, {"quotient_polys", "QuotientPolys", "quotient polys"}} {
		op = append(op, jf{Key: x[0], Val: b.exts("Proof.Openings."+x[1], b.size(x[2]))})
	}
	pr = append(pr, jf{Key: "openings", Val: op})
	const fp = "Proof.OpeningProof."
	fri := jo{{"commit_phase_merkle_caps", b.list(fp+"CommitPhaseMerkleCaps", b.size("commit caps"), func(i int, at string) sx.JVal { return b.digests(at, b.size("commit cap", i)) })},
		{"query_round_proofs", b.list(fp+"QueryRoundProofs", b.size("rounds"), func(i int, at string) sx.JVal {
			return jo{{"initial_trees_proof", jo{{"evals_proofs", b.list(at+".InitialTreesProof.EvalsProofs", b.size("oracles", i), func(j int, at string) sx.JVal {
				return sx.JArr{b.nums(at+".Elements", b.size("leaf", i, j)), jo{{"siblings", b.digests(at+".MerkleProof.Siblings", b.size("siblings", i, j))}}}
			})}}},
				{"steps", b.list(at+".Steps", b.size("steps", i), func(j int, at string) sx.JVal {
					return jo{{"evals", b.exts(at+".Evals", b.size("evals", i, j))}, {"merkle_proof", jo{{"siblings", b.digests(at+".MerkleProof.Siblings", b.size("step siblings", i, j))}}}}
				})}}
		})},
		{"final_poly", jo{{"coeffs", b.exts(fp+"FinalPoly.Coeffs", b.size("final poly"))}}},
		{"pow_witness", b.num(fp + "PowWitness.Limb")}}
	pr = append(pr, jf{Key: "opening_proof", Val: fri})
	o = append(o, jf{Key: "proof", Val: pr}, jf{Key: "public_inputs", Val: b.nums("PublicInputs", b.size("public inputs"))})
	return o
}

func (b *docB) key() sx.JVal {
	return jo{{"constants_sigmas_cap", b.digests("ConstantSigmasCap", b.size("constants cap"))}, {"circuit_digest", b.digest("CircuitDigest")}}
}

func (b *docB) common(hiding **sx.Term) sx.JVal {
	// the two FRI configurations and the two numbers of constants are different values here
	fc := func(at string) sx.JVal {
		return jo{{"rate_bits", b.num(at + ".RateBits")}, {"cap_height", b.num(at + ".CapHeight")}, {"proof_of_work_bits", b.num(at + ".ProofOfWorkBits")},
			{"reduction_strategy", jo{{"ConstantArityBits", sx.JArr{b.unseen(at + "a"), b.unseen(at + "b")}}}}, {"num_query_rounds", b.num(at + ".NumQueryRounds")}}
	}
	f1, _ := b.flag("Config.UseBaseArithmeticGate")
	f2, _ := b.flag("Config.ZeroKnowledge")
	h := sx.BoolVar("b:hiding")
	*hiding = h
	b.every = append(b.every, h)
	deg := b.num("FriParams.DegreeBits")
	b.want = append(b.want, wantLeaf{path: "DegreeBits", kind: "num", t: deg.(sx.JNum).T})
	n := b.size("selector indices")
	ng := b.size("groups")
	groups := sx.JArr{}
	for i := 0; i < ng; i++ {
		groups = append(groups, jo{{"start", b.unseen(fmt.Sprintf("group%d start", i))}, {"end", b.unseen(fmt.Sprintf("group%d end", i))}})
	}
	idx := sx.JArr{}
	for i := 0; i < n; i++ {
		idx = append(idx, b.unseen(fmt.Sprintf("selector%d", i)))
	}
	gates := b.list("GateIds", b.size("gates"), func(i int, at string) sx.JVal {
		t := sx.Var("id:"+at, sx.BI(0), sx.BI(1<<62))
		b.every = append(b.every, t)
		s := sx.Cat(sx.Lit("SomeGate { num_ops: "), sx.Cat(sx.NumStr(t), sx.Lit(" }")))
		b.want = append(b.want, wantLeaf{path: at, kind: "str", s: s})
		return sx.JStr{S: s}
	})
	return jo{
		{"config", jo{{"num_wires", b.num("Config.NumWires")}, {"num_routed_wires", b.num("Config.NumRoutedWires")}, {"num_constants", b.num("Config.NumConstants")},
			{"use_base_arithmetic_gate", f1}, {"security_bits", b.num("Config.SecurityBits")}, {"num_challenges", b.num("Config.NumChallenges")}, {"zero_knowledge", f2},
			{"max_quotient_degree_factor", b.num("Config.MaxQuotientDegreeFactor")}, {"fri_config", fc("Config.FriConfig")}}},
		{"fri_params", jo{{"config", fc("FriParams.Config")}, {"hiding", sx.JBool{T: h}}, {"degree_bits", deg},
			{"reduction_arity_bits", b.plain("FriParams.ReductionArityBits", b.size("arities"))}}},
		{"gates", gates},
		{"selectors_info", jo{{"selector_indices", idx}, {"groups", groups}}},
		{"quotient_degree_factor", b.num("QuotientDegreeFactor")}, {"num_gate_constraints", b.num("NumGateConstraints")}, {"num_constants", b.num("NumConstants")},
		{"num_public_inputs", b.num("NumPublicInputs")}, {"k_is", b.plain("KIs", b.size("k_is"))}, {"num_partial_products", b.num("NumPartialProducts")},
		{"num_lookup_polys", b.unseen("lookup")}, {"luts", sx.JArr{}}}
}

var pathRe = regexp.MustCompile(`[A-Za-z0-9_]+|\[\d+\]`)

func at(p *sx.Path, v sx.Value, t types.Type, path string) (sx.Value, types.Type, bool) {
	for _, tok := range pathRe.FindAllString(path, -1) {
		if tok[0] != '[' {
			var ok bool
			if v, t, ok = p.Field(v, t, tok); !ok {
				return nil, nil, false
			}
			continue
		}
		i, _ := strconv.Atoi(tok[1 : len(tok)-1])
		switch x := v.(type) {
		case sx.Slice:
			if n, ok := x.Len().Int(); !ok || i >= int(n) {
				return nil, nil, false
			}
			v = *x.At(i)
		case sx.Array:
			if i >= len(x) {
				return nil, nil, false
			}
			v = *x[i]
		default:
			return nil, nil, false
		}
		switch u := t.Underlying().(type) {
		case *types.Slice:
			t = u.Elem()
		case *types.Array:
			t = u.Elem()
		}
	}
	return v, t, true
}

// compare: the conditions under which the result is not what the document says.
func (b *docB) compare(p *sx.Path, v sx.Value, t types.Type, exact bool) (bad *sx.Term, what string) {
	for _, l := range b.lens {
		x, _, ok := at(p, v, t, l.path)
		s, ok2 := x.(sx.Slice)
		if !ok || !ok2 {
			return nil, "no list " + l.path
		}
		n, ok := s.Len().Int()
		if !ok {
			return nil, "length of " + l.path
		}
		if int(n) != l.n {
			return sx.True, fmt.Sprintf("%s has %d elements instead of %d", l.path, n, l.n)
		}
	}
	good := []*sx.Term{}
	what = "some value is not the one of the document"
	for _, w := range b.want {
		x, _, ok := at(p, v, t, w.path)
		if !ok {
			return nil, "nothing at " + w.path
		}
		c := sx.False
		switch w.kind {
		case "num":
			n, ok := p.Number(x)
			if !ok {
				if i, isI := x.(sx.Iface); isI && i.T == nil {
					return sx.True, w.path + " is not set"
				}
				if q, isQ := x.(*sx.Value); isQ && q == nil {
					return sx.True, w.path + " is nil"
				}
				return nil, "no number at " + w.path
			}
			if exact {
				c = sx.Eq(n, w.t)
			} else if n == w.t {
				c = sx.True
			} else {
				c = sx.Eq(sx.Mod(n, sx.NB(frMod)), sx.Mod(w.t, sx.NB(frMod)))
			}
		case "bool":
			y, ok := x.(*sx.Term)
			if !ok {
				return nil, "no truth value at " + w.path
			}
			c = sx.Eq(y, w.t)
		case "str":
			y, ok := x.(sx.Str)
			if ok {
				c, ok = sx.EqStr(y, w.s)
			}
			if !ok {
				return nil, "string at " + w.path
			}
		}
		if c == sx.False {
			return sx.True, w.path + " does not carry its value"
		}
		if c != sx.True {
			good = append(good, c)
			what = w.path + " does not carry its value for every input"
		}
	}
	return sx.Not(sx.And(good...)), what
}

// value of a variable in a model; free ones get distinct values.
func filled(every []*sx.Term, m map[string]*big.Int) map[string]*big.Int {
	r := map[string]*big.Int{}
	for i, t := range every {
		v := m[t.Name]
		if v == nil {
			if t.Bool {
				v = sx.BI(0)
			} else {
				v = sx.BI(int64(1000003*(i+1) + 17))
				if t.Hi != nil && v.Cmp(t.Hi) > 0 {
					v = t.Hi
				}
			}
		}
		r[t.Name] = v
	}
	return r
}

func emitJSON(d sx.JVal, m map[string]*big.Int) string {
	switch x := d.(type) {
	case sx.JNum:
		return x.T.Eval(m).String()
	case sx.JBool:
		if x.T.Eval(m).Sign() != 0 {
			return "true"
		}
		return "false"
	case sx.JStr:
		b, _ := json.Marshal(x.S.Eval(m))
		return string(b)
	case sx.JArr:
		var s []string
		for _, e := range x {
			s = append(s, emitJSON(e, m))
		}
		return "[" + strings.Join(s, ", ") + "]"
	case sx.JObj:
		var s []string
		for _, f := range x {
			s = append(s, strconv.Quote(f.Key)+": "+emitJSON(f.Val, m))
		}
		return "{" + strings.Join(s, ",\n") + "}"
	}
	return "null"
}

func (b *docB) wantJSON(m map[string]*big.Int) string {
	var w [][3]string
	for _, l := range b.lens {
		w = append(w, [3]string{"len", l.path, strconv.Itoa(l.n)})
	}
	for _, l := range b.want {
		switch l.kind {
		case "num":
			w = append(w, [3]string{"num", l.path, l.t.Eval(m).String()})
		case "bool":
			w = append(w, [3]string{"bool", l.path, fmt.Sprint(l.t.Eval(m).Sign() != 0)})
		default:
			w = append(w, [3]string{"str", l.path, l.s.Eval(m)})
		}
	}
	o, _ := json.Marshal(w)
	return string(o)
}

type docCase struct {
	name string
	size func(p *sx.Path, name string, idx ...int) int
}

// docCases: one small ragged document, one large one, and one per list whose length is symbolic.
func docCases(lists []string, max int) []docCase {
	small := map[string]int{}
	for i, l := range lists {
		small[l] = 2 + i%7
	}
	ragged := func(p *sx.Path, n string, idx ...int) int {
		k := small[n]
		switch n {
		case "rounds", "steps", "commit caps":
			k = 3
		case "oracles":
			k = 4
		}
		for j, i := range idx {
			k += i * (j + 1)
		}
		return k
	}
	tiny := func(p *sx.Path, n string, idx ...int) int {
		k := 1
		for _, i := range idx {
			k += i
		}
		return k
	}
	cs := []docCase{{"ragged", ragged},
		{"large", func(p *sx.Path, n string, idx ...int) int {
			big := map[string]int{"wires cap": 16, "partial products cap": 17, "quotient cap": 18, "constants cap": 33, "constants": 40, "sigmas": 85, "wires": 150, "zs": 5, "zs next": 6,
				"partial products": 30, "quotient polys": 35, "commit caps": 5, "commit cap": 16, "rounds": 30, "oracles": 4, "steps": 4, "evals": 17, "step siblings": 14, "siblings": 21,
				"final poly": 70, "public inputs": 300, "leaf": 40, "arities": 9, "gates": 40, "selector indices": 40, "groups": 12, "k_is": 300}
			k := big[n]
			for j, i := range idx {
				k += i % 3 * (j + 1)
			}
			return k
		}}}
	for _, l := range lists {
		l := l
		cs = append(cs, docCase{"any number of " + l, func(p *sx.Path, n string, idx ...int) int {
			if n != l {
				return tiny(p, n, idx...)
			}
			all := true // only the first such list is symbolic
			for _, i := range idx {
				if i != 0 {
					all = false
				}
			}
			if !all {
				return tiny(p, n, idx...)
			}
			return int(p.Concrete(sx.Var("length of "+l, sx.BI(0), sx.BI(int64(max)))))
		}})
	}
	return cs
}

// docCheck runs read (and convert, when there is one) on every case.
func docCheck(r *Report, e *sx.Engine, label, pkg, test string, lists []string, doc func(b *docB) sx.JVal, exact bool,
	run func(p *sx.Path) (sx.Value, types.Type), extra func(b *docB, p *sx.Path, v sx.Value, t types.Type) (*sx.Term, string), refuse func(b *docB) *sx.Term) {
	max := 24
	if thorough() {
		max = 96
	}
	for _, c := range docCases(lists, max) {
		c := c
		ok, paths := true, 0
		name := label + ": " + c.name
		e.Explore(nil, func(p *sx.Path) sx.Value {
			b := &docB{}
			b.size = func(n string, idx ...int) int { return c.size(p, n, idx...) }
			d := doc(b)
			p.User["doc"], p.User["b"] = d, b
			p.Init(e.Pkgs[e.Module+"/"+pkg])
			v, t := run(p)
			p.User["t"] = t
			return v
		}, func(o sx.Outcome) bool {
			paths++
			p := o.P
			b, _ := p.User["b"].(*docB)
			report := func(what string, conds ...*sx.Term) {
				res, m := e.S.Check(append(append([]*sx.Term{}, p.PC...), conds...), true)
				if res == "unsat" {
					r.Oblig++
					return
				}
				ok = false
				if res != "sat" {
					r.undecided(name + ": no answer whether " + what)
					return
				}
				mm := filled(b.every, m)
				refused := sx.False
				if refuse != nil {
					refused = refuse(b)
				}
				rf := refused.Eval(mm).Sign() != 0
				text := emitJSON(p.User["doc"].(sx.JVal), mm)
				r.violate(testViolation(name, name+": "+what, pkg, map[string]string{"document": short(text)}, map[string]string{
					"verif_doc_test.go": strings.ReplaceAll(test, "REFUSE", fmt.Sprint(rf)), "doc.json": text, "want.json": b.wantJSON(mm)}))
			}
			switch o.Kind {
			case "exit":
				if o.Msg == "infeasible" {
					return true
				}
				fallthrough
			case "panic":
				c := sx.True
				if refuse != nil {
					c = sx.Not(refuse(b))
				}
				report("a well-formed document is refused: "+o.Msg, c)
			case "return":
				if refuse != nil {
					report("a document that has to be refused is accepted", refuse(b))
				}
				t := p.User["t"].(types.Type)
				bad, what := b.compare(p, o.Value, t, exact)
				if bad == nil {
					ok = false
					r.undecided(name + ": " + what)
					return true
				}
				report(what, bad)
				if extra != nil {
					if bad, what = extra(b, p, o.Value, t); bad == nil {
						ok = false
						r.undecided(name + ": " + what)
					} else {
						report(what, bad)
					}
				}
			default:
				ok = false
				r.undecided(name + ": " + o.Msg)
				r.probe(func() { report("the model of a path not followed to its end is treated wrongly") })
			}
			return true
		})
		r.row(name, "paths", paths, "decided", ok)
	}
}

func short(s string) string {
	if len(s) > 400 {
		return s[:400] + "…"
	}
	return s
}

var proofLists = []string{"wires cap", "partial products cap", "quotient cap", "constants", "sigmas", "wires", "zs", "zs next", "partial products", "quotient polys",
	"commit caps", "commit cap", "rounds", "oracles", "leaf", "siblings", "steps", "evals", "step siblings", "final poly", "public inputs"}

func runDeserialize(r *Report) *sx.Engine {
	r.Bounds = "all 64-bit numbers and all digests below the BN254 modulus, all at once; one small ragged document, one with lists of up to 300 elements, and for each list in turn every length from 0 to 24 (thorough: 96)"
	r.Assume = []string{"encoding/json, os and io do what they document (decoding is modelled: struct tags, interfaces holding pointers, UnmarshalJSON methods)",
		"the document has the fields plonky2 writes; digests are canonical decimal numbers"}
	e, err := load("./variables", "./types")
	if err != nil {
		r.undecided("loading: " + err.Error())
		return nil
	}
	e.MaxPaths = 20000
	e.Intr["github.com/consensys/gnark/constraint/solver.RegisterHint"] = func(p *sx.Path, c *sx.Call) sx.Value { return sx.Tuple{} }
	e.Files(func(p *sx.Path) sx.JVal { return p.User["doc"].(sx.JVal) })
	pipe := func(read, conv string) func(p *sx.Path) (sx.Value, types.Type) {
		f, g := e.Func("types", read), e.Func("variables", conv)
		if f == nil || g == nil {
			r.undecided("no function " + read + " or " + conv)
			return nil
		}
		r.Entries = append(r.Entries, f.String(), g.String())
		return func(p *sx.Path) (sx.Value, types.Type) {
			raw := p.Call(f, sx.Lit("document.json"))
			return p.Call(g, raw), g.Signature.Results().At(0).Type()
		}
	}
	if f := pipe("ReadProofWithPublicInputs", "DeserializeProofWithPublicInputs"); f != nil {
		docCheck(r, e, "proof", "variables", strings.ReplaceAll(plainDocTest, "BUILD", "DeserializeProofWithPublicInputs(types.ReadProofWithPublicInputs(f))"), proofLists,
			func(b *docB) sx.JVal { return b.proof() }, false, f, nil, nil)
	}
	if f := pipe("ReadVerifierOnlyCircuitData", "DeserializeVerifierOnlyCircuitData"); f != nil {
		docCheck(r, e, "verifier key", "variables", strings.ReplaceAll(plainDocTest, "BUILD", "DeserializeVerifierOnlyCircuitData(types.ReadVerifierOnlyCircuitData(f))"), []string{"constants cap"},
			func(b *docB) sx.JVal { return b.key() }, false, f, nil, nil)
	}
	return e
}

func runCommonData(r *Report) *sx.Engine {
	r.Bounds = "all 64-bit numbers and truth values, all at once; lists: one small ragged document, one with lists of up to 300 elements, and for each list in turn every length from 0 to 24 (thorough: 96); derived sizes: all degree and rate bits with a sum up to 62, 0 to 12 folding steps of up to 2^16 each"
	r.Assume = []string{"encoding/json, os and io do what they document (decoding is modelled)", "the document has the fields plonky2 writes; int is 64 bits wide"}
	e, err := load("./types")
	if err != nil {
		r.undecided("loading: " + err.Error())
		return nil
	}
	e.MaxPaths = 20000
	e.Intr["github.com/consensys/gnark/constraint/solver.RegisterHint"] = func(p *sx.Path, c *sx.Call) sx.Value { return sx.Tuple{} }
	e.Files(func(p *sx.Path) sx.JVal { return p.User["doc"].(sx.JVal) })
	f, ns := e.Func("types", "ReadCommonCircuitData"), e.Func("plonk/gates", "NewSelectorsInfo")
	if f == nil || ns == nil {
		r.undecided("no function ReadCommonCircuitData or NewSelectorsInfo")
		return e
	}
	r.Entries = append(r.Entries, f.String())
	var hiding *sx.Term
	docCheck(r, e, "common data", "types", strings.NewReplacer("BUILD", "ReadCommonCircuitData(f)", "package variables", "package types", "gnark-plonky2-verifier/types", "gnark-plonky2-verifier/plonk/gates", "EXTRA", commonExtra).Replace(docTest),
		[]string{"arities", "gates", "selector indices", "groups", "k_is"},
		func(b *docB) sx.JVal { return b.common(&hiding) }, true,
		func(p *sx.Path) (sx.Value, types.Type) {
			return p.Call(f, sx.Lit("document.json")), f.Signature.Results().At(0).Type()
		},
		func(b *docB, p *sx.Path, v sx.Value, t types.Type) (*sx.Term, string) {
			got, _, ok := p.Field(v, t, "SelectorsInfo")
			if !ok {
				return nil, "no SelectorsInfo"
			}
			var idx, st, en []sx.Value
			for i := 0; i < b.size("selector indices"); i++ {
				idx = append(idx, sx.Var(fmt.Sprintf("x:selector%d", i), sx.BI(0), u64max))
			}
			for i := 0; i < b.size("groups"); i++ {
				st = append(st, sx.Var(fmt.Sprintf("x:group%d start", i), sx.BI(0), u64max))
				en = append(en, sx.Var(fmt.Sprintf("x:group%d end", i), sx.BI(0), u64max))
			}
			want := p.Call(ns, sx.MkSlice(idx), sx.MkSlice(st), sx.MkSlice(en))
			c, ok := p.DeepEq(got, *(want.(*sx.Value)))
			if !ok {
				return nil, "selectors cannot be compared"
			}
			return sx.Not(c), "selector indices or groups are not those of the document"
		},
		func(b *docB) *sx.Term { return hiding })
	derived(r, e)
	return e
}

// derived sizes of FriParams.
func derived(r *Report, e *sx.Engine) {
	T := e.Type("types", "FriParams")
	if T == nil {
		r.undecided("no type FriParams")
		return
	}
	deg, rate := sx.Var("degree", sx.BI(0), sx.BI(62)), sx.Var("rate", sx.BI(0), sx.BI(62))
	maxN := 12
	for n := 0; n <= maxN; n++ {
		var ar []*sx.Term
		sum, max := sx.N(0), sx.N(0)
		for i := 0; i < n; i++ {
			a := sx.Var(fmt.Sprintf("arity%d", i), sx.BI(0), sx.BI(16))
			ar = append(ar, a)
			sum = sx.Add(sum, a)
			max = sx.Ite(sx.Le(max, a), a, max)
		}
		pre := []*sx.Term{sx.Le(sx.Add(deg, rate), sx.N(62)), sx.Le(sum, deg)}
		for _, m := range []struct {
			name string
			want *sx.Term
		}{{"LdeBits", sx.Add(deg, rate)}, {"LdeSize", sx.Pow2(sx.Add(deg, rate))}, {"TotalArities", sum}, {"FinalPolyBits", sx.Sub(deg, sum)},
			{"FinalPolyLen", sx.Pow2(sx.Sub(deg, sum))}, {"MaxArityBits", max}} {
			m := m
			if m.name == "MaxArityBits" && n > 6 {
				continue // a path per ordering
			}
			fn := e.Func("types", "*FriParams."+m.name)
			if fn == nil {
				fn = e.Func("types", "FriParams."+m.name)
			}
			if fn == nil {
				r.undecided("no method " + m.name)
				continue
			}
			if n == 0 {
				r.Entries = append(r.Entries, fn.String())
			}
			name := fmt.Sprintf("%s with %d folding steps", m.name, n)
			ok, paths := true, 0
			e.Explore(nil, func(p *sx.Path) sx.Value {
				for _, c := range pre {
					p.Assume(c)
				}
				v := p.Zero(T).(sx.Struct)
				u := T.Underlying().(*types.Struct)
				for i := 0; i < u.NumFields(); i++ {
					switch u.Field(i).Name() {
					case "DegreeBits":
						*v[i] = deg
					case "ReductionArityBits":
						var vs []sx.Value
						for _, a := range ar {
							vs = append(vs, a)
						}
						*v[i] = sx.MkSlice(vs)
					case "Config":
						cu := u.Field(i).Type().Underlying().(*types.Struct)
						for k := 0; k < cu.NumFields(); k++ {
							if cu.Field(k).Name() == "RateBits" {
								*(*v[i]).(sx.Struct)[k] = rate
							}
						}
					}
				}
				var recv sx.Value = v
				if _, isPtr := fn.Signature.Recv().Type().(*types.Pointer); isPtr {
					c := sx.Value(v)
					recv = &c
				}
				return p.Call(fn, recv)
			}, func(o sx.Outcome) bool {
				paths++
				p := o.P
				conds := append([]*sx.Term{}, p.PC...)
				what := "wrong"
				switch o.Kind {
				case "return":
					t, k := o.Value.(*sx.Term)
					if !k {
						ok = false
						r.undecided(name + ": result")
						return true
					}
					conds = append(conds, sx.Not(sx.Eq(t, m.want)))
				case "panic":
					what = "refused: " + o.Msg
				case "exit":
					if o.Msg == "infeasible" {
						return true
					}
				default:
					ok = false
					r.undecided(name + ": " + o.Msg)
					if r.probes++; r.probes > 5 {
						return true
					}
					what = "the model of a path not followed to its end is treated wrongly"
				}
				res, mod := e.S.Check(conds, true)
				if res == "unsat" {
					r.Oblig++
					return true
				}
				ok = false
				if res != "sat" {
					r.undecided(name + ": no answer")
					return true
				}
				mm := filled(append([]*sx.Term{deg, rate}, ar...), mod)
				var as []string
				for _, a := range ar {
					as = append(as, a.Eval(mm).String())
				}
				in := map[string]string{"degree bits": deg.Eval(mm).String(), "rate bits": rate.Eval(mm).String(), "arities": strings.Join(as, " ")}
				r.violate(testViolation(m.name, name+": "+what, "types", in, map[string]string{"verif_size_test.go": fmt.Sprintf(sizeTest, deg.Eval(mm), rate.Eval(mm), strings.Join(as, ", "), m.name, m.want.Eval(mm), m.want.Eval(mm))}))
				return true
			})
			if n%4 == 0 || !ok {
				r.row(name, "paths", paths, "decided", ok)
			}
		}
	}
}

var _ = sort.Strings

const sizeTest = `package types

import (
	"fmt"
	"testing"
)

func TestVerifSize(t *testing.T) {
	defer func() {
		if r := recover(); r != nil {
			fmt.Println("VERIF-VIOLATED panic", r)
		}
	}()
	p := FriParams{DegreeBits: %s, Config: FriConfig{RateBits: %s}, ReductionArityBits: []uint64{%s}}
	if got := fmt.Sprint(p.%s()); got != "%s" {
		fmt.Println("VERIF-VIOLATED", got, "instead of %s")
		return
	}
	fmt.Println("VERIF-OK")
}
`

const docTest = `package variables

import (
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"reflect"
	"regexp"
	"strconv"
	"testing"

	"github.com/succinctlabs/gnark-plonky2-verifier/types"
)

func TestVerifDoc(t *testing.T) {
	d := os.Getenv("VERIF_DIR")
	f := d + "/doc.json"
	b, _ := os.ReadFile(d + "/want.json")
	var want [][3]string
	if err := json.Unmarshal(b, &want); err != nil {
		t.Fatal(err)
	}
	var v interface{}
	refused := ""
	func() {
		defer func() {
			if r := recover(); r != nil {
				refused = fmt.Sprint("refused: ", r)
			}
		}()
		v = BUILD
	}()
	if REFUSE {
		if refused == "" {
			fmt.Println("VERIF-VIOLATED accepted")
		} else {
			fmt.Println("VERIF-OK")
		}
		return
	}
	if refused != "" {
		fmt.Println("VERIF-VIOLATED", refused)
		return
	}
	fr, _ := new(big.Int).SetString("21888242871839275222246405745257275088548364400416034343698204186575808495617", 10)
	re := regexp.MustCompile("[A-Za-z0-9_]+|\\[\\d+\\]")
	get := func(path string) (x reflect.Value, ok bool) {
		defer func() {
			if r := recover(); r != nil {
				ok = false
			}
		}()
		x = reflect.ValueOf(v)
		for _, tok := range re.FindAllString(path, -1) {
			for x.Kind() == reflect.Interface || x.Kind() == reflect.Pointer {
				x = x.Elem()
			}
			if tok[0] == '[' {
				i, _ := strconv.Atoi(tok[1 : len(tok)-1])
				x = x.Index(i)
			} else {
				x = x.FieldByName(tok)
			}
		}
		return x, true
	}
	for _, w := range want {
		x, ok := get(w[1])
		if !ok || !x.IsValid() {
			fmt.Println("VERIF-VIOLATED nothing at", w[1])
			return
		}
		switch w[0] {
		case "len":
			if strconv.Itoa(x.Len()) != w[2] {
				fmt.Println("VERIF-VIOLATED", w[1], "has", x.Len(), "elements instead of", w[2])
				return
			}
		case "num":
			s := fmt.Sprint(x.Interface())
			n, ok := new(big.Int).SetString(s, 10)
			m, _ := new(big.Int).SetString(w[2], 10)
			if !ok || n.Mod(n, fr).Cmp(m.Mod(m, fr)) != 0 {
				fmt.Println("VERIF-VIOLATED", w[1], "is", s, "instead of", w[2])
				return
			}
		default:
			if s := fmt.Sprint(x.Interface()); s != w[2] {
				fmt.Println("VERIF-VIOLATED", w[1], "is", s, "instead of", w[2])
				return
			}
		}
	}
	EXTRA
	fmt.Println("VERIF-OK")
}
`

var plainDocTest = strings.ReplaceAll(docTest, "EXTRA", "")

const commonExtra = `b, _ = os.ReadFile(f)
	var raw struct {
		S struct {
			I []uint64 ` + "`json:\"selector_indices\"`" + `
			G []struct{ Start, End uint64 } ` + "`json:\"groups\"`" + `
		} ` + "`json:\"selectors_info\"`" + `
	}
	if err := json.Unmarshal(b, &raw); err != nil {
		t.Fatal(err)
	}
	var st, en []uint64
	for _, g := range raw.S.G {
		st, en = append(st, g.Start), append(en, g.End)
	}
	if got := v.(CommonCircuitData).SelectorsInfo; fmt.Sprint(got) != fmt.Sprint(*gates.NewSelectorsInfo(raw.S.I, st, en)) {
		fmt.Println("VERIF-VIOLATED selectors are", got)
		return
	}`
