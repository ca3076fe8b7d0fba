package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"math/big"
	"regexp"
	"strings"

	"verif/e2/sx"
)

func init() {
	checks["C23"] = check{"A proof whose shape does not fit the parameters is refused", runShape}
}

// a parameter set that the verifier supports (cap height 4, arity 16)
type friCfg struct {
	name                                                               string
	Deg, Rate, Arities, Rounds, Consts, Routed, Wires, Chals, Prods, Q int
	Hiding                                                             bool
}

var friCfgs = []friCfg{
	{"no folding", 3, 3, 0, 1, 1, 2, 3, 1, 1, 2, false},
	{"one folding, two rounds", 5, 3, 1, 2, 2, 4, 5, 2, 1, 2, false},
	{"two foldings", 9, 1, 2, 1, 2, 3, 5, 1, 0, 1, false},
	{"folding down to a constant", 4, 2, 1, 3, 1, 2, 2, 1, 1, 1, false},
	{"hiding", 5, 2, 1, 1, 1, 2, 4, 2, 1, 2, true},
	{"three foldings", 13, 2, 3, 2, 3, 7, 9, 2, 3, 4, false},
	{"the step circuit with 4 rounds", 13, 3, 2, 4, 5, 80, 136, 2, 9, 8, false},
}

var idxRe = regexp.MustCompile(`\[(\d+)\]`)

// prescribed: every length the parameters prescribe, by path.
func (c friCfg) prescribed() map[string]int {
	m := map[string]int{}
	lde := c.Deg + c.Rate
	m["Caps"] = 4
	for i := 0; i < 4; i++ {
		m[fmt.Sprintf("Caps[%d]", i)] = 16
	}
	for i := 0; i < c.Arities; i++ {
		m[fmt.Sprintf("Proof.CommitPhaseMerkleCaps[%d]", i)] = 16
	}
	m["Proof.FinalPoly.Coeffs"] = 1 << (c.Deg - 4*c.Arities)
	m["Proof.QueryRoundProofs"] = c.Rounds
	salt := 0
	if c.Hiding {
		salt = 4
	}
	polys := []int{c.Consts + c.Routed, c.Wires + salt, c.Chals*(1+c.Prods) + salt, c.Chals*c.Q + salt}
	for r := 0; r < c.Rounds; r++ {
		at := fmt.Sprintf("Proof.QueryRoundProofs[%d].", r)
		m[at+"InitialTreesProof.EvalsProofs"] = 4
		for i := range polys {
			o := fmt.Sprintf("%sInitialTreesProof.EvalsProofs[%d].", at, i)
			m[o+"Elements"], m[o+"MerkleProof.Siblings"] = polys[i], lde-4
		}
		m[at+"Steps"] = c.Arities
		for i := 0; i < c.Arities; i++ {
			o := fmt.Sprintf("%sSteps[%d].", at, i)
			m[o+"Evals"], m[o+"MerkleProof.Siblings"] = 16, lde-4*(i+1)-4
		}
	}
	return m
}

const lenMax = 400

// shaped builds a value whose slices have symbolic lengths.
type shaped struct {
	p    *sx.Path
	lens map[string]*sx.Term
	v    func(path string) *sx.Term
	fix  map[string]int
}

func (s *shaped) length(path string) *sx.Term {
	if n, ok := s.fix[path]; ok {
		return sx.N(int64(n))
	}
	t := s.lens[path]
	if t == nil {
		t = s.v(path)
		s.lens[path] = t
	}
	return t
}

func (s *shaped) build(t types.Type, path string) sx.Value {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return sx.SymSlice(s.length(path), func(i int) sx.Value { return s.build(u.Elem(), fmt.Sprintf("%s[%d]", path, i)) })
	case *types.Struct:
		if !strings.Contains(t.String(), "goldilocks.") {
			v := s.p.Zero(t).(sx.Struct)
			for i := 0; i < u.NumFields(); i++ {
				*v[i] = s.build(u.Field(i).Type(), path+"."+u.Field(i).Name())
			}
			return v
		}
	}
	return s.p.Havoc(t, path)
}

func setField(v sx.Value, t types.Type, path string, x sx.Value) bool {
	s, ok := v.(sx.Struct)
	u, ok2 := t.Underlying().(*types.Struct)
	if !ok || !ok2 {
		return false
	}
	name, rest, more := strings.Cut(path, ".")
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == name {
			if more {
				return setField(*s[i], u.Field(i).Type(), rest, x)
			}
			*s[i] = x
			return true
		}
	}
	return false
}

func (c friCfg) fields() map[string]int {
	return map[string]int{"Config.NumWires": c.Wires, "Config.NumRoutedWires": c.Routed, "Config.NumChallenges": c.Chals, "FriParams.Config.RateBits": c.Rate,
		"FriParams.Config.CapHeight": 4, "FriParams.Config.ProofOfWorkBits": 16, "FriParams.Config.NumQueryRounds": c.Rounds, "Config.FriConfig.RateBits": c.Rate,
		"Config.FriConfig.CapHeight": 4, "Config.FriConfig.ProofOfWorkBits": 16, "Config.FriConfig.NumQueryRounds": c.Rounds, "FriParams.DegreeBits": c.Deg,
		"DegreeBits": c.Deg, "QuotientDegreeFactor": c.Q, "NumConstants": c.Consts, "NumPartialProducts": c.Prods}
}

func runShape(r *Report) *sx.Engine {
	r.Bounds = fmt.Sprintf("cap height 4 and folding arity 16 (the only ones the verifier supports); %d parameter sets, up to the one of the step circuit; every length in the proof and in the initial caps, all at once: numbers of rounds, steps, oracles and caps up to two more than prescribed, lists of values and digests from 0 to %d", len(friCfgs), lenMax)
	r.Assume = []string{"the Goldilocks and Poseidon chips and gnark's API do not look at the shape of the proof (they are replaced by arbitrary values of the right type; HashOrNoop takes leaves of any length)",
		"openings and challenges have the sizes that the verifier itself gives them; the number of commit-phase caps beyond the number of foldings is not claimed"}
	e, err := load("./fri", "./variables", "./types")
	if err != nil {
		r.undecided("loading: " + err.Error())
		return nil
	}
	e.MaxPaths = 6000
	M := e.Module
	e.Intr["github.com/consensys/gnark/constraint/solver.RegisterHint"] = func(p *sx.Path, c *sx.Call) sx.Value { return sx.Tuple{} }
	e.Stub = append(e.Stub, "(*"+M+"/goldilocks.Chip).", "(*"+M+"/poseidon.", "(github.com/consensys/gnark/frontend.API).")
	opaque := func(p *sx.Path, c *sx.Call) sx.Value { return p.Opaque(c.Res, c.Name) }
	e.Intr[M+"/goldilocks.New"] = opaque
	e.Intr[M+"/poseidon.NewBN254Chip"] = opaque
	e.Intr["(github.com/consensys/gnark/frontend.API).ToBinary"] = func(p *sx.Path, c *sx.Call) sx.Value {
		n := int64(254)
		if s, ok := c.Args[2].(sx.Slice); ok {
			if l, ok := s.Len().Int(); ok && l > 0 {
				n = p.Concrete((*s.At(0)).(*sx.Term))
			}
		}
		el := c.Res.Underlying().(*types.Slice).Elem()
		var vs []sx.Value
		for i := int64(0); i < n; i++ {
			vs = append(vs, p.Havoc(el, "bit"))
		}
		return sx.MkSlice(vs)
	}
	T := map[string]types.Type{}
	for _, x := range [][2]string{{"types", "CommonCircuitData"}, {"variables", "FriProof"}, {"variables", "FriChallenges"}, {"variables", "FriMerkleCap"}, {"variables", "OpeningSet"},
		{"goldilocks", "QuadraticExtensionVariable"}} {
		if T[x[1]] = e.Type(x[0], x[1]); T[x[1]] == nil {
			r.undecided("no type " + x[1])
			return e
		}
	}
	newChip, inst, toOp, verify := e.Func("fri", "NewChip"), e.Func("fri", "*Chip.GetInstance"), e.Func("fri", "*Chip.ToOpenings"), e.Func("fri", "*Chip.VerifyFriProof")
	if newChip == nil || inst == nil || toOp == nil || verify == nil {
		r.undecided("no function NewChip, GetInstance, ToOpenings or VerifyFriProof")
		return e
	}
	r.Entries = []string{verify.String(), inst.String(), toOp.String()}
	cfgs := friCfgs
	if thorough() {
		cfgs = append(append([]friCfg{}, cfgs...), friCfg{"the step circuit", 13, 3, 2, 28, 5, 80, 136, 2, 9, 8, false}, friCfg{"a large circuit", 22, 3, 5, 7, 6, 100, 143, 3, 12, 8, false})
	}
	for _, c := range cfgs {
		c := c
		want := c.prescribed()
		v := func(path string) *sx.Term {
			max := lenMax
			switch {
			case path == "Proof.QueryRoundProofs":
				max = c.Rounds + 2
			case path == "Proof.CommitPhaseMerkleCaps" || strings.HasSuffix(path, ".Steps"):
				max = c.Arities + 2
			case path == "Caps" || strings.HasSuffix(path, ".EvalsProofs"):
				max = 6
			}
			return sx.Var(c.name+": len "+path, sx.BI(0), sx.BI(int64(max)))
		}
		paths, ok := 0, true
		// emit reports whether a counterexample was found
		emit := func(what string, refused bool, conds []*sx.Term) bool {
			res, m := e.S.Check(conds, true)
			if res == "unsat" {
				r.Oblig++
				return false
			}
			ok = false
			if res != "sat" {
				r.undecided(c.name + ": no answer whether " + what)
				return false
			}
			lens := map[string]int{"Proof.CommitPhaseMerkleCaps": c.Arities}
			diff := map[string]string{"parameters": fmt.Sprintf("%+v", c)}
			for k, n := range want {
				lens[k] = n
			}
			for k, v := range m {
				if k, is := strings.CutPrefix(k, c.name+": len "); is && v.IsInt64() {
					if n, in := lens[k]; in && int64(n) != v.Int64() {
						diff[k] = fmt.Sprintf("%v instead of %d", v, n)
					}
					lens[k] = int(v.Int64())
				}
			}
			r.violate(testViolation(what, c.name+": "+what, "fri", diff, map[string]string{"verif_shape_test.go": shapeTest, "shape.json": shapeJSON(c, lens, refused)}))
			return true
		}
		e.Explore(nil, func(p *sx.Path) sx.Value {
			s := &shaped{p: p, v: v, lens: map[string]*sx.Term{}, fix: map[string]int{"Challenges.FriBetas": c.Arities, "Challenges.FriQueryIndices": c.Rounds,
				"Openings.Constants": c.Consts, "Openings.PlonkSigmas": c.Routed, "Openings.Wires": c.Wires, "Openings.PlonkZs": c.Chals, "Openings.PlonkZsNext": c.Chals,
				"Openings.PartialProducts": c.Chals * c.Prods, "Openings.QuotientPolys": c.Chals * c.Q}}
			p.Init(e.Pkgs[M+"/fri"])
			cd := p.Zero(T["CommonCircuitData"])
			for k, v := range c.fields() {
				if !setField(cd, T["CommonCircuitData"], k, sx.N(int64(v))) {
					p.Abort("no field " + k)
				}
			}
			var ar []sx.Value
			for i := 0; i < c.Arities; i++ {
				ar = append(ar, sx.N(4))
			}
			h := sx.False
			if c.Hiding {
				h = sx.True
			}
			if !setField(cd, T["CommonCircuitData"], "FriParams.ReductionArityBits", sx.MkSlice(ar)) || !setField(cd, T["CommonCircuitData"], "FriParams.Hiding", h) {
				p.Abort("no field")
			}
			var cdc *sx.Value = &cd
			fp, _, okf := p.FieldPtr(cd, T["CommonCircuitData"], "FriParams")
			if !okf {
				p.Abort("no FriParams")
			}
			api := p.Havoc(newChip.Signature.Params().At(0).Type(), "api")
			chip := p.Call(newChip, api, cdc, fp)
			in := p.Call(inst, chip, p.Havoc(T["QuadraticExtensionVariable"], "zeta"))
			op := p.Call(toOp, chip, s.build(T["OpeningSet"], "Openings"))
			ch, pr := s.build(T["FriChallenges"], "Challenges"), s.build(T["FriProof"], "Proof")
			caps := s.build(types.NewSlice(T["FriMerkleCap"]), "Caps")
			return p.Call(verify, chip, in, op, &ch, caps, &pr)
		}, func(o sx.Outcome) bool {
			paths++
			var good []*sx.Term
			for _, k := range sortedKeys(want) {
				good = append(good, sx.Eq(v(k), sx.N(int64(want[k]))))
			}
			ncaps := v("Proof.CommitPhaseMerkleCaps")
			conds := append([]*sx.Term{}, o.P.PC...)
			what, refused := "", false
			switch o.Kind {
			case "return":
				good = append(good, sx.Le(sx.N(int64(c.Arities)), ncaps))
				conds = append(conds, sx.Not(sx.And(good...)))
				what = "a proof of another shape is accepted"
			case "panic":
				good = append(good, sx.Eq(ncaps, sx.N(int64(c.Arities))))
				conds = append(conds, good...)
				what, refused = "a proof of the prescribed shape is refused: "+o.Msg, true
			case "exit":
				if o.Msg == "infeasible" {
					return true
				}
				fallthrough
			default:
				ok = false
				r.undecided(c.name + ": " + o.Kind + " " + o.Msg)
				r.probe(func() {
					all := sx.And(append(good, sx.Eq(ncaps, sx.N(int64(c.Arities))))...)
					emit("a proof of the prescribed shape is refused", true, append(append([]*sx.Term{}, conds...), all))
					emit("a proof of another shape is accepted", false, append(append([]*sx.Term{}, conds...), sx.Not(sx.And(append(good, sx.Le(sx.N(int64(c.Arities)), ncaps))...))))
				})
				return true
			}
			return !emit(what, refused, conds)
		})
		r.row(c.name, "paths", paths, "decided", ok)
		if len(r.Violations) > 0 {
			break
		}
	}
	return e
}

func shapeJSON(c friCfg, lens map[string]int, mustAccept bool) string {
	b, _ := json.Marshal(map[string]any{"cfg": c, "fields": c.fields(), "lens": lens, "accept": mustAccept})
	return string(b)
}

var _ = big.NewInt

const shapeTest = `package fri

import (
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"strings"
	"testing"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/cs/r1cs"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/types"
	"github.com/succinctlabs/gnark-plonky2-verifier/variables"
)

type verifShape struct {
	Proof      variables.FriProof
	Challenges variables.FriChallenges
	Caps       []variables.FriMerkleCap
	Openings   variables.OpeningSet
	Zeta       gl.QuadraticExtensionVariable
	cd         *types.CommonCircuitData
}

func (c *verifShape) Define(api frontend.API) error {
	f := NewChip(api, c.cd, &c.cd.FriParams)
	f.VerifyFriProof(f.GetInstance(c.Zeta), f.ToOpenings(c.Openings), &c.Challenges, c.Caps, &c.Proof)
	return nil
}

func TestVerifShape(t *testing.T) {
	b, _ := os.ReadFile(os.Getenv("VERIF_DIR") + "/shape.json")
	var d struct {
		Cfg    struct{ Deg, Rate, Arities, Rounds, Consts, Routed, Wires, Chals, Prods, Q int; Hiding bool }
		Fields map[string]uint64
		Lens   map[string]int
		Accept bool
	}
	if err := json.Unmarshal(b, &d); err != nil {
		t.Fatal(err)
	}
	cd := &types.CommonCircuitData{}
	for k, v := range d.Fields {
		x := reflect.ValueOf(cd).Elem()
		for _, n := range strings.Split(k, ".") {
			x = x.FieldByName(n)
		}
		x.SetUint(v)
	}
	for i := 0; i < d.Cfg.Arities; i++ {
		cd.FriParams.ReductionArityBits = append(cd.FriParams.ReductionArityBits, 4)
	}
	cd.FriParams.Hiding = d.Cfg.Hiding
	l := d.Lens
	for k, v := range map[string]int{"Challenges.FriBetas": d.Cfg.Arities, "Challenges.FriQueryIndices": d.Cfg.Rounds,
		"Openings.Constants": d.Cfg.Consts, "Openings.PlonkSigmas": d.Cfg.Routed, "Openings.Wires": d.Cfg.Wires, "Openings.PlonkZs": d.Cfg.Chals, "Openings.PlonkZsNext": d.Cfg.Chals,
		"Openings.PartialProducts": d.Cfg.Chals * d.Cfg.Prods, "Openings.QuotientPolys": d.Cfg.Chals * d.Cfg.Q} {
		l[k] = v
	}
	var fill func(v reflect.Value, at string)
	fill = func(v reflect.Value, at string) {
		switch v.Kind() {
		case reflect.Slice:
			n, ok := l[at]
			if !ok { // part of an element that the parameters do not foresee: take the shape of its first sibling
				i := strings.LastIndex(at, "[")
				for i >= 0 && !ok {
					j := strings.Index(at[i:], "]")
					n, ok = l[at[:i]+"[0"+at[i+j:]]
					i = strings.LastIndex(at[:i], "[")
				}
				if !ok {
					n = 1
				}
			}
			v.Set(reflect.MakeSlice(v.Type(), n, n))
			for i := 0; i < n; i++ {
				fill(v.Index(i), fmt.Sprintf("%s[%d]", at, i))
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if v.Field(i).CanSet() {
					fill(v.Field(i), at+"."+v.Type().Field(i).Name)
				}
			}
		}
	}
	c := &verifShape{cd: cd}
	fill(reflect.ValueOf(&c.Proof).Elem(), "Proof")
	fill(reflect.ValueOf(&c.Challenges).Elem(), "Challenges")
	fill(reflect.ValueOf(&c.Caps).Elem(), "Caps")
	fill(reflect.ValueOf(&c.Openings).Elem(), "Openings")
	var err error
	func() {
		defer func() {
			if r := recover(); r != nil {
				err = fmt.Errorf("%v", r)
			}
		}()
		_, err = frontend.Compile(ecc.BN254.ScalarField(), r1cs.NewBuilder, c)
	}()
	switch {
	case err == nil && !d.Accept:
		fmt.Println("VERIF-VIOLATED accepted")
	case err != nil && d.Accept:
		fmt.Println("VERIF-VIOLATED refused:", strings.SplitN(err.Error(), "\n", 2)[0])
	default:
		fmt.Println("VERIF-OK")
	}
}
`
