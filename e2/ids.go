package main

import (
	"fmt"
	"math/big"
	"regexp"
	"strings"

	"verif/e2/sx"
)

func init() {
	checks["C19"] = check{"A gate identifier selects exactly one gate, with exactly its parameters", runIds}
}

// A gateId is what plonky2 prints: %n is the n-th parameter, %w a list of weights.
type gateId struct {
	text string
	ctor string // "" : the identifier has to be refused
	args string // parameters handed to the constructor, e.g. "0,1,w"
	min  []int64
	max  []int64
}

const ph = "_phantom: PhantomData<plonky2_field::goldilocks_field::GoldilocksField> }"

var gateIds = []gateId{
	{text: "ArithmeticGate { num_ops: %0 }", ctor: "NewArithmeticGate", args: "0"},
	{text: "ArithmeticExtensionGate { num_ops: %0 }", ctor: "NewArithmeticExtensionGate", args: "0"},
	{text: "MulExtensionGate { num_ops: %0 }", ctor: "NewMultiplicationExtensionGate", args: "0"},
	{text: "BaseSumGate { num_limbs: %0 } + Base: %1", ctor: "NewBaseSumGate", args: "0,1"},
	{text: "ConstantGate { num_consts: %0 }", ctor: "NewConstantGate", args: "0"},
	{text: "CosetInterpolationGate { subgroup_bits: %0, degree: %1, barycentric_weights: [%w], " + ph + "<D=2>", ctor: "NewCosetInterpolationGate", args: "0,1,w", min: []int64{0, 2}},
	{text: "ExponentiationGate { num_power_bits: %0, " + ph + "<D=2>", ctor: "NewExponentiationGate", args: "0"},
	{text: "RandomAccessGate { bits: %0, num_copies: %1, num_extra_constants: %2, " + ph + "<D=2>", ctor: "NewRandomAccessGate", args: "0,1,2"},
	{text: "ReducingGate { num_coeffs: %0 }", ctor: "NewReducingGate", args: "0"},
	{text: "ReducingExtensionGate { num_coeffs: %0 }", ctor: "NewReducingExtensionGate", args: "0"},
	{text: "NoopGate", ctor: "NewNoopGate"},
	{text: "PublicInputGate", ctor: "NewPublicInputGate"},
	{text: "PoseidonGate(PhantomData<plonky2_field::goldilocks_field::GoldilocksField>)<WIDTH=12>", ctor: "NewPoseidonGate"},
	{text: "PoseidonMdsGate(PhantomData<plonky2_field::goldilocks_field::GoldilocksField>)<WIDTH=12>", ctor: "NewPoseidonMdsGate"},
	// plonky2, plonky2_u32, plonky2x and plonky2_ecdsa gates this library does not implement
	{text: "LookupGate {num_slots: %0, lut_hash: [%1, %2, 7, 9]}"},
	{text: "LookupTableGate {num_slots: %0, lut_hash: [%1, %2, 7, 9], last_lut_row: 3}"},
	{text: "U32ArithmeticGate { num_ops: %0, " + ph},
	{text: "U32AddManyGate { num_addends: %0, num_ops: %1, " + ph},
	{text: "U32SubtractionGate { num_ops: %0, " + ph},
	{text: "U32RangeCheckGate { num_input_limbs: %0, " + ph},
	{text: "U32InterleaveGate { num_ops: %0 }"},
	{text: "UninterleaveToU32Gate { num_ops: %0 }"},
	{text: "UninterleaveToB32Gate { num_ops: %0 }"},
	{text: "ComparisonGate { num_bits: %0, num_chunks: %1, " + ph + "<D=2>"},
	{text: "AssertLessThanGate { num_bits: %0, num_chunks: %1, " + ph + "<D=2>"},
	{text: "SwitchGate { chunk_size: %0, num_copies: %1, " + ph + "<D=2>"},
	{text: "InsertionGate { vec_size: %0, " + ph + "<D=2>"},
	{text: "HighDegreeInterpolationGate { subgroup_bits: %0, " + ph + "<D=2>"},
	{text: "LowDegreeInterpolationGate { subgroup_bits: %0, " + ph + "<D=2>"},
	{text: "GMiMCGate { constants: [%0, %1] }<WIDTH=12>"},
	{text: "Poseidon2Gate(PhantomData<plonky2_field::goldilocks_field::GoldilocksField>)<WIDTH=12>"},
	{text: "KeccakGate { num_rounds: %0 }"},
	{text: ""},
	{text: "Gate"},
	{text: "%0"},
	// other degrees of the extension
	{text: "ExponentiationGate { num_power_bits: %0, " + ph + "<D=%1>", min: []int64{0, 3}},
	{text: "ExponentiationGate { num_power_bits: %0, " + ph + "<D=%1>", max: []int64{-1, 1}},
	{text: "RandomAccessGate { bits: %0, num_copies: %1, num_extra_constants: %2, " + ph + "<D=%3>", min: []int64{0, 0, 0, 3}},
	{text: "RandomAccessGate { bits: %0, num_copies: %1, num_extra_constants: %2, " + ph + "<D=%3>", max: []int64{-1, -1, -1, 1}},
	{text: "CosetInterpolationGate { subgroup_bits: %0, degree: %1, barycentric_weights: [1, 2], " + ph + "<D=1>", min: []int64{0, 2}},
	{text: "CosetInterpolationGate { subgroup_bits: %0, degree: %1, barycentric_weights: [1, 2], " + ph + "<D=4>", min: []int64{0, 2}},
	{text: "CosetInterpolationGate { subgroup_bits: %0, degree: %1, barycentric_weights: [1, 2], " + ph + "<D=5>", min: []int64{0, 2}},
}

var holeRe = regexp.MustCompile(`%[0-9w]`)

func (g *gateId) build(pre string, nw int) (id sx.Str, params []*sx.Term, weights []*sx.Term) {
	id = sx.Str{}
	pos := 0
	maxInt := new(big.Int).SetUint64(1<<63 - 1)
	for _, m := range holeRe.FindAllStringIndex(g.text, -1) {
		id = sx.Cat(id, sx.Lit(g.text[pos:m[0]]))
		if g.text[m[0]+1] == 'w' {
			for i := 0; i < nw; i++ {
				w := sx.Var(fmt.Sprintf("%sweight%d", pre, i), sx.BI(0), new(big.Int).Sub(sx.P.C, sx.BI(1)))
				weights = append(weights, w)
				if i > 0 {
					id = sx.Cat(id, sx.Lit(", "))
				}
				id = sx.Cat(id, sx.NumStr(w))
			}
		} else {
			k := int(g.text[m[0]+1] - '0')
			lo := int64(0)
			if k < len(g.min) {
				lo = g.min[k]
			}
			hi := maxInt
			if k < len(g.max) && g.max[k] >= 0 {
				hi = sx.BI(g.max[k])
			}
			for len(params) <= k {
				params = append(params, nil)
			}
			params[k] = sx.Var(fmt.Sprintf("%sparam%d", pre, k), sx.BI(lo), hi)
			id = sx.Cat(id, sx.NumStr(params[k]))
		}
		pos = m[1]
	}
	return sx.Cat(id, sx.Lit(g.text[pos:])), params, weights
}

func runIds(r *Report) *sx.Engine {
	nws := []int{2, 4, 8, 16, 32}
	r.Bounds = "every identifier plonky2 prints for the 14 supported gates with every decimal parameter below 2^63 (weights: every Goldilocks element; 2, 4, 8, 16 or 32 of them), and the listed identifiers of other gates (supported names with another prefix included) with every such parameter; map iteration forwards and backwards, which shows any dependence on the order between two matching patterns"
	r.Assume = []string{"regexp, strings and strconv do what they document: matching is decided by the string solver, not by running them",
		"a constructor called with parameters builds the gate with these parameters (what such a gate then computes is C17)"}
	e, err := load("./plonk/gates")
	if err != nil {
		r.undecided("loading: " + err.Error())
		return nil
	}
	fn := e.Func("plonk/gates", "GateInstanceFromId")
	if fn == nil {
		r.undecided("no function GateInstanceFromId")
		return e
	}
	r.Entries = append(r.Entries, fn.String())
	e.Interp = append(e.Interp, "math/bits")
	e.Intr["github.com/consensys/gnark/constraint/solver.RegisterHint"] = func(p *sx.Path, c *sx.Call) sx.Value { return sx.Tuple{} }
	list := append([]gateId{}, gateIds...)
	for _, g := range gateIds {
		if g.ctor != "" {
			for _, pre := range []string{"U32", "My", "plonky2::gates::"} {
				list = append(list, gateId{text: pre + g.text, min: g.min})
			}
			list = append(list, gateId{text: strings.Replace(g.text, "Gate", "GateV2", 1), min: g.min})
		}
	}
	for i := range list {
		g := &list[i]
		if strings.Contains(g.text, "%w") {
			for _, n := range nws {
				if g.ctor == "" && n > 4 {
					break
				}
				oneId(r, i, e, g, n)
			}
			continue
		}
		oneId(r, i, e, g, 0)
	}
	return e
}

func oneId(r *Report, seq int, e *sx.Engine, g *gateId, nw int) {
	fn := e.Func("plonk/gates", "GateInstanceFromId")
	name := g.text
	if nw > 0 {
		name = fmt.Sprintf("%s with %d weights", name, nw)
	}
	id, params, weights := g.build(fmt.Sprintf("g%d_", seq), nw)
	ctor := e.Func("plonk/gates", g.ctor)
	if g.ctor != "" && ctor == nil {
		r.undecided(name + ": no constructor " + g.ctor)
		return
	}
	ok, paths := true, 0
	for order := 0; order < 2; order++ {
		report := func(p *sx.Path, what string, conds ...*sx.Term) {
			res, m := e.S.Check(append(append([]*sx.Term{}, p.PC...), conds...), true)
			if res == "unsat" {
				r.Oblig++
				return
			}
			ok = false
			if res != "sat" {
				r.undecided(name + ": no answer whether " + what)
				return
			}
			// distinct small numbers where the model leaves the choice
			in := map[string]string{}
			val := func(t *sx.Term) string {
				v := m[t.Name]
				if v == nil {
					v = new(big.Int).Add(t.Lo, sx.BI(int64(len(in))+3))
					if t.Hi != nil && v.Cmp(t.Hi) > 0 {
						v = t.Hi
					}
				}
				in[t.Name] = v.String()
				return v.String()
			}
			var ps []string
			for _, t := range params {
				if t != nil {
					ps = append(ps, val(t))
				}
			}
			var ws []string
			for _, t := range weights {
				ws = append(ws, val(t))
			}
			concrete := holeRe.ReplaceAllStringFunc(g.text, func(h string) string {
				if h == "%w" {
					return strings.Join(ws, ", ")
				}
				return ps[int(h[1]-'0')]
			})
			in["id"] = concrete
			want := "nil"
			if g.ctor != "" {
				var as []string
				for _, a := range strings.Split(g.args, ",") {
					switch a {
					case "":
					case "w":
						for i := range ws {
							ws[i] = "goldilocks.NewElement(" + ws[i] + ")"
						}
						as = append(as, "[]goldilocks.Element{"+strings.Join(ws, ", ")+"}")
					default:
						as = append(as, ps[int(a[0]-'0')])
					}
				}
				want = g.ctor + "(" + strings.Join(as, ", ") + ")"
			}
			r.violate(testViolation(name, fmt.Sprintf("%s: %s", concrete, what), "plonk/gates", in,
				map[string]string{"verif_id_test.go": fmt.Sprintf(idTest, concrete, want)}))
		}
		e.Explore(func(p *sx.Path) { p.MapOrder = order }, func(p *sx.Path) sx.Value {
			p.Init(e.Pkgs[e.Module+"/plonk/gates"])
			got := p.Call(fn, id)
			if ctor == nil {
				return got
			}
			var args []sx.Value
			for _, a := range strings.Split(g.args, ",") {
				switch a {
				case "":
				case "w":
					var vs []sx.Value
					for _, w := range weights {
						vs = append(vs, w)
					}
					args = append(args, sx.MkSlice(vs))
				default:
					args = append(args, params[int(a[0]-'0')])
				}
			}
			d := p.Call(ctor, args...)
			return sx.Tuple{got, sx.Iface{T: ctor.Signature.Results().At(0).Type(), V: d}}
		}, func(o sx.Outcome) bool {
			paths++
			switch o.Kind {
			case "panic":
				if g.ctor != "" {
					report(o.P, "refused: "+o.Msg)
				} else {
					r.Oblig++
				}
			case "exit":
				if o.Msg != "infeasible" {
					report(o.P, "the program ends")
				}
			case "return":
				if g.ctor == "" {
					report(o.P, "an identifier of another gate is accepted")
					return true
				}
				t := o.Value.(sx.Tuple)
				c, k := o.P.DeepEq(t[0], t[1])
				if !k {
					ok = false
					r.undecided(name + ": the gate cannot be compared")
					return true
				}
				report(o.P, "another gate, or other parameters, are built", sx.Not(c))
			default:
				ok = false
				r.undecided(name + ": " + o.Msg)
				r.probe(func() { report(o.P, "the model of a path not followed to its end is treated wrongly") })
			}
			return true
		})
	}
	r.row(name, "paths", paths, "decided", ok)
}

const idTest = `package gates

import (
	"fmt"
	"reflect"
	"testing"

	"github.com/consensys/gnark-crypto/field/goldilocks"
)

var _ = goldilocks.NewElement

func TestVerifId(t *testing.T) {
	id := %q
	var want Gate
	func() {
		var g any = %s
		want, _ = g.(Gate)
	}()
	for i := 0; i < 200; i++ { // map iteration starts at random
		var got Gate
		refused := ""
		func() {
			defer func() {
				if r := recover(); r != nil {
					refused = fmt.Sprint(r)
				}
			}()
			got = GateInstanceFromId(id)
		}()
		switch {
		case want == nil && refused == "":
			fmt.Printf("VERIF-VIOLATED accepted as %%T %%+v\n", got, got)
			return
		case want != nil && refused != "":
			fmt.Println("VERIF-VIOLATED refused:", refused)
			return
		case want != nil && !reflect.DeepEqual(got, want):
			fmt.Printf("VERIF-VIOLATED built %%T %%+v instead of %%T %%+v\n", got, got, want, want)
			return
		}
	}
	fmt.Println("VERIF-OK")
}
`
