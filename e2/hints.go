package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/e2/sx"
)

func init() {
	checks["C05"] = check{"Witness hints answer correctly for every operand", runHints}
}

var frMod, _ = new(big.Int).SetString("21888242871839275222246405745257275088548364400416034343698204186575808495617", 10)

type hintSpec struct {
	name   string
	in     int
	domain func(x []*sx.Term) *sx.Term
	want   func(x []*sx.Term) []*sx.Term // functional specification
	facts  func(x, r []*sx.Term) []*sx.Term
	goWant string // Go source: body computing want []*big.Int and inDomain from in []*big.Int
}

func runHints(r *Report) *sx.Engine {
	r.Bounds = "every operand from 0 to the BN254 scalar field modulus minus 1 (what a gnark solver can hand to a hint); 0 to 5 operands"
	r.Assume = []string{"math/big and gnark-crypto's goldilocks package compute what they document (they are modelled as integers, not executed)",
		"gnark hands hints operands in [0, r) and as many result slots as NewHint asked for"}
	e, err := load("./goldilocks")
	if err != nil {
		r.undecided("loading: " + err.Error())
		return nil
	}
	P := sx.P
	P1 := sx.Sub(P, sx.N(1))
	inField := func(x *sx.Term) *sx.Term { return sx.Le(x, P1) }
	two32 := sx.Pow2(sx.N(32))
	specs := []hintSpec{
		{name: "MulAddHint", in: 3,
			domain: func(x []*sx.Term) *sx.Term { return sx.And(inField(x[0]), inField(x[1]), inField(x[2])) },
			want: func(x []*sx.Term) []*sx.Term {
				s := sx.Add(sx.Mul(x[0], x[1]), x[2])
				return []*sx.Term{sx.Div(s, P), sx.Mod(s, P)}
			},
			goWant: `for _, x := range in { if x.Cmp(p) >= 0 { domain = false } }
	s := new(big.Int).Mul(in[0], in[1]); s.Add(s, in[2])
	want = []*big.Int{new(big.Int).Div(s, p), new(big.Int).Mod(s, p)}`},
		{name: "ReduceHint", in: 1,
			domain: func(x []*sx.Term) *sx.Term { return sx.True },
			want:   func(x []*sx.Term) []*sx.Term { return []*sx.Term{sx.Div(x[0], P), sx.Mod(x[0], P)} },
			goWant: `want = []*big.Int{new(big.Int).Div(in[0], p), new(big.Int).Mod(in[0], p)}`},
		{name: "InverseHint", in: 1,
			domain: func(x []*sx.Term) *sx.Term { return inField(x[0]) },
			want: func(x []*sx.Term) []*sx.Term {
				return []*sx.Term{sx.Ite(sx.Eq(x[0], sx.N(0)), sx.N(0), sx.UF("glinv", sx.BI(0), P1.C, x[0]))}
			},
			goWant: `if in[0].Cmp(p) >= 0 { domain = false }
	w := new(big.Int); if in[0].Sign() != 0 && domain { w.ModInverse(in[0], p) }
	want = []*big.Int{w}`},
		{name: "SplitLimbsHint", in: 1,
			domain: func(x []*sx.Term) *sx.Term { return inField(x[0]) },
			want:   func(x []*sx.Term) []*sx.Term { return []*sx.Term{sx.Div(x[0], two32), sx.Mod(x[0], two32)} },
			goWant: `if in[0].Cmp(p) >= 0 { domain = false }
	t := new(big.Int).Lsh(big.NewInt(1), 32)
	want = []*big.Int{new(big.Int).Div(in[0], t), new(big.Int).Mod(in[0], t)}`},
	}
	var registered []string
	e.Intr["github.com/consensys/gnark/constraint/solver.RegisterHint"] = func(p *sx.Path, c *sx.Call) sx.Value {
		for _, v := range p.Elems(c.Args[0].(sx.Slice)) {
			registered = append(registered, fmt.Sprint(funcName(v)))
		}
		return sx.Tuple{}
	}
	// which hints the package registers, and which it uses
	e.Explore(nil, func(p *sx.Path) sx.Value {
		registered = nil
		p.Init(e.Pkgs[e.Module+"/goldilocks"])
		return nil
	}, func(o sx.Outcome) bool {
		if o.Kind != "return" {
			r.undecided("package initialisation: " + o.Kind + " " + o.Msg)
		}
		return true
	})
	regSet := map[string]bool{}
	for _, n := range registered {
		regSet[n] = true
	}
	used := usedHints(e)
	for _, n := range sortedKeys(used) {
		if !regSet[n] && len(registered) > 0 {
			r.violate(testViolation("unregistered:"+n, "hint "+n+" is used but never registered", "goldilocks", map[string]string{"hint": n},
				map[string]string{"verif_hint_test.go": fmt.Sprintf(hintRegTest, last(n), last(n))}))
		} else {
			r.Oblig++
		}
	}
	for i := range specs {
		s := &specs[i]
		fn := e.Func("goldilocks", s.name)
		if fn == nil {
			r.undecided("no function " + s.name)
			continue
		}
		r.Entries = append(r.Entries, fn.String())
		for n := 0; n <= 5; n++ {
			hintCount(r, e, s, fn, n)
		}
	}
	return e
}

func last(n string) string { return n[strings.LastIndex(n, ".")+1:] }

func funcName(v sx.Value) string {
	switch x := v.(type) {
	case *ssa.Function:
		return x.String()
	case *sx.Closure:
		if x != nil {
			return x.Fn.String()
		}
	}
	return "?"
}

// usedHints: the functions handed to NewHint anywhere in the repository's own packages.
func usedHints(e *sx.Engine) map[string]bool {
	r := map[string]bool{}
	for path, pk := range e.Pkgs {
		if !strings.HasPrefix(path, e.Module) {
			continue
		}
		pk.Build()
		var fns []*ssa.Function
		for _, m := range pk.Members {
			switch x := m.(type) {
			case *ssa.Function:
				fns = append(fns, x)
			case *ssa.Type:
				for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
					ms := e.Prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						if f := e.Prog.MethodValue(ms.At(i)); f != nil && f.Pkg == pk {
							fns = append(fns, f)
						}
					}
				}
			}
		}
		for i := 0; i < len(fns); i++ {
			fns = append(fns, fns[i].AnonFuncs...)
			for _, b := range fns[i].Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					cc := c.Common()
					name := ""
					if cc.IsInvoke() {
						name = cc.Method.Name()
					} else if f := cc.StaticCallee(); f != nil {
						name = f.Name()
					}
					if name != "NewHint" {
						continue
					}
					for _, a := range cc.Args {
						if ct, ok := a.(*ssa.ChangeType); ok {
							a = ct.X
						}
						if f, ok := a.(*ssa.Function); ok {
							r[f.String()] = true
						}
					}
				}
			}
		}
	}
	return r
}

func hintCount(r *Report, e *sx.Engine, s *hintSpec, fn *ssa.Function, n int) {
	frMax := new(big.Int).Sub(frMod, sx.BI(1))
	var x []*sx.Term
	for i := 0; i < n; i++ {
		x = append(x, sx.Var(fmt.Sprintf("x%d", i), sx.BI(0), frMax))
	}
	nout := 2
	if s.name == "InverseHint" {
		nout = 1
	}
	name := fmt.Sprintf("%s with %d operands", s.name, n)
	paths, done := 0, true
	report := func(what string, conds ...*sx.Term) {
		res, m := e.S.Check(conds, true)
		if res == "unsat" {
			r.Oblig++
			return
		}
		if res == "unknown" {
			done = false
			r.undecided(name + ": no answer whether " + what)
			return
		}
		in := map[string]string{}
		var vals []string
		for _, t := range x {
			v := m[t.Name]
			if v == nil {
				v = sx.BI(0)
			}
			in[t.Name] = v.String()
			vals = append(vals, `"`+v.String()+`"`)
		}
		body := s.goWant
		if n != s.in {
			body = "domain = false"
		}
		done = false
		r.violate(testViolation(name+": "+what, name+": "+what, "goldilocks", in, map[string]string{"verif_hint_test.go": fmt.Sprintf(hintTest, strings.Join(vals, ", "), body, nout, s.name)}))
	}
	e.Explore(nil, func(p *sx.Path) sx.Value {
		var ins, outs []sx.Value
		for _, t := range x {
			v := sx.Value(t)
			ins = append(ins, &v)
		}
		for i := 0; i < nout; i++ {
			v := sx.Value(sx.Var(fmt.Sprintf("uninitialised%d", i), nil, nil))
			outs = append(outs, &v)
		}
		// initialisation is the program's, before the hint is called
		p.Init(e.Pkgs[e.Module+"/goldilocks"])
		rs := sx.MkSlice(outs)
		p.User["res"] = rs
		v := sx.Value(sx.Var("field", sx.BI(0), nil))
		return p.Call(fn, &v, sx.MkSlice(ins), rs)
	}, func(o sx.Outcome) bool {
		paths++
		p := o.P
		refused := o.Kind == "panic"
		var failed *sx.Term = sx.False
		switch o.Kind {
		case "return":
			i, ok := o.Value.(sx.Iface)
			if !ok {
				done = false
				r.undecided(name + ": result")
				return true
			}
			if i.T != nil {
				refused = true
				if op, ok := i.V.(*sx.Opaque); ok && !strings.Contains(op.Tag, "rror") {
					done = false
					r.undecided(name + ": an unknown error value")
					return true
				}
			}
		case "panic":
		case "exit":
			if o.Msg == "infeasible" {
				return true
			}
			refused = true
		default:
			done = false
			r.undecided(name + ": " + o.Msg)
			r.probe(func() { report("the model of a path not followed to its end is treated wrongly", p.PC...) })
			return true
		}
		_ = failed
		dom := sx.False
		if n == s.in {
			dom = s.domain(x)
		}
		if refused {
			// refusing is right outside the domain only
			report("operands inside the domain are refused", append(append([]*sx.Term{}, p.PC...), dom)...)
			return true
		}
		report("operands outside the domain (or a wrong number of them) are answered", append(append([]*sx.Term{}, p.PC...), sx.Not(dom))...)
		if n != s.in {
			return true
		}
		want := s.want(x)
		got := p.Elems(p.User["res"].(sx.Slice))
		for i := range want {
			c, ok := got[i].(*sx.Value)
			var g *sx.Term
			if ok && c != nil {
				g, ok = (*c).(*sx.Term)
			}
			if !ok || g == nil {
				report(fmt.Sprintf("result %d is missing", i), append(append([]*sx.Term{}, p.PC...), dom)...)
				continue
			}
			report(fmt.Sprintf("result %d is wrong", i), append(append([]*sx.Term{}, p.PC...), dom, sx.Not(sx.Eq(g, want[i])))...)
		}
		return true
	})
	r.row(name, "paths", paths, "decided", done)
}

const hintTest = `package goldilocks

import (
	"fmt"
	"math/big"
	"testing"
)

func TestVerifHint(t *testing.T) {
	p, _ := new(big.Int).SetString("18446744069414584321", 10)
	_ = p
	var in []*big.Int
	for _, s := range []string{%s} {
		x, _ := new(big.Int).SetString(s, 10)
		in = append(in, x)
	}
	domain := true
	var want []*big.Int
	func() {
	%s
	}()
	got := make([]*big.Int, %d)
	for i := range got {
		got[i] = new(big.Int).SetInt64(-77)
	}
	refused := ""
	func() {
		defer func() {
			if r := recover(); r != nil {
				refused = fmt.Sprint("panic: ", r)
			}
		}()
		if err := %s(nil, in, got); err != nil {
			refused = err.Error()
		}
	}()
	switch {
	case domain && refused != "":
		fmt.Println("VERIF-VIOLATED refused a valid operand:", refused)
	case !domain && refused == "":
		fmt.Println("VERIF-VIOLATED answered an operand outside the domain:", got)
	case domain:
		for i := range want {
			if got[i] == nil || got[i].Cmp(want[i]) != 0 {
				fmt.Println("VERIF-VIOLATED result", i, "is", got[i], "instead of", want[i])
			}
		}
	}
	fmt.Println("VERIF-OK")
}
`

const hintRegTest = `package goldilocks

import (
	"fmt"
	"testing"

	"github.com/consensys/gnark/constraint/solver"
)

func TestVerifHintRegistered(t *testing.T) {
	for _, h := range solver.GetRegisteredHints() {
		if solver.GetHintName(h) == solver.GetHintName(%s) {
			fmt.Println("VERIF-OK")
			return
		}
	}
	fmt.Println("VERIF-VIOLATED the solver does not know", %q)
}
`
