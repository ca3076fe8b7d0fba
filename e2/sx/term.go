// Package sx executes Go SSA symbolically.
package sx

import (
	"fmt"
	"math/big"
	"strings"
)

// Term is an SMT term of sort Int or Bool. Terms are hash-consed, so equal terms are the same pointer.
type Term struct {
	Op     string // const var add sub mul div mod ite pow2 eq le not and or uf
	Args   []*Term
	C      *big.Int
	Name   string
	Bool   bool
	Lo, Hi *big.Int // bounds known for an Int (nil: none)
	ID     int
}

var table = map[string]*Term{}

func mk(t Term) *Term {
	var b strings.Builder
	b.WriteString(t.Op)
	b.WriteByte(' ')
	b.WriteString(t.Name)
	if t.C != nil {
		b.WriteString(t.C.String())
	}
	for _, a := range t.Args {
		fmt.Fprintf(&b, " %d", a.ID)
	}
	if t.Bool {
		b.WriteString(" b")
	}
	k := b.String()
	if x := table[k]; x != nil {
		return x
	}
	x := &Term{}
	*x = t
	x.ID = len(table)
	table[k] = x
	return x
}

func BI(n int64) *big.Int { return big.NewInt(n) }

func N(n int64) *Term { return NB(big.NewInt(n)) }
func NB(n *big.Int) *Term {
	n = new(big.Int).Set(n)
	return mk(Term{Op: "const", C: n, Lo: n, Hi: n})
}

var (
	True  = mk(Term{Op: "const", C: BI(1), Bool: true})
	False = mk(Term{Op: "const", C: BI(0), Bool: true})
)

func B(b bool) *Term {
	if b {
		return True
	}
	return False
}

// Var is an Int variable; lo and hi may be nil.
func Var(name string, lo, hi *big.Int) *Term {
	t := mk(Term{Op: "var", Name: name, Lo: lo, Hi: hi})
	if (t.Lo == nil) != (lo == nil) || (t.Hi == nil) != (hi == nil) || (lo != nil && lo.Cmp(t.Lo) != 0) || (hi != nil && hi.Cmp(t.Hi) != 0) {
		panic("variable " + name + " with two ranges")
	}
	return t
}
func BoolVar(name string) *Term { return mk(Term{Op: "var", Name: name, Bool: true}) }

func (t *Term) IsConst() bool { return t.Op == "const" }
func (t *Term) Int() (int64, bool) {
	if t.Op == "const" && !t.Bool && t.C.IsInt64() {
		return t.C.Int64(), true
	}
	return 0, false
}

func addB(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	return new(big.Int).Add(a, b)
}

func Add(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return NB(new(big.Int).Add(a.C, b.C))
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() && b.C.Sign() == 0 {
		return a
	}
	if b.IsConst() && a.Op == "add" && a.Args[1].IsConst() { // (x+c)+d
		return Add(a.Args[0], NB(new(big.Int).Add(a.Args[1].C, b.C)))
	}
	if !b.IsConst() && a.ID > b.ID && a.Op != "add" {
		a, b = b, a
	}
	return mk(Term{Op: "add", Args: []*Term{a, b}, Lo: addB(a.Lo, b.Lo), Hi: addB(a.Hi, b.Hi)})
}

func Neg(a *Term) *Term { return Mul(a, N(-1)) }

func Sub(a, b *Term) *Term {
	if a == b {
		return N(0)
	}
	if b.IsConst() {
		return Add(a, NB(new(big.Int).Neg(b.C)))
	}
	if a.Op == "add" && a.Args[0] == b {
		return a.Args[1]
	}
	if a.Op == "add" && a.Args[1] == b {
		return a.Args[0]
	}
	return Add(a, Neg(b))
}

func Mul(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return NB(new(big.Int).Mul(a.C, b.C))
	}
	if a.IsConst() || (!b.IsConst() && a.ID > b.ID) {
		a, b = b, a
	}
	if b.IsConst() {
		if b.C.Sign() == 0 {
			return N(0)
		}
		if b.C.Cmp(BI(1)) == 0 {
			return a
		}
		if a.Op == "mul" && a.Args[1].IsConst() {
			return Mul(a.Args[0], NB(new(big.Int).Mul(a.Args[1].C, b.C)))
		}
	}
	t := Term{Op: "mul", Args: []*Term{a, b}}
	if a.Lo != nil && a.Hi != nil && b.Lo != nil && b.Hi != nil {
		for _, x := range []*big.Int{a.Lo, a.Hi} {
			for _, y := range []*big.Int{b.Lo, b.Hi} {
				p := new(big.Int).Mul(x, y)
				if t.Lo == nil || p.Cmp(t.Lo) < 0 {
					t.Lo = p
				}
				if t.Hi == nil || p.Cmp(t.Hi) > 0 {
					t.Hi = p
				}
			}
		}
	} else if a.Lo != nil && b.Lo != nil && a.Lo.Sign() >= 0 && b.Lo.Sign() >= 0 {
		t.Lo = new(big.Int).Mul(a.Lo, b.Lo)
	}
	return mk(t)
}

// Div and Mod are SMT-LIB's (floor for a positive divisor).
func Div(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() && b.C.Sign() != 0 {
		q, m := new(big.Int), new(big.Int)
		q.DivMod(a.C, b.C, m)
		return NB(q)
	}
	if b.IsConst() && b.C.Cmp(BI(1)) == 0 {
		return a
	}
	t := Term{Op: "div", Args: []*Term{a, b}}
	if b.Lo != nil && b.Lo.Sign() > 0 && a.Lo != nil && a.Lo.Sign() >= 0 {
		t.Lo = BI(0)
		if a.Hi != nil {
			t.Hi = new(big.Int).Div(a.Hi, b.Lo)
			if t.Hi.Sign() == 0 {
				return N(0)
			}
		}
	}
	return mk(t)
}

func Mod(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() && b.C.Sign() != 0 {
		return NB(new(big.Int).Mod(a.C, b.C))
	}
	if b.IsConst() && b.C.Sign() > 0 && a.Lo != nil && a.Lo.Sign() >= 0 && a.Hi != nil && a.Hi.Cmp(b.C) < 0 {
		return a
	}
	t := Term{Op: "mod", Args: []*Term{a, b}}
	if b.Lo != nil && b.Lo.Sign() > 0 {
		t.Lo = BI(0)
		if b.Hi != nil {
			t.Hi = new(big.Int).Sub(b.Hi, BI(1))
		}
	}
	return mk(t)
}

// Pow2 is 2^a for 0 <= a <= 255.
func Pow2(a *Term) *Term {
	if a.IsConst() {
		return NB(new(big.Int).Lsh(BI(1), uint(a.C.Uint64())))
	}
	t := Term{Op: "pow2", Args: []*Term{a}, Lo: BI(1)}
	if a.Lo != nil && a.Lo.Sign() > 0 && a.Lo.Cmp(BI(255)) <= 0 {
		t.Lo = new(big.Int).Lsh(BI(1), uint(a.Lo.Uint64()))
	}
	if a.Hi != nil && a.Hi.Cmp(BI(255)) <= 0 && a.Hi.Sign() >= 0 {
		t.Hi = new(big.Int).Lsh(BI(1), uint(a.Hi.Uint64()))
	}
	return mk(t)
}

func UF(name string, lo, hi *big.Int, args ...*Term) *Term {
	return mk(Term{Op: "uf", Name: name, Args: args, Lo: lo, Hi: hi})
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.IsConst() && b.IsConst() {
		return B(a.C.Cmp(b.C) == 0)
	}
	if a.Bool {
		if a.IsConst() {
			a, b = b, a
		}
		if b == True {
			return a
		}
		if b == False {
			return Not(a)
		}
	} else if (a.Hi != nil && b.Lo != nil && a.Hi.Cmp(b.Lo) < 0) || (b.Hi != nil && a.Lo != nil && b.Hi.Cmp(a.Lo) < 0) {
		return False
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk(Term{Op: "eq", Args: []*Term{a, b}, Bool: true})
}

func Le(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.Hi != nil && b.Lo != nil && a.Hi.Cmp(b.Lo) <= 0 {
		return True
	}
	if a.Lo != nil && b.Hi != nil && a.Lo.Cmp(b.Hi) > 0 {
		return False
	}
	return mk(Term{Op: "le", Args: []*Term{a, b}, Bool: true})
}

func Lt(a, b *Term) *Term { return Not(Le(b, a)) }

func Not(a *Term) *Term {
	switch {
	case a == True:
		return False
	case a == False:
		return True
	case a.Op == "not":
		return a.Args[0]
	}
	return mk(Term{Op: "not", Args: []*Term{a}, Bool: true})
}

func And(ts ...*Term) *Term {
	var o []*Term
	for _, t := range ts {
		if t == False {
			return False
		}
		if t == True {
			continue
		}
		if t.Op == "and" {
			o = append(o, t.Args...)
		} else {
			o = append(o, t)
		}
	}
	if len(o) == 0 {
		return True
	}
	if len(o) == 1 {
		return o[0]
	}
	return mk(Term{Op: "and", Args: o, Bool: true})
}

func Or(ts ...*Term) *Term {
	var o []*Term
	for _, t := range ts {
		o = append(o, Not(t))
	}
	return Not(And(o...))
}

func Ite(c, a, b *Term) *Term {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	t := Term{Op: "ite", Args: []*Term{c, a, b}, Bool: a.Bool}
	if !a.Bool {
		if a.Lo != nil && b.Lo != nil {
			t.Lo = a.Lo
			if b.Lo.Cmp(a.Lo) < 0 {
				t.Lo = b.Lo
			}
		}
		if a.Hi != nil && b.Hi != nil {
			t.Hi = a.Hi
			if b.Hi.Cmp(a.Hi) > 0 {
				t.Hi = b.Hi
			}
		}
	}
	return mk(t)
}

func (t *Term) String() string {
	switch t.Op {
	case "const":
		if t.Bool {
			return fmt.Sprint(t == True)
		}
		return t.C.String()
	case "var":
		return t.Name
	}
	var s []string
	for _, a := range t.Args {
		s = append(s, a.String())
	}
	n := t.Op
	if t.Name != "" {
		n += ":" + t.Name
	}
	r := n + "(" + strings.Join(s, ",") + ")"
	if len(r) > 400 {
		r = r[:400] + "…"
	}
	return r
}

// Wrap puts an integer into the range of a Go integer type.
func Wrap(t *Term, bits int, signed bool) *Term {
	m := new(big.Int).Lsh(BI(1), uint(bits))
	lo, hi := BI(0), new(big.Int).Sub(m, BI(1))
	if signed {
		h := new(big.Int).Lsh(BI(1), uint(bits-1))
		lo, hi = new(big.Int).Neg(h), new(big.Int).Sub(h, BI(1))
	}
	if t.Lo != nil && t.Hi != nil && t.Lo.Cmp(lo) >= 0 && t.Hi.Cmp(hi) <= 0 {
		return t
	}
	if !signed {
		return Mod(t, NB(m))
	}
	h := NB(new(big.Int).Neg(lo))
	return Sub(Mod(Add(t, h), NB(m)), h)
}

// Eval computes a term under an assignment of its variables; nil if something is unassigned.
func (t *Term) Eval(m map[string]*big.Int) *big.Int {
	if t.Op == "const" {
		return t.C
	}
	if t.Op == "var" {
		return m[t.Name]
	}
	v := make([]*big.Int, len(t.Args))
	for i, a := range t.Args {
		if v[i] = a.Eval(m); v[i] == nil {
			return nil
		}
	}
	b2 := func(b bool) *big.Int {
		if b {
			return BI(1)
		}
		return BI(0)
	}
	switch t.Op {
	case "add":
		return new(big.Int).Add(v[0], v[1])
	case "mul":
		return new(big.Int).Mul(v[0], v[1])
	case "div":
		if v[1].Sign() == 0 {
			return nil
		}
		return new(big.Int).Div(v[0], v[1])
	case "mod":
		if v[1].Sign() == 0 {
			return nil
		}
		return new(big.Int).Mod(v[0], v[1])
	case "pow2":
		if v[0].Sign() < 0 || v[0].Cmp(BI(255)) > 0 {
			return nil
		}
		return new(big.Int).Lsh(BI(1), uint(v[0].Uint64()))
	case "eq":
		return b2(v[0].Cmp(v[1]) == 0)
	case "le":
		return b2(v[0].Cmp(v[1]) <= 0)
	case "not":
		return b2(v[0].Sign() == 0)
	case "and":
		for _, x := range v {
			if x.Sign() == 0 {
				return x
			}
		}
		return BI(1)
	case "ite":
		if v[0].Sign() != 0 {
			return v[1]
		}
		return v[2]
	}
	return nil
}

// Known: do the terms only mention variables that is accepts?
func Known(ts []*Term, is func(name string) bool) bool {
	seen := map[*Term]bool{}
	var ok func(t *Term) bool
	ok = func(t *Term) bool {
		if seen[t] {
			return true
		}
		seen[t] = true
		if (t.Op == "var" || t.Op == "uf") && !is(t.Name) {
			return false
		}
		for _, a := range t.Args {
			if !ok(a) {
				return false
			}
		}
		return true
	}
	for _, t := range ts {
		if !ok(t) {
			return false
		}
	}
	return true
}
