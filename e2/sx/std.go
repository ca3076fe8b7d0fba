package sx

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"math/bits"
	"regexp"
	"regexp/syntax"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var glP, _ = new(big.Int).SetString("18446744069414584321", 10)

// P is the Goldilocks modulus.
var P = NB(glP)

func ptr(p *Path, v Value) *Value {
	c, ok := v.(*Value)
	if !ok {
		p.Abort(fmt.Sprintf("unknown pointer %T", v))
	}
	if c == nil {
		p.Panic("nil pointer dereference")
	}
	return c
}

func (p *Path) term(v Value) *Term {
	t, ok := v.(*Term)
	if !ok {
		p.Abort(fmt.Sprintf("number expected, got %T", v))
	}
	return t
}

func (p *Path) at(v Value) *Term { return p.term(*ptr(p, v)) }

func (p *Path) str(v Value) Str {
	s, ok := v.(Str)
	if !ok {
		p.Abort(fmt.Sprintf("string expected, got %T", v))
	}
	return s
}

func (p *Path) cstr(v Value) string {
	s, ok := p.str(v).Concrete()
	if !ok {
		p.Abort("symbolic string where a constant is needed")
	}
	return s
}

// Err is a non-nil error.
func (p *Path) Err(msg string) Iface {
	o := p.Opaque(nil, msg)
	o.nul = False
	return Iface{T: p.E.opaqueDyn, V: o}
}

var NoErr = Iface{}

// strMatch: a symbolic string against a regular expression (Go semantics, unanchored), by SMT strings.
func (p *Path) reMatch(re *regexp.Regexp, s Str) (groups []Str, matched bool) {
	if c, ok := s.Concrete(); ok {
		m := re.FindStringSubmatch(c)
		if m == nil {
			return nil, false
		}
		for _, x := range m {
			groups = append(groups, Lit(x))
		}
		return groups, true
	}
	key := "re " + re.String() + " on " + s.String()
	if c, ok := p.E.reCache[key]; ok {
		return p.reApply(c, s)
	}
	c := p.E.decideRe(re, s)
	if p.E.reCache == nil {
		p.E.reCache = map[string]*reAnswer{}
	}
	p.E.reCache[key] = c
	return p.reApply(c, s)
}

type reAnswer struct {
	can, cannot string // "sat"/"unsat"/"unknown" for: some numbers match, some do not
	groups      []Str
	unique      bool
	why         string
	bad         map[int]string // digits for which the capture is something else
	re          *regexp.Regexp
}

func (p *Path) reApply(a *reAnswer, s Str) ([]Str, bool) {
	if a.can == "unknown" || a.cannot == "unknown" {
		p.Abort("regular expression out of reach: " + a.why)
	}
	if a.can == "unsat" {
		return nil, false
	}
	if a.cannot == "sat" {
		p.fresh++
		m := BoolVar(fmt.Sprintf("match%d!%s", p.fresh, a.re.String()))
		p.Approx("identifiers that match for some numbers only")
		p.User["regex-partial"] = a.re.String()
		if !p.Branch(m) {
			return nil, false
		}
	}
	if !a.unique {
		p.Approx("ambiguous captures")
		p.Abort("captures out of reach: " + a.why)
	}
	return a.groups, true
}

// smtRe writes a parsed regular expression in SMT-LIB.
func smtRe(r *syntax.Regexp) (string, bool) {
	switch r.Op {
	case syntax.OpEmptyMatch:
		return `(str.to_re "")`, true
	case syntax.OpLiteral:
		if r.Flags&syntax.FoldCase != 0 {
			return "", false
		}
		return "(str.to_re " + smtStr(string(r.Rune)) + ")", true
	case syntax.OpCharClass:
		var a []string
		for i := 0; i < len(r.Rune); i += 2 {
			hi := r.Rune[i+1]
			if hi > 0x2ffff {
				hi = 0x2ffff
			}
			a = append(a, fmt.Sprintf("(re.range %s %s)", smtStr(string(r.Rune[i])), smtStr(string(hi))))
		}
		switch len(a) {
		case 0:
			return "re.none", true
		case 1:
			return a[0], true
		}
		return "(re.union " + strings.Join(a, " ") + ")", true
	case syntax.OpAnyCharNotNL, syntax.OpAnyChar:
		return "re.allchar", true
	case syntax.OpCapture:
		return smtRe(r.Sub[0])
	case syntax.OpStar, syntax.OpPlus, syntax.OpQuest:
		x, ok := smtRe(r.Sub[0])
		return "(" + map[syntax.Op]string{syntax.OpStar: "re.*", syntax.OpPlus: "re.+", syntax.OpQuest: "re.opt"}[r.Op] + " " + x + ")", ok
	case syntax.OpRepeat:
		x, ok := smtRe(r.Sub[0])
		if r.Max < 0 {
			return fmt.Sprintf("(re.++ ((_ re.^ %d) %s) (re.* %s))", r.Min, x, x), ok
		}
		return fmt.Sprintf("((_ re.loop %d %d) %s)", r.Min, r.Max, x), ok
	case syntax.OpConcat, syntax.OpAlternate:
		var a []string
		for _, s := range r.Sub {
			x, ok := smtRe(s)
			if !ok {
				return "", false
			}
			a = append(a, x)
		}
		if len(a) == 1 {
			return a[0], true
		}
		return "(" + map[syntax.Op]string{syntax.OpConcat: "re.++", syntax.OpAlternate: "re.union"}[r.Op] + " " + strings.Join(a, " ") + ")", true
	}
	return "", false
}

func smtStr(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		if r < 32 || r > 126 || r == '\\' {
			fmt.Fprintf(&b, "\\u{%x}", r)
		} else if r == '"' {
			b.WriteString(`""`)
		} else {
			b.WriteRune(r)
		}
	}
	return b.String() + `"`
}

const digitsRe = `(re.union (str.to_re "0") (re.++ (re.range "1" "9") (re.* (re.range "0" "9"))))`

// decideRe asks the string solver whether an identifier with arbitrary numbers in it matches, and what the
// captures are. The number holes range over all decimal numerals up to 20 digits.
func (e *Engine) decideRe(re *regexp.Regexp, s Str) *reAnswer {
	a := &reAnswer{can: "unknown", cannot: "unknown", re: re}
	r, err := syntax.Parse(re.String(), syntax.Perl)
	if err != nil {
		a.why = err.Error()
		return a
	}
	pre, post := true, true
	// top-level anchors
	subs := []*syntax.Regexp{r}
	if r.Op == syntax.OpConcat {
		subs = r.Sub
	}
	if len(subs) > 0 && subs[0].Op == syntax.OpBeginText {
		pre, subs = false, subs[1:]
	}
	if len(subs) > 0 && subs[len(subs)-1].Op == syntax.OpEndText {
		post, subs = false, subs[:len(subs)-1]
	}
	var decl strings.Builder
	decl.WriteString("(set-logic ALL)\n(set-option :produce-models true)\n")
	var id []string
	var holes []*Term
	for _, g := range s {
		if g.Num != nil {
			n := fmt.Sprintf("d%d", len(holes))
			fmt.Fprintf(&decl, "(declare-const %s String)\n(assert (str.in_re %s %s))\n(assert (<= (str.len %s) 20))\n", n, n, digitsRe, n)
			holes = append(holes, g.Num)
			id = append(id, n)
		} else {
			id = append(id, smtStr(g.Lit))
		}
	}
	idS := id[0]
	if len(id) > 1 {
		idS = "(str.++ " + strings.Join(id, " ") + ")"
	}
	var parts []string
	if pre {
		parts = append(parts, "re.all")
	}
	for _, x := range subs {
		t, ok := smtRe(x)
		if !ok {
			a.why = "unsupported construct in " + re.String()
			return a
		}
		parts = append(parts, t)
	}
	if post {
		parts = append(parts, "re.all")
	}
	all := parts[0]
	if len(parts) > 1 {
		all = "(re.++ " + strings.Join(parts, " ") + ")"
	}
	// A literal the pattern needs that occurs nowhere in the identifier decides it without the string solver's
	// automata; the solver is still asked.
	a.can, _ = e.S.Raw(decl.String() + "(assert (str.in_re " + idS + " " + all + "))\n(check-sat)\n")
	if a.can == "unsat" {
		a.cannot = "sat"
		return a
	}
	var model string
	a.cannot, model = e.S.Raw(decl.String() + "(assert (not (str.in_re " + idS + " " + all + ")))\n(check-sat)\n(get-model)\n")
	_ = model
	if a.can == "unknown" || a.cannot == "unknown" {
		a.why = "string solver gave no answer for " + re.String()
		return a
	}
	// captures: learnt from one concrete instance, then proved for all
	inst := func(k int) ([]string, []string) {
		var ds []string
		var b strings.Builder
		i := 0
		for _, g := range s {
			if g.Num != nil {
				d := strconv.Itoa(3 + 7*i + k*11)
				ds = append(ds, d)
				b.WriteString(d)
				i++
			} else {
				b.WriteString(g.Lit)
			}
		}
		return ds, re.FindStringSubmatch(b.String())
	}
	ng := re.NumSubexp() + 1
	a.groups = make([]Str, ng)
	_, m1 := inst(1)
	if m1 == nil {
		a.why = "captures"
		return a
	}
	// express each capture as a piece of the identifier
	full := s
	for g := 1; g < ng; g++ {
		found := false
		for i := 0; i < len(full) && !found; i++ {
			for j := i + 1; j <= len(full) && !found; j++ {
				cand := full[i:j]
				ok := true
				for k := 0; k < 4; k++ {
					ds, m := inst(k)
					if m == nil || concr(full, i, j, ds) != m[g] {
						ok = false
					}
				}
				if ok {
					a.groups[g], found = Cat(nil, cand), true
				}
			}
		}
		if !found {
			a.why = fmt.Sprintf("capture %d of %s is no piece of the identifier", g, re.String())
			return a
		}
	}
	a.groups[0] = s
	// no match with another capture: id = pre·x1·c1·x2·… with some c differing
	var flat func(x *syntax.Regexp) []*syntax.Regexp
	flat = func(x *syntax.Regexp) []*syntax.Regexp {
		if x.Op == syntax.OpConcat {
			var o []*syntax.Regexp
			for _, y := range x.Sub {
				o = append(o, flat(y)...)
			}
			return o
		}
		return []*syntax.Regexp{x}
	}
	var fl []*syntax.Regexp
	for _, x := range subs {
		fl = append(fl, flat(x)...)
	}
	var q strings.Builder
	q.WriteString(decl.String())
	var cat, diff []string
	n := 0
	add := func(t string) string {
		v := fmt.Sprintf("p%d", n)
		n++
		fmt.Fprintf(&q, "(declare-const %s String)\n(assert (str.in_re %s %s))\n", v, v, t)
		cat = append(cat, v)
		return v
	}
	head, tail := "", ""
	if pre {
		head = add("re.all")
	}
	caps := 0
	for _, x := range fl {
		t, _ := smtRe(x)
		if x.Op == syntax.OpLiteral {
			cat = append(cat, smtStr(string(x.Rune)))
			continue
		}
		v := add(t)
		if x.Op == syntax.OpCapture {
			caps++
			var want []string
			h := 0
			for _, g := range a.groups[x.Cap] {
				if g.Num != nil {
					for k, y := range holes {
						if y == g.Num {
							h = k
						}
					}
					want = append(want, fmt.Sprintf("d%d", h))
				} else {
					want = append(want, smtStr(g.Lit))
				}
			}
			w := want[0]
			if len(want) > 1 {
				w = "(str.++ " + strings.Join(want, " ") + ")"
			}
			diff = append(diff, "(not (= "+v+" "+w+"))")
		}
	}
	if post {
		tail = add("re.all")
	}
	if caps != ng-1 {
		a.why = "nested captures in " + re.String()
		return a
	}
	fmt.Fprintf(&q, "(assert (= %s (str.++ %s)))\n", idS, strings.Join(append(cat, `""`), " "))
	// the whole match: the identifier without a piece of its first and of its last literal
	a.groups[0] = nil
	if w, b, e2, ok := span(s, inst, re); ok {
		var d []string
		if head != "" {
			d = append(d, "(not (= "+head+" "+smtStr(b)+"))")
		}
		if tail != "" {
			d = append(d, "(not (= "+tail+" "+smtStr(e2)+"))")
		}
		res, _ := e.S.Raw(q.String() + "(assert (or " + strings.Join(d, " ") + " false))\n(check-sat)\n")
		if res == "unsat" {
			a.groups[0] = w
		}
	}
	if caps == 0 {
		a.unique = true
		return a
	}
	fmt.Fprintf(&q, "(assert (or %s false))\n(check-sat)\n(get-model)\n", strings.Join(diff, " "))
	res, _ := e.S.Raw(q.String())
	a.unique = res == "unsat"
	if !a.unique {
		a.why = "uniqueness of the captures of " + re.String() + ": " + res
		if res == "sat" {
			a.why = "capture is not the printed number in " + re.String()
		}
	}
	return a
}

// span guesses which part of the identifier the whole match is, from instances.
func span(s Str, inst func(int) ([]string, []string), re *regexp.Regexp) (w Str, before, after string, ok bool) {
	if len(s) == 0 {
		return
	}
	for k := 0; k < 4; k++ {
		ds, m := inst(k)
		if m == nil {
			return
		}
		full := concr(s, 0, len(s), ds)
		i := re.FindStringIndex(full)
		b, e := full[:i[0]], full[i[1]:]
		if k > 0 && (b != before || e != after) {
			return
		}
		before, after = b, e
	}
	w = append(Str{}, s...)
	if before != "" {
		if w[0].Num != nil || !strings.HasPrefix(w[0].Lit, before) {
			return
		}
		w[0] = Seg{Lit: w[0].Lit[len(before):]}
	}
	if n := len(w); after != "" {
		if w[n-1].Num != nil || !strings.HasSuffix(w[n-1].Lit, after) {
			return
		}
		w[n-1] = Seg{Lit: w[n-1].Lit[:len(w[n-1].Lit)-len(after)]}
	}
	return Cat(nil, w), before, after, true
}

func concr(s Str, i, j int, ds []string) string {
	var b strings.Builder
	h := 0
	for k, g := range s {
		if g.Num != nil {
			if k >= i && k < j {
				b.WriteString(ds[h])
			}
			h++
		} else if k >= i && k < j {
			b.WriteString(g.Lit)
		}
	}
	return b.String()
}

// ---- standard library

func (p *Path) parseInt(s Str, base int64, bitSize int64, signed bool) (Value, Iface) {
	if c, ok := s.Concrete(); ok {
		if signed {
			n, err := strconv.ParseInt(c, int(base), int(bitSize))
			if err != nil {
				return N(n), p.Err(err.Error())
			}
			return N(n), NoErr
		}
		n, err := strconv.ParseUint(c, int(base), int(bitSize))
		b := new(big.Int).SetUint64(n)
		if err != nil {
			return NB(b), p.Err(err.Error())
		}
		return NB(b), NoErr
	}
	if bitSize == 0 {
		bitSize = 64
	}
	if bitSize < 0 || bitSize > 64 || base < 0 || base == 1 || base > 36 {
		return N(0), p.Err("invalid base or bit size")
	}
	if len(s) == 1 && s[0].Num != nil && base != 10 && base != 0 && bitSize >= 32 {
		// the decimal digits of the number, read in another base: numbers of up to three digits
		n, b := s[0].Num, N(base)
		if p.Branch(Lt(n, N(1000))) {
			ds := []*Term{Mod(n, N(10)), Mod(Div(n, N(10)), N(10)), Div(n, N(100))}
			v := N(0)
			for i := 2; i >= 0; i-- {
				if base < 10 && p.Branch(Le(b, ds[i])) {
					return N(0), p.Err("invalid syntax")
				}
				v = Add(Mul(v, b), ds[i])
			}
			return v, NoErr
		}
	}
	if len(s) == 1 && s[0].Num != nil && (base == 10 || base == 0) {
		k := bitSize
		if signed {
			k--
		}
		max := new(big.Int).Sub(new(big.Int).Lsh(BI(1), uint(k)), BI(1))
		if p.Branch(Le(s[0].Num, NB(max))) {
			return s[0].Num, NoErr
		}
		return NB(max), p.Err("value out of range")
	}
	for _, g := range s {
		if g.Num == nil && strings.Trim(g.Lit, "0123456789abcdefABCDEFxXoO_+-") != "" {
			return N(0), p.Err("invalid syntax")
		}
	}
	p.Abort("parsing " + s.String())
	return nil, NoErr
}

// fmtStr is fmt.Sprint(f) for the verbs that identifiers and numbers need.
func (p *Path) fmtStr(format string, args []Value) (Str, bool) {
	r := Str{}
	k := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			r = Cat(r, Lit(string(format[i])))
			continue
		}
		i++
		if i >= len(format) {
			return nil, false
		}
		if format[i] == '%' {
			r = Cat(r, Lit("%"))
			continue
		}
		if k >= len(args) {
			return nil, false
		}
		a := args[k].(Iface)
		k++
		if format[i] != 'd' && format[i] != 's' && format[i] != 'v' {
			return nil, false
		}
		s, ok := p.sprint(a)
		if !ok {
			return nil, false
		}
		r = Cat(r, s)
	}
	return r, k == len(args)
}

func (p *Path) sprint(a Iface) (Str, bool) {
	switch x := a.V.(type) {
	case *Term:
		if x.Bool {
			if x.IsConst() {
				return Lit(fmt.Sprint(x == True)), true
			}
			return nil, false
		}
		if x.IsConst() {
			return Lit(x.C.String()), true
		}
		if x.Lo != nil && x.Lo.Sign() >= 0 {
			return NumStr(x), true
		}
	case Str:
		return x, true
	case Slice:
		r := Lit("[")
		for i, v := range p.Elems(x) {
			if i > 0 {
				r = Cat(r, Lit(" "))
			}
			s, ok := p.sprint(Iface{T: a.T, V: v})
			if !ok {
				return nil, false
			}
			r = Cat(r, s)
		}
		return Cat(r, Lit("]")), true
	}
	return nil, false
}

// split cuts a string at a separator without digits.
func (p *Path) split(s Str, sep string) []Str {
	if c, ok := s.Concrete(); ok {
		var r []Str
		for _, x := range strings.Split(c, sep) {
			r = append(r, Lit(x))
		}
		return r
	}
	if sep == "" || strings.ContainsAny(sep, "0123456789") {
		p.Abort("split of a symbolic string at " + sep)
	}
	r := []Str{{}}
	for _, g := range s {
		if g.Num != nil {
			r[len(r)-1] = Cat(r[len(r)-1], Str{g})
			continue
		}
		for i, x := range strings.Split(g.Lit, sep) {
			if i > 0 {
				r = append(r, Str{})
			}
			r[len(r)-1] = Cat(r[len(r)-1], Lit(x))
		}
	}
	return r
}

func (p *Path) trim(s Str, left, right func(string) string) Str {
	if c, ok := s.Concrete(); ok {
		return Lit(right(left(c)))
	}
	s = Cat(nil, s)
	if len(s) > 0 && s[0].Num == nil && left != nil {
		s = append(Str{{Lit: left(s[0].Lit)}}, s[1:]...)
	}
	if n := len(s); n > 0 && s[n-1].Num == nil && right != nil {
		s = append(append(Str{}, s[:n-1]...), Seg{Lit: right(s[n-1].Lit)})
	}
	return Cat(nil, s)
}

func (p *Path) contains(s Str, sub string) bool {
	if c, ok := s.Concrete(); ok {
		return strings.Contains(c, sub)
	}
	if strings.ContainsAny(sub, "0123456789") {
		p.Abort("search for digits in a symbolic string")
	}
	for _, g := range s {
		if g.Num == nil && strings.Contains(g.Lit, sub) {
			return true
		}
	}
	return false
}

func strSlice(ss []Str) Slice {
	var v []Value
	for _, s := range ss {
		v = append(v, s)
	}
	return MkSlice(v)
}

func standard(e *Engine) {
	in := e.Intr
	// math/big
	bigM := func(name string, f func(p *Path, z *Value, c *Call) Value) {
		in["(*math/big.Int)."+name] = func(p *Path, c *Call) Value {
			z := ptr(p, c.Args[0])
			return f(p, z, c)
		}
	}
	set := func(name string, f func(p *Path, c *Call) *Term) {
		bigM(name, func(p *Path, z *Value, c *Call) Value {
			*z = f(p, c)
			return z
		})
	}
	in["math/big.NewInt"] = func(p *Path, c *Call) Value { return cell(p.term(c.Args[0])) }
	set("Set", func(p *Path, c *Call) *Term { return p.at(c.Args[1]) })
	set("SetUint64", func(p *Path, c *Call) *Term { return p.term(c.Args[1]) })
	set("SetInt64", func(p *Path, c *Call) *Term { return p.term(c.Args[1]) })
	set("Add", func(p *Path, c *Call) *Term { return Add(p.at(c.Args[1]), p.at(c.Args[2])) })
	set("Sub", func(p *Path, c *Call) *Term { return Sub(p.at(c.Args[1]), p.at(c.Args[2])) })
	set("Mul", func(p *Path, c *Call) *Term { return Mul(p.at(c.Args[1]), p.at(c.Args[2])) })
	set("Neg", func(p *Path, c *Call) *Term { return Neg(p.at(c.Args[1])) })
	set("Abs", func(p *Path, c *Call) *Term {
		x := p.at(c.Args[1])
		return Ite(Le(N(0), x), x, Neg(x))
	})
	divs := func(p *Path, x, y *Term, trunc bool) (*Term, *Term) {
		if p.Branch(Eq(y, N(0))) {
			p.Panic("division by zero")
		}
		q, r := Div(x, y), Mod(x, y)
		if trunc && !(x.Lo != nil && x.Lo.Sign() >= 0) {
			if !p.Branch(Le(N(0), x)) {
				q = Neg(Div(Neg(x), y))
				r = Neg(Mod(Neg(x), y))
			}
		}
		return q, r
	}
	set("Div", func(p *Path, c *Call) *Term { q, _ := divs(p, p.at(c.Args[1]), p.at(c.Args[2]), false); return q })
	set("Mod", func(p *Path, c *Call) *Term { _, r := divs(p, p.at(c.Args[1]), p.at(c.Args[2]), false); return r })
	set("Quo", func(p *Path, c *Call) *Term { q, _ := divs(p, p.at(c.Args[1]), p.at(c.Args[2]), true); return q })
	set("Rem", func(p *Path, c *Call) *Term { _, r := divs(p, p.at(c.Args[1]), p.at(c.Args[2]), true); return r })
	bigM("DivMod", func(p *Path, z *Value, c *Call) Value {
		q, r := divs(p, p.at(c.Args[1]), p.at(c.Args[2]), false)
		*z = q
		*ptr(p, c.Args[3]) = r
		return Tuple{z, c.Args[3]}
	})
	bigM("QuoRem", func(p *Path, z *Value, c *Call) Value {
		q, r := divs(p, p.at(c.Args[1]), p.at(c.Args[2]), true)
		*z = q
		*ptr(p, c.Args[3]) = r
		return Tuple{z, c.Args[3]}
	})
	set("Lsh", func(p *Path, c *Call) *Term { return Mul(p.at(c.Args[1]), Pow2(NB(BI(p.Concrete(p.term(c.Args[2])))))) })
	set("Rsh", func(p *Path, c *Call) *Term { return Div(p.at(c.Args[1]), Pow2(NB(BI(p.Concrete(p.term(c.Args[2])))))) })
	set("And", func(p *Path, c *Call) *Term {
		x, y := p.at(c.Args[1]), p.at(c.Args[2])
		if x.IsConst() {
			x, y = y, x
		}
		if x.IsConst() && y.IsConst() {
			return NB(new(big.Int).And(x.C, y.C))
		}
		if y.IsConst() && y.C.Sign() >= 0 {
			m := new(big.Int).Add(y.C, BI(1))
			if new(big.Int).And(m, y.C).Sign() == 0 {
				return Mod(x, NB(m))
			}
		}
		return UF("bigand", nil, nil, x, y)
	})
	set("Exp", func(p *Path, c *Call) *Term {
		x, y := p.at(c.Args[1]), p.at(c.Args[2])
		m := N(0)
		if q, ok := c.Args[3].(*Value); ok && q != nil {
			m = p.term(*q)
		}
		if x.IsConst() && y.IsConst() && m.IsConst() {
			return NB(new(big.Int).Exp(x.C, y.C, m.C))
		}
		return UF("bigexp", nil, nil, x, y, m)
	})
	set("ModInverse", func(p *Path, c *Call) *Term {
		x, m := p.at(c.Args[1]), p.at(c.Args[2])
		if m == P {
			if p.Branch(Eq(Mod(x, P), N(0))) {
				p.Abort("no inverse")
			}
			return p.glInv(Mod(x, P))
		}
		return UF("bigmodinverse", nil, nil, x, m)
	})
	in["(*math/big.Int).Cmp"] = func(p *Path, c *Call) Value {
		x, y := p.at(c.Args[0]), p.at(c.Args[1])
		return Ite(Lt(x, y), N(-1), Ite(Eq(x, y), N(0), N(1)))
	}
	in["(*math/big.Int).CmpAbs"] = func(p *Path, c *Call) Value {
		abs := func(t *Term) *Term { return Ite(Le(N(0), t), t, Neg(t)) }
		x, y := abs(p.at(c.Args[0])), abs(p.at(c.Args[1]))
		return Ite(Lt(x, y), N(-1), Ite(Eq(x, y), N(0), N(1)))
	}
	in["(*math/big.Int).Sign"] = func(p *Path, c *Call) Value {
		x := p.at(c.Args[0])
		return Ite(Lt(x, N(0)), N(-1), Ite(Eq(x, N(0)), N(0), N(1)))
	}
	in["(*math/big.Int).IsUint64"] = func(p *Path, c *Call) Value {
		return And(Le(N(0), p.at(c.Args[0])), Lt(p.at(c.Args[0]), Pow2(N(64))))
	}
	in["(*math/big.Int).IsInt64"] = func(p *Path, c *Call) Value {
		return And(Le(Neg(Pow2(N(63))), p.at(c.Args[0])), Lt(p.at(c.Args[0]), Pow2(N(63))))
	}
	in["(*math/big.Int).Uint64"] = func(p *Path, c *Call) Value { return Wrap(p.at(c.Args[0]), 64, false) }
	in["(*math/big.Int).Int64"] = func(p *Path, c *Call) Value { return Wrap(p.at(c.Args[0]), 64, true) }
	in["(*math/big.Int).BitLen"] = func(p *Path, c *Call) Value {
		x := p.at(c.Args[0])
		if x.IsConst() {
			return N(int64(x.C.BitLen()))
		}
		if x.Hi == nil || x.Lo == nil || x.Lo.Sign() < 0 {
			p.Abort("bit length of an unbounded number")
		}
		n := x.Hi.BitLen()
		r := N(int64(n))
		for i := n - 1; i >= 0; i-- {
			r = Ite(Lt(x, NB(new(big.Int).Lsh(BI(1), uint(i)))), N(int64(i)), r)
		}
		return r
	}
	in["(*math/big.Int).Bit"] = func(p *Path, c *Call) Value {
		return Mod(Div(p.at(c.Args[0]), Pow2(N(p.Concrete(p.term(c.Args[1]))))), N(2))
	}
	in["(*math/big.Int).String"] = func(p *Path, c *Call) Value {
		if x := p.at(c.Args[0]); x.IsConst() || (x.Lo != nil && x.Lo.Sign() >= 0) {
			return NumStr(x)
		}
		return p.Opaque(types.Typ[types.String], "big string")
	}
	in["(*math/big.Int).SetString"] = func(p *Path, c *Call) Value {
		z := ptr(p, c.Args[0])
		base := p.Concrete(p.term(c.Args[2]))
		s, ok := c.Args[1].(Str)
		if !ok {
			*z = p.Havoc(deref(c.Fn.Signature.Recv().Type()), "SetString")
			p.Approx("SetString of an unknown string")
			return Tuple{z, True}
		}
		if x, ok := s.Concrete(); ok {
			n, ok := new(big.Int).SetString(x, int(base))
			if !ok {
				return Tuple{(*Value)(nil), False}
			}
			*z = NB(n)
			return Tuple{z, True}
		}
		s = Cat(nil, s)
		neg := false
		for len(s) > 0 && s[0].Num == nil && (s[0].Lit == "-" || s[0].Lit == "+" || (base == 10 && strings.Trim(s[0].Lit, "0") == "")) {
			neg = neg != (s[0].Lit == "-")
			s = s[1:]
		}
		if len(s) == 1 && s[0].Num != nil && (base == 10 || base == 0) {
			t := s[0].Num
			if neg {
				t = Neg(t)
			}
			*z = t
			return Tuple{z, True}
		}
		if len(s) == 1 && s[0].Num != nil && base > 10 {
			*z = UF(fmt.Sprintf("digits-in-base-%d", base), BI(0), nil, s[0].Num)
			p.Approx("number read in another base")
			return Tuple{z, True}
		}
		for _, g := range s {
			if g.Num == nil && strings.Trim(g.Lit, "0123456789abcdefABCDEFxXoO_+-") != "" {
				return Tuple{(*Value)(nil), False}
			}
		}
		p.Abort("SetString of " + s.String())
		return nil
	}

	// Goldilocks elements as numbers below p
	const gle = "github.com/consensys/gnark-crypto/field/goldilocks."
	in[gle+"NewElement"] = func(p *Path, c *Call) Value { return Mod(p.term(c.Args[0]), P) }
	in[gle+"Modulus"] = func(p *Path, c *Call) Value { return cell(P) }
	in[gle+"One"] = func(p *Path, c *Call) Value { return N(1) }
	gm := func(name string, f func(p *Path, c *Call) *Term) {
		in["(*"+gle+"Element)."+name] = func(p *Path, c *Call) Value {
			z := ptr(p, c.Args[0])
			*z = f(p, c)
			return z
		}
	}
	gm("Set", func(p *Path, c *Call) *Term { return p.at(c.Args[1]) })
	gm("SetUint64", func(p *Path, c *Call) *Term { return Mod(p.term(c.Args[1]), P) })
	gm("SetInt64", func(p *Path, c *Call) *Term { return Mod(p.term(c.Args[1]), P) })
	gm("SetBigInt", func(p *Path, c *Call) *Term { return Mod(p.at(c.Args[1]), P) })
	gm("SetZero", func(p *Path, c *Call) *Term { return N(0) })
	gm("SetOne", func(p *Path, c *Call) *Term { return N(1) })
	gm("Add", func(p *Path, c *Call) *Term { return Mod(Add(p.at(c.Args[1]), p.at(c.Args[2])), P) })
	gm("Sub", func(p *Path, c *Call) *Term { return Mod(Sub(p.at(c.Args[1]), p.at(c.Args[2])), P) })
	gm("Mul", func(p *Path, c *Call) *Term { return Mod(Mul(p.at(c.Args[1]), p.at(c.Args[2])), P) })
	gm("Square", func(p *Path, c *Call) *Term { return Mod(Mul(p.at(c.Args[1]), p.at(c.Args[1])), P) })
	gm("Double", func(p *Path, c *Call) *Term { return Mod(Mul(p.at(c.Args[1]), N(2)), P) })
	gm("Neg", func(p *Path, c *Call) *Term { return Mod(Neg(p.at(c.Args[1])), P) })
	gm("Exp", func(p *Path, c *Call) *Term {
		x, k := p.term(c.Args[1]), p.at(c.Args[2])
		if x.IsConst() && k.IsConst() {
			return NB(new(big.Int).Exp(x.C, k.C, glP))
		}
		if k.IsConst() && k.C.Cmp(new(big.Int).Sub(glP, BI(2))) == 0 {
			return Ite(Eq(x, N(0)), N(0), p.glInv(x))
		}
		return UF("glexp", BI(0), new(big.Int).Sub(glP, BI(1)), x, k)
	})
	gm("Inverse", func(p *Path, c *Call) *Term { return Ite(Eq(p.at(c.Args[1]), N(0)), N(0), p.glInv(p.at(c.Args[1]))) })
	in["(*"+gle+"Element).IsZero"] = func(p *Path, c *Call) Value { return Eq(p.at(c.Args[0]), N(0)) }
	in["(*"+gle+"Element).IsOne"] = func(p *Path, c *Call) Value { return Eq(p.at(c.Args[0]), N(1)) }
	in["(*"+gle+"Element).Equal"] = func(p *Path, c *Call) Value { return Eq(p.at(c.Args[0]), p.at(c.Args[1])) }
	in["(*"+gle+"Element).Uint64"] = func(p *Path, c *Call) Value { return p.at(c.Args[0]) }
	in["("+gle+"Element).Uint64"] = func(p *Path, c *Call) Value { return p.term(c.Args[0]) }
	toBig := func(p *Path, c *Call) Value {
		z := ptr(p, c.Args[1])
		if t, ok := c.Args[0].(*Term); ok {
			*z = t
		} else {
			*z = p.at(c.Args[0])
		}
		return z
	}
	for _, n := range []string{"BigInt", "ToBigIntRegular"} {
		in["("+gle+"Element)."+n] = toBig
		in["(*"+gle+"Element)."+n] = toBig
	}

	// strconv
	in["strconv.Atoi"] = func(p *Path, c *Call) Value {
		v, e := p.parseInt(p.str(c.Args[0]), 10, 64, true)
		return Tuple{v, e}
	}
	in["strconv.ParseUint"] = func(p *Path, c *Call) Value {
		v, e := p.parseInt(p.str(c.Args[0]), p.Concrete(p.term(c.Args[1])), p.Concrete(p.term(c.Args[2])), false)
		return Tuple{v, e}
	}
	in["strconv.ParseInt"] = func(p *Path, c *Call) Value {
		v, e := p.parseInt(p.str(c.Args[0]), p.Concrete(p.term(c.Args[1])), p.Concrete(p.term(c.Args[2])), true)
		return Tuple{v, e}
	}
	in["strconv.Itoa"] = func(p *Path, c *Call) Value {
		s, ok := p.sprint(Iface{V: c.Args[0]})
		if !ok {
			p.Abort("Itoa")
		}
		return s
	}
	in["strconv.FormatUint"] = func(p *Path, c *Call) Value {
		if p.Concrete(p.term(c.Args[1])) != 10 {
			p.Abort("FormatUint")
		}
		return NumStr(p.term(c.Args[0]))
	}
	// strings
	sp := func(f func(string) string) func(p *Path, c *Call) Value {
		return func(p *Path, c *Call) Value { return p.trim(p.str(c.Args[0]), f, f) }
	}
	_ = sp
	in["strings.TrimSpace"] = func(p *Path, c *Call) Value {
		return p.trim(p.str(c.Args[0]), func(s string) string { return strings.TrimLeft(s, " \t\n\r") }, func(s string) string { return strings.TrimRight(s, " \t\n\r") })
	}
	in["strings.Trim"] = func(p *Path, c *Call) Value {
		cut := p.cstr(c.Args[1])
		if strings.ContainsAny(cut, "0123456789") {
			p.Abort("trim of digits")
		}
		return p.trim(p.str(c.Args[0]), func(s string) string { return strings.TrimLeft(s, cut) }, func(s string) string { return strings.TrimRight(s, cut) })
	}
	in["strings.Split"] = func(p *Path, c *Call) Value { return strSlice(p.split(p.str(c.Args[0]), p.cstr(c.Args[1]))) }
	in["strings.Fields"] = func(p *Path, c *Call) Value {
		var o []Str
		for _, x := range p.split(p.str(c.Args[0]), " ") {
			if len(x) > 0 {
				o = append(o, x)
			}
		}
		return strSlice(o)
	}
	in["strings.Contains"] = func(p *Path, c *Call) Value { return B(p.contains(p.str(c.Args[0]), p.cstr(c.Args[1]))) }
	in["strings.HasPrefix"] = func(p *Path, c *Call) Value {
		s, x := Cat(nil, p.str(c.Args[0])), p.cstr(c.Args[1])
		for len(x) > 0 {
			if len(s) == 0 {
				return False
			}
			if s[0].Num != nil {
				if x[0] < '0' || x[0] > '9' {
					return False
				}
				p.Abort("prefix with digits")
			}
			n := len(s[0].Lit)
			if len(x) <= n {
				return B(strings.HasPrefix(s[0].Lit, x))
			}
			if !strings.HasPrefix(x, s[0].Lit) {
				return False
			}
			x, s = x[n:], s[1:]
		}
		return True
	}
	in["strings.HasSuffix"] = func(p *Path, c *Call) Value {
		s, x := Cat(nil, p.str(c.Args[0])), p.cstr(c.Args[1])
		if len(x) == 0 {
			return True
		}
		if len(s) == 0 {
			return False
		}
		l := s[len(s)-1]
		if l.Num == nil && (len(l.Lit) >= len(x) || !strings.HasSuffix(x, l.Lit)) {
			return B(strings.HasSuffix(l.Lit, x))
		}
		if l.Num != nil && (x[len(x)-1] < '0' || x[len(x)-1] > '9') {
			return False
		}
		p.Abort("suffix with digits")
		return nil
	}
	in["strings.TrimPrefix"] = func(p *Path, c *Call) Value {
		s, x := p.str(c.Args[0]), p.cstr(c.Args[1])
		if len(s) > 0 && s[0].Num == nil && len(s[0].Lit) >= len(x) {
			return p.trim(s, func(s string) string { return strings.TrimPrefix(s, x) }, func(s string) string { return s })
		}
		if x != "" && len(s) > 0 && s[0].Num != nil && (x[0] < '0' || x[0] > '9') {
			return s
		}
		p.Abort("TrimPrefix")
		return nil
	}
	in["strings.TrimSuffix"] = func(p *Path, c *Call) Value {
		s, x := p.str(c.Args[0]), p.cstr(c.Args[1])
		if n := len(s); n > 0 && s[n-1].Num == nil && len(s[n-1].Lit) >= len(x) {
			return p.trim(s, func(s string) string { return s }, func(s string) string { return strings.TrimSuffix(s, x) })
		}
		p.Abort("TrimSuffix")
		return nil
	}
	in["strings.ReplaceAll"] = func(p *Path, c *Call) Value {
		ps := p.split(p.str(c.Args[0]), p.cstr(c.Args[1]))
		r := Str{}
		for i, x := range ps {
			if i > 0 {
				r = Cat(r, p.str(c.Args[2]))
			}
			r = Cat(r, x)
		}
		return r
	}
	in["strings.Join"] = func(p *Path, c *Call) Value {
		r := Str{}
		for i, x := range p.Elems(c.Args[0].(Slice)) {
			if i > 0 {
				r = Cat(r, p.str(c.Args[1]))
			}
			r = Cat(r, p.str(x))
		}
		return r
	}
	// fmt
	in["fmt.Sprintf"] = func(p *Path, c *Call) Value {
		f, ok := p.str(c.Args[0]).Concrete()
		if ok {
			if s, ok := p.fmtStr(f, p.Elems(c.Args[1].(Slice))); ok {
				return s
			}
		}
		return p.Opaque(types.Typ[types.String], "Sprintf")
	}
	in["fmt.Sprint"] = func(p *Path, c *Call) Value { return p.Opaque(types.Typ[types.String], "Sprint") }
	in["fmt.Errorf"] = func(p *Path, c *Call) Value { return p.Err("error") }
	in["errors.New"] = func(p *Path, c *Call) Value { return p.Err("error") }
	nop := func(p *Path, c *Call) Value { return p.Zero(c.Res) }
	for _, n := range []string{"fmt.Println", "fmt.Printf", "fmt.Print", "fmt.Fprintln", "fmt.Fprintf", "fmt.Fprint", "log.Println", "log.Printf", "log.Print",
		"(*log.Logger).Println", "(*log.Logger).Printf", "log.SetFlags", "log.SetOutput", "runtime.GC",
		"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock"} {
		in[n] = nop
	}
	in["(*sync.Once).Do"] = func(p *Path, c *Call) Value {
		k := fmt.Sprintf("once %p", c.Args[0])
		if p.User[k] == nil {
			p.User[k] = true
			p.CallValue(c.Args[1])
		}
		return Tuple{}
	}
	for _, n := range []string{"log.Fatal", "log.Fatalf", "log.Fatalln", "os.Exit", "(*log.Logger).Fatal", "(*log.Logger).Fatalf", "runtime.Goexit"} {
		n := n
		in[n] = func(p *Path, c *Call) Value { p.Exit(n); return nil }
	}
	for _, n := range []string{"log.Panic", "log.Panicf", "log.Panicln"} {
		in[n] = func(p *Path, c *Call) Value { p.Panic("log.Panic"); return nil }
	}
	// math
	in["math.Pow"] = func(p *Path, c *Call) Value {
		x, ok1 := c.Args[0].(float64)
		y, ok2 := c.Args[1].(float64)
		if ok1 && ok2 {
			return math.Pow(x, y)
		}
		return p.Havoc(types.Typ[types.Float64], "Pow")
	}
	for n, f := range map[string]func(float64) float64{"Log2": math.Log2, "Ceil": math.Ceil, "Floor": math.Floor, "Sqrt": math.Sqrt, "Abs": math.Abs} {
		f := f
		in["math."+n] = func(p *Path, c *Call) Value {
			if x, ok := c.Args[0].(float64); ok {
				return f(x)
			}
			return p.Havoc(types.Typ[types.Float64], "math")
		}
	}
	for n, f := range map[string]func(uint64) int{"Len64": bits.Len64, "TrailingZeros64": bits.TrailingZeros64, "OnesCount64": bits.OnesCount64,
		"Len": bits.Len64, "TrailingZeros": bits.TrailingZeros64, "OnesCount": bits.OnesCount64} {
		f := f
		in["math/bits."+n] = func(p *Path, c *Call) Value {
			x := p.term(c.Args[0])
			if !x.IsConst() {
				p.Abort("math/bits of a symbolic number")
			}
			return N(int64(f(x.C.Uint64())))
		}
	}
	// regexp: the value behind the pointer is Opaque with the compiled expression
	comp := func(p *Path, c *Call) (*regexp.Regexp, error, Value) {
		re, err := regexp.Compile(p.cstr(c.Args[0]))
		if err != nil {
			return nil, err, nil
		}
		o := p.Opaque(nil, "regexp")
		o.Data, o.nul = re, False
		return re, nil, cell(o)
	}
	in["regexp.MustCompile"] = func(p *Path, c *Call) Value {
		_, err, v := comp(p, c)
		if err != nil {
			p.Panic("regexp: Compile")
		}
		return v
	}
	in["regexp.Compile"] = func(p *Path, c *Call) Value {
		_, err, v := comp(p, c)
		if err != nil {
			return Tuple{(*Value)(nil), p.Err("bad expression")}
		}
		return Tuple{v, NoErr}
	}
	getRe := func(p *Path, v Value) *regexp.Regexp {
		o, _ := (*ptr(p, v)).(*Opaque)
		if o == nil {
			p.Abort("unknown regular expression")
		}
		re, _ := o.Data.(*regexp.Regexp)
		if re == nil {
			p.Abort("unknown regular expression")
		}
		return re
	}
	in["(*regexp.Regexp).FindStringSubmatch"] = func(p *Path, c *Call) Value {
		if _, conc := p.str(c.Args[1]).Concrete(); !conc {
			g, ok, err := p.reExec(getRe(p, c.Args[0]), p.str(c.Args[1]))
			if err == nil {
				if !ok {
					return Slice{}
				}
				return MkSlice(g)
			}
		}
		g, ok := p.reMatch(getRe(p, c.Args[0]), p.str(c.Args[1]))
		if !ok {
			return Slice{}
		}
		var v []Value
		for i, x := range g {
			if x == nil && i == 0 {
				v = append(v, p.Opaque(types.Typ[types.String], "match"))
				continue
			}
			v = append(v, x)
		}
		return MkSlice(v)
	}
	in["(*regexp.Regexp).MatchString"] = func(p *Path, c *Call) Value {
		if _, conc := p.str(c.Args[1]).Concrete(); !conc {
			if _, ok, err := p.reExec(getRe(p, c.Args[0]), p.str(c.Args[1])); err == nil {
				return B(ok)
			}
		}
		_, ok := p.reMatch(getRe(p, c.Args[0]), p.str(c.Args[1]))
		return B(ok)
	}
	in["(*regexp.Regexp).SubexpNames"] = func(p *Path, c *Call) Value {
		var v []Value
		for _, n := range getRe(p, c.Args[0]).SubexpNames() {
			v = append(v, Lit(n))
		}
		return MkSlice(v)
	}
	in["(*regexp.Regexp).SubexpIndex"] = func(p *Path, c *Call) Value {
		return N(int64(getRe(p, c.Args[0]).SubexpIndex(p.cstr(c.Args[1]))))
	}
	in["(*regexp.Regexp).NumSubexp"] = func(p *Path, c *Call) Value { return N(int64(getRe(p, c.Args[0]).NumSubexp())) }
	in["(*regexp.Regexp).String"] = func(p *Path, c *Call) Value { return Lit(getRe(p, c.Args[0]).String()) }
}

var glInvs = map[int]*Term{}

// glInv is the inverse of a non-zero residue: one value, with its defining equation on the path.
func (p *Path) glInv(x *Term) *Term {
	if x.IsConst() {
		if x.C.Sign() == 0 {
			return N(0)
		}
		return NB(new(big.Int).ModInverse(x.C, glP))
	}
	return UF("glinv", BI(0), new(big.Int).Sub(glP, BI(1)), x)
}

// native runs pure functions of the standard library on concrete strings.
func (p *Path) native(fn *ssa.Function, name string, args []Value) (Value, bool) {
	var ss []string
	for _, a := range args {
		s, ok := a.(Str)
		if !ok {
			return nil, false
		}
		c, ok := s.Concrete()
		if !ok {
			return nil, false
		}
		ss = append(ss, c)
	}
	switch name {
	case "strings.ToLower":
		return Lit(strings.ToLower(ss[0])), true
	case "strings.ToUpper":
		return Lit(strings.ToUpper(ss[0])), true
	case "strings.Index":
		return N(int64(strings.Index(ss[0], ss[1]))), true
	case "strings.LastIndex":
		return N(int64(strings.LastIndex(ss[0], ss[1]))), true
	case "strings.Count":
		return N(int64(strings.Count(ss[0], ss[1]))), true
	case "strings.EqualFold":
		return B(strings.EqualFold(ss[0], ss[1])), true
	case "path/filepath.Base":
		return Lit(ss[0]), true
	}
	return nil, false
}
