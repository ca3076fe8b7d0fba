package sx

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of: *Term (ints, bools, big.Int and Goldilocks elements), float64, Str, Struct, Array,
// *Value (pointer), Slice, *Map, Iface, *Closure, *ssa.Function, *ssa.Builtin, *Native, Tuple, *Opaque, nil func.
type Value = any

type Struct []*Value
type Array []*Value
type Tuple []Value

type Backing struct {
	cells []*Value
	mk    func(i int) Value
}

func (b *Backing) at(i int) *Value {
	for len(b.cells) <= i {
		b.cells = append(b.cells, nil)
	}
	if b.cells[i] == nil {
		v := b.mk(i)
		b.cells[i] = &v
	}
	return b.cells[i]
}

type Slice struct {
	b   *Backing
	off int
	len *Term
	cap int // only for concrete lengths
}

func (s Slice) Len() *Term {
	if s.len == nil {
		return N(0)
	}
	return s.len
}
func (s Slice) At(i int) *Value { return s.b.at(s.off + i) }

type Map struct {
	keys, vals []Value
}

type Iface struct {
	T types.Type
	V Value
}

type Closure struct {
	Fn  *ssa.Function
	Env []Value
}

type Native struct {
	Name string
	F    func(p *Path, args []Value) Value
}

// Opaque stands for a value the encoding says nothing about.
type Opaque struct {
	ID   int
	T    types.Type
	Tag  string
	Data any
	sub  map[string]Value
	nul  *Term
}

// Str is a string of literal pieces and decimal numbers.
type Seg struct {
	Lit string
	Num *Term
}
type Str []Seg

func Lit(s string) Str {
	if s == "" {
		return Str{}
	}
	return Str{{Lit: s}}
}

func (s Str) Concrete() (string, bool) {
	var b strings.Builder
	for _, g := range s {
		if g.Num != nil {
			if !g.Num.IsConst() {
				return "", false
			}
			b.WriteString(g.Num.C.String())
		} else {
			b.WriteString(g.Lit)
		}
	}
	return b.String(), true
}

func (s Str) String() string {
	var b strings.Builder
	for _, g := range s {
		if g.Num != nil {
			b.WriteString("<" + g.Num.String() + ">")
		} else {
			b.WriteString(g.Lit)
		}
	}
	return b.String()
}

func (s Str) Eval(m map[string]*big.Int) string {
	var b strings.Builder
	for _, g := range s {
		if g.Num != nil {
			b.WriteString(g.Num.Eval(m).String())
		} else {
			b.WriteString(g.Lit)
		}
	}
	return b.String()
}

func Cat(a, b Str) Str {
	r := append(Str{}, a...)
	for _, g := range b {
		if g.Num != nil && g.Num.IsConst() {
			g = Seg{Lit: g.Num.C.String()}
		}
		if g.Num == nil && g.Lit == "" {
			continue
		}
		if n := len(r); g.Num == nil && n > 0 && r[n-1].Num == nil {
			r[n-1] = Seg{Lit: r[n-1].Lit + g.Lit}
			continue
		}
		r = append(r, g)
	}
	return r
}

func NumStr(t *Term) Str { return Cat(nil, Str{{Num: t}}) }

// EqStr is the condition under which two strings are the same; ok is false when it is out of reach.
func EqStr(a, b Str) (*Term, bool) {
	if x, ok := a.Concrete(); ok {
		if y, ok := b.Concrete(); ok {
			return B(x == y), true
		}
	}
	a, b = Cat(nil, a), Cat(nil, b)
	c := True
	digit := func(s string) int {
		i := 0
		for i < len(s) && s[i] >= '0' && s[i] <= '9' {
			i++
		}
		return i
	}
	for len(a) > 0 && len(b) > 0 {
		x, y := a[0], b[0]
		switch {
		case x.Num == nil && y.Num == nil:
			n := len(x.Lit)
			if len(y.Lit) < n {
				n = len(y.Lit)
			}
			if x.Lit[:n] != y.Lit[:n] {
				return False, true
			}
			pop := func(s Str) Str {
				if len(s[0].Lit) == n {
					return s[1:]
				}
				return append(Str{{Lit: s[0].Lit[n:]}}, s[1:]...)
			}
			a, b = pop(a), pop(b)
		case x.Num != nil && y.Num != nil:
			stop := func(s Str) bool { return len(s) == 1 || (s[1].Num == nil && digit(s[1].Lit) == 0) }
			if !stop(a) || !stop(b) {
				return nil, false
			}
			c = And(c, Eq(x.Num, y.Num))
			a, b = a[1:], b[1:]
		default:
			if x.Num == nil {
				a, b = b, a
				x, y = y, x
			}
			k := digit(y.Lit)
			if k == 0 || (y.Lit[0] == '0' && k > 1) {
				return False, true
			}
			if (len(a) > 1 && (a[1].Num != nil || digit(a[1].Lit) > 0)) || (k == len(y.Lit) && len(b) > 1) {
				return nil, false
			}
			n, _ := new(big.Int).SetString(y.Lit[:k], 10)
			c = And(c, Eq(x.Num, NB(n)))
			a = a[1:]
			if k == len(y.Lit) {
				b = b[1:]
			} else {
				b = append(Str{{Lit: y.Lit[k:]}}, b[1:]...)
			}
		}
	}
	if len(a) > 0 || len(b) > 0 {
		return False, true
	}
	return c, true
}

func cell(v Value) *Value { return &v }

func typeName(t types.Type) string {
	if a, ok := t.(*types.Alias); ok {
		t = types.Unalias(a)
	}
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path() + "." + n.Obj().Name()
		}
		return n.Obj().Name()
	}
	return ""
}

// prim types are mathematical integers.
func prim(t types.Type) bool {
	n := typeName(t)
	return n == "math/big.Int" || n == "github.com/consensys/gnark-crypto/field/goldilocks.Element"
}

// opaqueType: struct types of other packages whose insides are never looked at.
func (e *Engine) opaqueType(t types.Type) bool {
	n := typeName(t)
	if n == "" || prim(t) {
		return false
	}
	for _, x := range e.OpaqueTypes {
		if strings.HasPrefix(n, x) {
			return true
		}
	}
	return false
}

// Zero is the zero value of a type.
func (p *Path) Zero(t types.Type) Value {
	if prim(t) {
		return N(0)
	}
	if p.E.opaqueType(t) {
		return p.Opaque(t, "zero "+typeName(t))
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return False
		case u.Info()&types.IsInteger != 0:
			return N(0)
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Info()&types.IsString != 0:
			return Str{}
		case u.Kind() == types.UnsafePointer:
			return (*Value)(nil)
		case u.Kind() == types.UntypedNil:
			return Iface{}
		}
		p.Abort("zero of " + t.String())
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = cell(p.Zero(u.Field(i).Type()))
		}
		return s
	case *types.Array:
		if u.Len() > 1<<20 {
			p.Abort("huge array")
		}
		a := make(Array, u.Len())
		for i := range a {
			a[i] = cell(p.Zero(u.Elem()))
		}
		return a
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Slice:
		return Slice{}
	case *types.Map:
		return (*Map)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Chan:
		return (*Value)(nil)
	case *types.Tuple:
		var r Tuple
		for i := 0; i < u.Len(); i++ {
			r = append(r, p.Zero(u.At(i).Type()))
		}
		return r
	}
	p.Abort("zero of " + t.String())
	return nil
}

// Havoc is an arbitrary value of a type.
func (p *Path) Havoc(t types.Type, tag string) Value {
	if prim(t) {
		p.fresh++
		return Var(fmt.Sprintf("h%d!%s", p.fresh, tag), nil, nil)
	}
	if p.E.opaqueType(t) {
		return p.Opaque(t, tag)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		p.fresh++
		n := fmt.Sprintf("h%d!%s", p.fresh, tag)
		switch {
		case u.Info()&types.IsBoolean != 0:
			return BoolVar(n)
		case u.Info()&types.IsInteger != 0:
			lo, hi := p.E.Range(t)
			return Var(n, lo, hi)
		}
		return p.Opaque(t, tag)
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = cell(p.Havoc(u.Field(i).Type(), tag+"."+u.Field(i).Name()))
		}
		return s
	case *types.Array:
		a := make(Array, u.Len())
		for i := range a {
			a[i] = cell(p.Havoc(u.Elem(), fmt.Sprintf("%s[%d]", tag, i)))
		}
		return a
	case *types.Interface:
		return Iface{T: p.E.opaqueDyn, V: p.Opaque(t, tag)}
	case *types.Tuple:
		var r Tuple
		for i := 0; i < u.Len(); i++ {
			r = append(r, p.Havoc(u.At(i).Type(), fmt.Sprintf("%s#%d", tag, i)))
		}
		return r
	}
	return p.Opaque(t, tag)
}

func (p *Path) Opaque(t types.Type, tag string) *Opaque {
	p.fresh++
	return &Opaque{ID: p.fresh, T: t, Tag: tag}
}

// Copy copies structs and arrays (values), keeping references.
func Copy(v Value) Value {
	switch x := v.(type) {
	case Struct:
		r := make(Struct, len(x))
		for i := range x {
			r[i] = cell(Copy(*x[i]))
		}
		return r
	case Array:
		r := make(Array, len(x))
		for i := range x {
			r[i] = cell(Copy(*x[i]))
		}
		return r
	}
	return v
}

// assign stores into a cell without changing the identity of sub-cells.
func assign(c *Value, v Value) {
	switch x := v.(type) {
	case Struct:
		if old, ok := (*c).(Struct); ok && len(old) == len(x) {
			x = Copy(x).(Struct)
			for i := range x {
				assign(old[i], *x[i])
			}
			return
		}
	case Array:
		if old, ok := (*c).(Array); ok && len(old) == len(x) {
			x = Copy(x).(Array)
			for i := range x {
				assign(old[i], *x[i])
			}
			return
		}
	}
	*c = Copy(v)
}

// Range is the value range of an integer type.
func (e *Engine) Range(t types.Type) (*big.Int, *big.Int) {
	n, s, _ := intType(t)
	m := new(big.Int).Lsh(BI(1), uint(n))
	if s {
		h := new(big.Int).Lsh(BI(1), uint(n-1))
		return new(big.Int).Neg(h), new(big.Int).Sub(h, BI(1))
	}
	return BI(0), m.Sub(m, BI(1))
}

func intType(t types.Type) (bits int, signed, ok bool) {
	b, is := t.Underlying().(*types.Basic)
	if !is {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int16:
		return 16, true, true
	case types.Int8:
		return 8, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint8:
		return 8, false, true
	}
	return 0, false, false
}

func Show(v Value) string {
	switch x := v.(type) {
	case *Term:
		return x.String()
	case Str:
		return fmt.Sprintf("%q", x.String())
	case Iface:
		if x.T == nil {
			return "nil"
		}
		return Show(x.V)
	case Struct:
		var s []string
		for _, c := range x {
			s = append(s, Show(*c))
		}
		return "{" + strings.Join(s, " ") + "}"
	case Array:
		var s []string
		for _, c := range x {
			s = append(s, Show(*c))
		}
		return "[" + strings.Join(s, " ") + "]"
	case Slice:
		s := "[]len=" + x.Len().String() + "{"
		if n, ok := x.Len().Int(); ok {
			for i := 0; i < int(n) && i < 20; i++ {
				s += Show(*x.At(i)) + " "
			}
		}
		return s + "}"
	case *Value:
		if x == nil {
			return "nilptr"
		}
		return "&" + Show(*x)
	case *Opaque:
		return "opaque(" + x.Tag + ")"
	case Tuple:
		var s []string
		for _, c := range x {
			s = append(s, Show(c))
		}
		return "(" + strings.Join(s, ", ") + ")"
	}
	return fmt.Sprintf("%T", v)
}

// DeepEq is the condition under which two values are the same all the way down (types, numbers, lengths);
// ok is false where that is out of reach.
func (p *Path) DeepEq(a, b Value) (c *Term, ok bool) {
	switch x := a.(type) {
	case *Value:
		y, k := b.(*Value)
		if !k {
			return nil, false
		}
		if x == y {
			return True, true
		}
		if x == nil || y == nil {
			return False, true
		}
		return p.DeepEq(*x, *y)
	case Iface:
		y, k := b.(Iface)
		if !k || x.T == p.E.opaqueDyn || y.T == p.E.opaqueDyn {
			return nil, false
		}
		if x.T == nil || y.T == nil {
			return B(x.T == nil && y.T == nil), true
		}
		if !types.Identical(x.T, y.T) {
			return False, true
		}
		return p.DeepEq(x.V, y.V)
	case Struct:
		y, k := b.(Struct)
		if !k || len(x) != len(y) {
			return nil, false
		}
		return p.deepAll(x, y)
	case Array:
		y, k := b.(Array)
		if !k || len(x) != len(y) {
			return nil, false
		}
		return p.deepAll(x, y)
	case Slice:
		y, k := b.(Slice)
		if !k {
			return nil, false
		}
		n, k1 := x.Len().Int()
		m, k2 := y.Len().Int()
		if !k1 || !k2 {
			return nil, false
		}
		if n != m {
			return False, true
		}
		c = True
		for i := 0; i < int(n); i++ {
			d, k := p.DeepEq(*x.At(i), *y.At(i))
			if !k {
				return nil, false
			}
			c = And(c, d)
		}
		return c, true
	case *Term:
		if y, k := b.(*Term); k {
			return Eq(x, y), true
		}
	case Str:
		if y, k := b.(Str); k {
			return EqStr(x, y)
		}
	case float64:
		if y, k := b.(float64); k {
			return B(x == y), true
		}
	}
	return nil, false
}

func (p *Path) deepAll(x, y []*Value) (*Term, bool) {
	c := True
	for i := range x {
		d, k := p.DeepEq(*x[i], *y[i])
		if !k {
			return nil, false
		}
		c = And(c, d)
	}
	return c, true
}
