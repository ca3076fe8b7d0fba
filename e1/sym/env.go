package sym

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"math/big"
	"math/bits"
	"math/rand"
	"os"
	"sort"
	"strings"
	"time"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/frontend"
)

// Comp is one component: Build declares inputs, states the specification and
// then hands over to the real code with e.Code.
type Comp struct {
	Name  string
	Mode  Mode
	Build func(e *Env)
	Pad   int // dummy 32-bit range checks so that the commit checker settles on its expected width
	// NoSolve: the component has no equations to satisfy
	Reject bool // the code must refuse every input
	// MayPanic: the code may refuse to build this circuit; if it does build it, it must be right
	MayPanic bool
	// Own, OwnReject: which equations/bounds/outputs, and which refusals (by the names of the
	// inputs and uninterpreted calls the failing constraint is about), count for this property;
	// nil means all.
	Own       func(name string) bool
	OwnReject func(names map[string]bool) bool
	// Rom > 0: uninterpreted calls are random oracles in concrete runs, with answers below 2^Rom on shadow 0
	Rom        int
	AllShadows bool // outputs are a function of the inputs: every shadow must agree
	// Setup/Teardown around every run (hooks)
	Setup func(e *Env) func()
}

type Eq struct {
	GL   bool
	PM   PolyM
	P    Poly
	Sh   [K]fr.Element // lhs-rhs
	Piv  []string
	Name string
}
type BoundReq struct {
	V    *Var
	UB   *big.Int
	Name string
}
type OutReq struct {
	GL   bool
	V    *Var
	X    X
	Can  bool // must be canonical
	Name string
}

type Env struct {
	C        *Ctx
	Comp     *Comp
	Seed     int64
	Inputs   []*Var
	Names    []string
	ByName   map[string]*Var
	Native   map[string]bool
	Vals     map[string][K]*big.Int // forced values
	Eqs      []*Eq
	Bounds   []*BoundReq
	Outs     []*OutReq
	Codes    []frontend.Variable
	NonZero  []*Var // values the specification assumes to be non zero (pairs flattened)
	NSpec    int
	SpecOnly bool
	redKey   map[string]*Var
	invKey   map[string]*Var
	ufKey    map[string][]*Var
	bitKey   map[string][]*Var
	rng      *rand.Rand
	Panic    string
	OutErr   string
	romMemo  map[string][]fr.Element
	romN     map[string]int
	Hook     bool // Poseidon permutations are uninterpreted in this run
	Extreme  int
}

// X is an expression over the Goldilocks field.
type X struct {
	P  PolyM
	Sh [K]uint64
	ns bool
}

func (e *Env) CX(u uint64) X {
	x := X{ns: e.C.NoSym}
	if !x.ns {
		x.P = MConst(u)
	}
	for k := range x.Sh {
		x.Sh[k] = u % GM
	}
	return x
}
func (e *Env) X(v *Var) X {
	x := X{ns: e.C.NoSym, Sh: shM(v.Sh)}
	if !x.ns {
		if lo, hi := specIvl(e.C, v.P); lo == nil || lo.Sign() < 0 || hi.Cmp(BigR) >= 0 {
			panic("specification uses a value that may wrap around")
		}
		l := &Lift{}
		x.P = l.ToM(v.P)
	}
	return x
}
func specIvl(c *Ctx, p Poly) (lo, hi *big.Int) {
	lo, hi = new(big.Int), new(big.Int)
	for i := range p {
		h := big.NewInt(1)
		for mm, jj := p[i].M, 0; jj < len(mm); jj += 4 {
			a := atomAt(mm, jj)
			at := c.Atoms[a]
			ub := at.UB
			if at.Kind == KRed || at.Kind == KInv {
				ub = MaxGL
			}
			if ub == nil {
				return nil, nil
			}
			h = new(big.Int).Mul(h, ub)
		}
		co := Centered(&p[i].C)
		h.Mul(h, co)
		if p[i].M != "" && co.Sign() < 0 {
			lo.Add(lo, h)
		} else if p[i].M != "" {
			hi.Add(hi, h)
		} else {
			lo.Add(lo, co)
			hi.Add(hi, co)
		}
	}
	return
}
func (x X) Add(y X) X {
	r := X{ns: x.ns}
	for k := range r.Sh {
		r.Sh[k] = addM(x.Sh[k], y.Sh[k])
	}
	if !x.ns {
		r.P = x.P.Add(y.P)
	}
	return r
}
func (x X) Sub(y X) X {
	r := X{ns: x.ns}
	for k := range r.Sh {
		r.Sh[k] = subM(x.Sh[k], y.Sh[k])
	}
	if !x.ns {
		r.P = x.P.Sub(y.P)
	}
	return r
}
func (x X) Mul(y X) X {
	r := X{ns: x.ns}
	for k := range r.Sh {
		r.Sh[k] = mulM(x.Sh[k], y.Sh[k])
	}
	if !x.ns {
		r.P = x.P.Mul(y.P)
	}
	return r
}
func (x X) Scale(u uint64) X {
	u %= GM
	r := X{ns: x.ns}
	for k := range r.Sh {
		r.Sh[k] = mulM(x.Sh[k], u)
	}
	if !x.ns {
		r.P = x.P.Scale(u)
	}
	return r
}

// Red names the canonical representative of an expression.
func (e *Env) Red(x X) *Var {
	if e.C.NoSym {
		v := &Var{P: dummy}
		for k := range v.Sh {
			v.Sh[k].SetUint64(x.Sh[k])
		}
		return v
	}
	if c, ok := x.P.IsConst(); ok {
		return e.C.V(c)
	}
	if id, ok := x.P.SingleAtom(); ok {
		a := e.C.Atoms[id]
		if a.Kind == KRed || a.Kind == KInv || (a.UB != nil && a.UB.Cmp(MaxGL) <= 0) {
			return e.C.VarOf(a)
		}
	}
	key := x.P.Key()
	if v, ok := e.redKey[key]; ok {
		return v
	}
	a := e.C.newAtom(KRed, "")
	a.UB = MaxGL
	a.ArgM = x.P
	for k := range x.Sh {
		a.Sh[k].SetUint64(x.Sh[k])
	}
	v := e.C.VarOf(a)
	e.redKey[key] = v
	return v
}
func (e *Env) RX(x X) X { return e.X(e.Red(x)) }

// Inv names the inverse of a (non-zero) value.
func (e *Env) Inv(x X) X {
	v := e.Red(x)
	r := X{ns: e.C.NoSym}
	for k := range r.Sh {
		r.Sh[k] = invM(x.Sh[k])
	}
	for k := range x.Sh {
		if x.Sh[k] == 0 {
			e.C.DivByZero[k] = true
		}
	}
	if r.ns {
		return r
	}
	key := v.P.Key()
	if o, ok := e.invKey[key]; ok {
		return e.X(o)
	}
	a := e.C.newAtom(KInv, "")
	a.UB = MaxGL
	l := &Lift{}
	a.ArgM = l.ToM(v.P)
	for k := range r.Sh {
		a.Sh[k].SetUint64(r.Sh[k])
	}
	o := e.C.VarOf(a)
	e.invKey[key] = o
	return e.X(o)
}

// quadratic extension
type QX [2]X

func (a QX) Add(b QX) QX { return QX{a[0].Add(b[0]), a[1].Add(b[1])} }
func (a QX) Sub(b QX) QX { return QX{a[0].Sub(b[0]), a[1].Sub(b[1])} }
func (a QX) Mul(b QX) QX {
	return QX{a[0].Mul(b[0]).Add(a[1].Mul(b[1]).Scale(7)), a[0].Mul(b[1]).Add(a[1].Mul(b[0]))}
}
func (a QX) Scale(u uint64) QX { return QX{a[0].Scale(u), a[1].Scale(u)} }
func (a QX) MulX(b X) QX       { return QX{a[0].Mul(b), a[1].Mul(b)} }
func (e *Env) CQ(u uint64) QX  { return QX{e.CX(u), e.CX(0)} }
func (e *Env) RQ(a QX) QX      { return QX{e.RX(a[0]), e.RX(a[1])} }
func (e *Env) MulQ(a, b QX) QX { return e.RQ(a.Mul(b)) }
func (e *Env) QX(a [2]*Var) QX { return QX{e.X(a[0]), e.X(a[1])} }
func (e *Env) FromX(a X) QX    { return QX{a, e.CX(0)} }

// InvQ: inverse in the extension via the norm.
func (e *Env) InvQ(a QX) QX {
	a = e.RQ(a)
	n := e.RX(a[0].Mul(a[0]).Sub(a[1].Mul(a[1]).Scale(7)))
	i := e.Inv(n)
	return e.RQ(QX{a[0].Mul(i), a[1].Scale(GM - 1).Mul(i)})
}

// PowQ is a^n. The other common orders of multiplication are written down as well, and every power that
// occurs twice is identified (in a commutative ring a^i * a^j = a^(i+j)), so that the code may multiply in
// any of these orders.
func (e *Env) PowQ(a QX, n uint64) QX {
	pows := map[uint64]QX{1: a}
	mul := func(x, y QX, n uint64) QX { // x*y, which is a^n
		r := e.MulQ(x, y)
		o, ok := pows[n]
		if !ok {
			pows[n] = r
			return r
		}
		for i := range r {
			p, ok1 := r[i].P.SingleAtom()
			q, ok2 := o[i].P.SingleAtom()
			if e.C.NoSym || !ok1 || !ok2 || p == q {
				continue
			}
			if r[i].Sh != o[i].Sh {
				panic("harness: the orders of exponentiation differ")
			}
			if p < q {
				p, q = q, p
			}
			if e.C.Alias == nil {
				e.C.Alias = map[int]int{}
			}
			if _, ok := e.C.Alias[p]; !ok {
				e.C.Alias[p] = q
			}
		}
		return o
	}
	if n == 0 {
		return e.CQ(1)
	}
	top := bits.Len64(n) - 1
	sq := []QX{a}
	for i := 1; i <= top; i++ {
		sq = append(sq, mul(sq[i-1], sq[i-1], 1<<uint(i)))
	}
	var r QX
	m := uint64(0) // the bits multiplied so far
	step := func(i int) {
		if n>>uint(i)&1 == 0 {
			return
		}
		if m += 1 << uint(i); m == 1<<uint(i) {
			r = sq[i]
		} else {
			r = mul(r, sq[i], m)
		}
	}
	for i := 0; i <= top; i++ {
		step(i)
	}
	out := r
	if e.C.NoSym || n < 3 {
		return out
	}
	// the squares, multiplied from the most significant one
	m = 0
	for i := top; i >= 0; i-- {
		step(i)
	}
	// from the most significant bit, squaring and multiplying by a
	x := a
	for i := top - 1; i >= 0; i-- {
		k := n >> uint(i)
		x = mul(x, x, k&^1)
		if k&1 == 1 {
			x = mul(x, a, k)
		}
	}
	if n <= 64 { // one factor after the other
		x = a
		for i := uint64(2); i <= n; i++ {
			x = mul(x, a, i)
		}
	}
	return out
}

// inputs

func (e *Env) In(name string, ub *big.Int, native bool, lim *big.Int) *Var {
	if _, dup := e.ByName[name]; dup {
		panic("duplicate input " + name)
	}
	vals := make([]*big.Int, K)
	f, forced := e.Vals[name]
	for k := 0; k < K; k++ {
		r := new(big.Int).Rand(e.rng, lim)
		switch e.Extreme {
		case 1:
			r = new(big.Int).Sub(lim, one)
		case 2:
			r = new(big.Int)
		case 3:
			if r.Bit(3) == 0 {
				r = new(big.Int).Sub(lim, one)
			} else if r.Bit(4) == 0 {
				r = new(big.Int)
			}
		}
		if forced && f[k] != nil {
			r = f[k]
		}
		vals[k] = r
	}
	v := e.C.Input(name, ub, vals)
	e.Inputs = append(e.Inputs, v)
	e.Names = append(e.Names, name)
	e.ByName[name] = v
	e.Native[name] = native
	return v
}

// GL is a canonical Goldilocks input (assumed).
func (e *Env) GL(name string) *Var { return e.In(name, MaxGL, false, BigM) }

// GLRaw is a Goldilocks value the code itself has to range check.
func (e *Env) GLRaw(name string) *Var {
	v := e.In(name, nil, false, BigM)
	e.Bounds = append(e.Bounds, &BoundReq{v, MaxGL, name})
	// the specification may rely on it
	if !e.C.NoSym {
		id, _ := v.P.SingleAtom()
		e.C.Atoms[id].UB = MaxGL
		e.C.Atoms[id].exactLE = true
	}
	return v
}

// Raw is a value the code has to bound itself.
func (e *Env) Raw(name string, ub *big.Int) *Var {
	v := e.In(name, nil, false, new(big.Int).Add(ub, one))
	e.Bounds = append(e.Bounds, &BoundReq{v, ub, name})
	if !e.C.NoSym {
		id, _ := v.P.SingleAtom()
		e.C.Atoms[id].UB = ub
		e.C.Atoms[id].exactLE = true
	}
	return v
}
func (e *Env) Nat(name string) *Var { return e.In(name, nil, true, BigR) }
func (e *Env) Bounded(name string, ub *big.Int) *Var {
	return e.In(name, ub, false, new(big.Int).Add(ub, one))
}

// GLNZ is a canonical input assumed to be non zero.
func (e *Env) GLNZ(name string) *Var {
	v := e.GL(name)
	for k := range v.Sh {
		if v.Sh[k].IsZero() {
			e.C.DivByZero[k] = true
		}
	}
	if !e.C.NoSym {
		id, _ := v.P.SingleAtom()
		if e.C.NZ == nil {
			e.C.NZ = map[int]bool{}
		}
		e.C.NZ[id] = true
	}
	return v
}
func (e *Env) GLs(name string, n int) []*Var {
	out := make([]*Var, n)
	for i := range out {
		out[i] = e.GL(fmt.Sprintf("%s[%d]", name, i))
	}
	return out
}
func (e *Env) QE(name string) [2]*Var { return [2]*Var{e.GL(name + ".0"), e.GL(name + ".1")} }
func (e *Env) QEs(name string, n int) [][2]*Var {
	out := make([][2]*Var, n)
	for i := range out {
		out[i] = e.QE(fmt.Sprintf("%s[%d]", name, i))
	}
	return out
}
func (e *Env) Nats(name string, n int) []*Var {
	out := make([]*Var, n)
	for i := range out {
		out[i] = e.Nat(fmt.Sprintf("%s[%d]", name, i))
	}
	return out
}
func (e *Env) name(v *Var) string {
	for i, o := range e.Inputs {
		if o == v {
			return e.Names[i]
		}
	}
	panic("pivot is not an input")
}
func (e *Env) piv(vs []*Var) (out []string) {
	for _, v := range vs {
		out = append(out, e.name(v))
	}
	return
}

// requirements

func (e *Env) EqGL(name string, a, b X, pivots ...*Var) {
	d := a.Sub(b)
	q := &Eq{GL: true, PM: d.P, Name: name, Piv: e.piv(pivots)}
	for k := range d.Sh {
		q.Sh[k].SetUint64(d.Sh[k])
	}
	e.Eqs = append(e.Eqs, q)
}
func (e *Env) EqQ(name string, a, b QX, pivots ...[2]*Var) {
	for i := 0; i < 2; i++ {
		var pv []*Var
		for _, p := range pivots {
			pv = append(pv, p[i], p[1-i])
		}
		e.EqGL(fmt.Sprintf("%s.%d", name, i), a[i], b[i], pv...)
	}
}
func (e *Env) EqN(name string, a, b *Var, pivots ...*Var) {
	q := &Eq{P: e.C.subP(a.P, b.P), Name: name, Piv: e.piv(pivots)}
	for k := range q.Sh {
		q.Sh[k].Sub(&a.Sh[k], &b.Sh[k])
	}
	e.Eqs = append(e.Eqs, q)
}
func (e *Env) Bound(name string, v *Var, ub *big.Int) {
	e.Bounds = append(e.Bounds, &BoundReq{v, ub, name})
}
func (e *Env) OutGL(name string, x X, canonical bool) {
	e.Outs = append(e.Outs, &OutReq{GL: true, V: e.Red(x), X: x, Can: canonical, Name: name})
}
func (e *Env) OutQ(name string, a QX, canonical bool) {
	e.OutGL(name+".0", a[0], canonical)
	e.OutGL(name+".1", a[1], canonical)
}
func (e *Env) OutN(name string, v *Var) { e.Outs = append(e.Outs, &OutReq{V: v, Name: name}) }

// UF is an uninterpreted call shared by specification and code.
func (e *Env) UF(name string, args []*Var, n int, ub *big.Int, f func([]fr.Element) []fr.Element) []*Var {
	key := name
	if !e.C.NoSym {
		for _, a := range args {
			k := a.P.Key()
			key += fmt.Sprintf("|%d:", len(k)) + k
		}
		if o, ok := e.ufKey[key]; ok {
			return o
		}
	}
	var sh [K][]fr.Element
	for k := 0; k < K; k++ {
		in := make([]fr.Element, len(args))
		for i, a := range args {
			in[i] = a.Sh[k]
		}
		if e.Comp.Rom > 0 {
			sh[k] = e.rom(name, k, in, n, ub)
		} else {
			sh[k] = f(in)
		}
	}
	o := e.C.NewUF(name, args, n, ub, sh)
	if !e.C.NoSym {
		e.ufKey[key] = o
	}
	return o
}

// rom interprets an uninterpreted call as a random oracle: the answer to a new
// argument depends only on how many different arguments were asked before.
func (e *Env) rom(name string, k int, in []fr.Element, n int, ub *big.Int) []fr.Element {
	var key []byte
	for i := range in {
		x := frBig(&in[i])
		if ub == MaxGL {
			x.Mod(x, BigM)
		}
		var b [32]byte
		x.FillBytes(b[:])
		key = append(key, b[:]...)
	}
	at := fmt.Sprintf("%s|%d|", name, k)
	if e.romMemo == nil {
		e.romMemo, e.romN = map[string][]fr.Element{}, map[string]int{}
	}
	if o, ok := e.romMemo[at+string(key)]; ok {
		return o
	}
	out := make([]fr.Element, n)
	for i := range out {
		h := sha256.Sum256([]byte(fmt.Sprintf("%s%d|%d|%d", at, e.romN[at], i, e.Seed)))
		x := new(big.Int).SetBytes(h[:])
		switch {
		case ub == MaxGL && k == 0 && e.Comp.Rom < 64:
			x.Mod(x, new(big.Int).Lsh(one, uint(e.Comp.Rom)))
		case ub == MaxGL:
			x.Mod(x, BigM)
		default:
			x.Mod(x, BigR)
		}
		out[i].SetBigInt(x)
	}
	e.romN[at]++
	e.romMemo[at+string(key)] = out
	return out
}

type stopSpec struct{}

// Code runs the real code. It must be the last thing Build does.
func (e *Env) Code(f func(api frontend.API) []frontend.Variable) {
	e.NSpec = len(e.C.Atoms)
	if e.SpecOnly {
		panic(stopSpec{})
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stopSpec); ok {
					panic(r)
				}
				e.Panic = fmt.Sprint(r) + " at " + where2()
			}
		}()
		e.Codes = f(e.C.Api)
		e.C.RunDeferred()
	}()
}

type RunOpts struct {
	NoSym    bool
	SpecOnly bool
	Vals     map[string][K]*big.Int
	Override map[int][]*big.Int
	Seed     int64
	Extreme  int
	Where    bool
}

func (c *Comp) Run(o RunOpts) *Env {
	e := &Env{Comp: c, C: NewCtx(c.Mode, o.Seed), Seed: o.Seed, ByName: map[string]*Var{}, Native: map[string]bool{}, Vals: o.Vals,
		redKey: map[string]*Var{}, invKey: map[string]*Var{}, ufKey: map[string][]*Var{}, bitKey: map[string][]*Var{}, SpecOnly: o.SpecOnly, Extreme: o.Extreme}
	e.C.NoSym = o.NoSym
	e.C.Env = e
	e.C.HintOverride = o.Override
	e.C.KeepWhere = o.Where
	e.rng = rand.New(rand.NewSource(o.Seed*7919 + 17))
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stopSpec); !ok {
					panic(r)
				}
			}
		}()
		if c.Setup != nil {
			defer c.Setup(e)()
		}
		c.Build(e)
	}()
	return e
}

// ---- concrete judgement ----

func frBig(x *fr.Element) *big.Int { b := new(big.Int); return x.BigInt(b) }

func (a *AssertEv) Holds(k int) bool {
	v := frBig(&a.Sh[k])
	switch a.Kind {
	case AEq:
		return v.Sign() == 0
	case ABool:
		return v.Cmp(one) <= 0
	case ARange:
		return v.BitLen() <= a.Bits
	case ANeq:
		return v.Sign() != 0
	case ALeq:
		return v.Cmp(a.Bound) <= 0
	}
	return false
}

// Accepts reports whether the code accepts shadow k.
func (e *Env) Accepts(k int) (bool, string) {
	if e.Panic != "" {
		return false, "panic: " + e.Panic
	}
	for _, a := range e.C.Asserts {
		if !a.Holds(k) {
			return false, fmt.Sprintf("assertion #%d (kind %d) fails %s", a.Seq, a.Kind, a.Where)
		}
	}
	return true, ""
}

// OutDiff compares code outputs with the specification on shadow k.
func (e *Env) OutDiff(k int) string {
	if len(e.Codes) != len(e.Outs) {
		return fmt.Sprintf("code returned %d values, specification %d", len(e.Codes), len(e.Outs))
	}
	for i, o := range e.Outs {
		c := e.C.V(e.Codes[i])
		cv, sv := frBig(&c.Sh[k]), frBig(&o.V.Sh[k])
		if o.GL {
			if o.Can && cv.Cmp(BigM) >= 0 {
				return fmt.Sprintf("output %s is not canonical: %s", o.Name, cv)
			}
			if new(big.Int).Mod(cv, BigM).Cmp(new(big.Int).Mod(sv, BigM)) != 0 {
				return fmt.Sprintf("output %s: code %s, specification %s", o.Name, cv, sv)
			}
		} else if cv.Cmp(sv) != 0 {
			return fmt.Sprintf("output %s: code %s, specification %s", o.Name, cv, sv)
		}
	}
	return ""
}

// ---- solving the specification's equations on shadow 0 ----

// solve returns input values for which every equation of the specification
// holds on shadow 0, except equation `bad` (if >=0), which is off by one.
func (c *Comp) solve(base map[string][K]*big.Int, seed int64, extreme, bad int) (map[string][K]*big.Int, bool) {
	vals := map[string][K]*big.Int{}
	for k, v := range base {
		vals[k] = v
	}
	run := func() *Env {
		return c.Run(RunOpts{NoSym: true, SpecOnly: true, Vals: vals, Seed: seed, Extreme: extreme})
	}
	e := run()
	for i := 0; i < len(e.Eqs); i++ {
		target := new(big.Int)
		if i == bad {
			target.SetInt64(1)
		}
		cur := frBig(&e.Eqs[i].Sh[0])
		if cur.Cmp(target) == 0 {
			continue
		}
		ok := false
		for _, pv := range e.Eqs[i].Piv {
			mod := BigM
			if e.Native[pv] {
				mod = BigR
			}
			v0 := frBig(&e.ByName[pv].Sh[0])
			old, had := vals[pv]
			set := func(x *big.Int) {
				nv := old
				for k := 1; k < K; k++ {
					nv[k] = frBig(&e.ByName[pv].Sh[k])
				}
				nv[0] = x
				vals[pv] = nv
			}
			v1 := new(big.Int).Add(v0, one)
			v1.Mod(v1, mod)
			set(v1)
			e1 := run()
			emod := BigM
			if !e1.Eqs[i].GL {
				emod = BigR
			}
			slope := new(big.Int).Sub(frBig(&e1.Eqs[i].Sh[0]), cur)
			slope.Mod(slope, emod)
			if slope.Sign() != 0 {
				inv := new(big.Int).ModInverse(slope, emod)
				d := new(big.Int).Sub(target, cur)
				d.Mul(d, inv)
				x := new(big.Int).Add(v0, d)
				x.Mod(x, emod)
				set(x)
				e2 := run()
				good := frBig(&e2.Eqs[i].Sh[0]).Cmp(target) == 0
				for j := 0; j < i && good; j++ {
					want := int64(0)
					if j == bad {
						want = 1
					}
					if frBig(&e2.Eqs[j].Sh[0]).Cmp(big.NewInt(want)) != 0 {
						good = false
					}
				}
				if good {
					e = e2
					ok = true
					break
				}
			}
			if had {
				vals[pv] = old
			} else {
				delete(vals, pv)
			}
		}
		if !ok {
			if e2 := c.solveJoint(e, vals, i, bad, run); e2 != nil {
				e = e2
				continue
			}
			return nil, false
		}
	}
	return vals, true
}

// solveJoint: equations up to i that share pivots are linear in them; solve them together.
func (c *Comp) solveJoint(e *Env, vals map[string][K]*big.Int, i, bad int, run func() *Env) *Env {
	gl := e.Eqs[i].GL
	mod := BigR
	if gl {
		mod = BigM
	}
	piv, pset := []string{}, map[string]bool{}
	add := func(q *Eq) {
		for _, n := range q.Piv {
			if !pset[n] {
				pset[n] = true
				piv = append(piv, n)
			}
		}
	}
	add(e.Eqs[i])
	rows := []int{i}
	for j := i - 1; j >= 0; j-- {
		if e.Eqs[j].GL != gl {
			continue
		}
		for _, n := range e.Eqs[j].Piv {
			if pset[n] {
				add(e.Eqs[j])
				rows = append(rows, j)
				break
			}
		}
	}
	if len(piv) > 64 || len(rows) > 64 {
		return nil
	}
	saved := map[string][K]*big.Int{}
	for _, n := range piv {
		if v, ok := vals[n]; ok {
			saved[n] = v
		}
	}
	undo := func() *Env {
		for _, n := range piv {
			if v, ok := saved[n]; ok {
				vals[n] = v
			} else {
				delete(vals, n)
			}
		}
		return nil
	}
	cur := func(n string) [K]*big.Int {
		var v [K]*big.Int
		for k := range v {
			v[k] = frBig(&e.ByName[n].Sh[k])
		}
		return v
	}
	A := make([][]*big.Int, len(rows))
	for r, j := range rows {
		A[r] = make([]*big.Int, len(piv)+1)
		t := new(big.Int)
		if j == bad {
			t.SetInt64(1)
		}
		t.Sub(t, frBig(&e.Eqs[j].Sh[0]))
		A[r][len(piv)] = t.Mod(t, mod)
	}
	for x, n := range piv {
		v := cur(n)
		v[0] = new(big.Int).Add(v[0], one)
		v[0].Mod(v[0], mod)
		vals[n] = v
		e1 := run()
		if o, ok := saved[n]; ok {
			vals[n] = o
		} else {
			delete(vals, n)
		}
		for r, j := range rows {
			d := new(big.Int).Sub(frBig(&e1.Eqs[j].Sh[0]), frBig(&e.Eqs[j].Sh[0]))
			A[r][x] = d.Mod(d, mod)
		}
	}
	// Gauss
	col := make([]int, 0, len(rows))
	r := 0
	for x := 0; x < len(piv) && r < len(rows); x++ {
		k := r
		for k < len(rows) && A[k][x].Sign() == 0 {
			k++
		}
		if k == len(rows) {
			continue
		}
		A[r], A[k] = A[k], A[r]
		inv := new(big.Int).ModInverse(A[r][x], mod)
		for y := range A[r] {
			A[r][y] = new(big.Int).Mod(new(big.Int).Mul(A[r][y], inv), mod)
		}
		for k := range rows {
			if k != r && A[k][x].Sign() != 0 {
				f := new(big.Int).Set(A[k][x])
				for y := range A[k] {
					t := new(big.Int).Mul(f, A[r][y])
					A[k][y] = t.Mod(t.Sub(A[k][y], t), mod)
				}
			}
		}
		col = append(col, x)
		r++
	}
	for k := r; k < len(rows); k++ {
		if A[k][len(piv)].Sign() != 0 {
			return undo()
		}
	}
	for k, x := range col {
		v := cur(piv[x])
		v[0] = new(big.Int).Add(v[0], A[k][len(piv)])
		v[0].Mod(v[0], mod)
		vals[piv[x]] = v
	}
	e2 := run()
	for j := 0; j <= i; j++ {
		want := int64(0)
		if j == bad {
			want = 1
		}
		if frBig(&e2.Eqs[j].Sh[0]).Cmp(big.NewInt(want)) != 0 {
			return undo()
		}
	}
	return e2
}

// ---- the check of one component ----

type Result struct {
	Comp        string         `json:"component"`
	Status      string         `json:"status"` // proved, violated, inconclusive
	Detail      []string       `json:"detail,omitempty"`
	Atoms       int            `json:"symbolic_values"`
	Hints       int            `json:"hint_calls"`
	Asserts     int            `json:"constraints"`
	RangeProved int            `json:"range_clusters"`
	Defs        int            `json:"definitions_lifted"`
	Merged      int            `json:"values_matched"`
	Equations   int            `json:"equations_matched"`
	SpecEqs     int            `json:"spec_equations"`
	Outputs     int            `json:"outputs_proved"`
	Bounds      int            `json:"bounds_proved"`
	Lemmas      map[string]int `json:"lemmas,omitempty"`
	Witness     *Witness       `json:"witness,omitempty"`
	Replays     int            `json:"concrete_replays"`
}
type Witness struct {
	Component string              `json:"component"`
	What      string              `json:"what"`
	Inputs    map[string]string   `json:"inputs"`
	Overrides map[string][]string `json:"hint_overrides,omitempty"`
	Seed      int64               `json:"seed"`
	Extreme   int                 `json:"extreme,omitempty"`
	Expect    string              `json:"expect"`
}

func (e *Env) witness(what, expect string, ov map[int][]*big.Int) *Witness {
	w := &Witness{Component: e.Comp.Name, What: what, Inputs: map[string]string{}, Seed: e.Seed, Extreme: e.Extreme, Expect: expect}
	for i, v := range e.Inputs {
		w.Inputs[e.Names[i]] = frBig(&v.Sh[0]).String()
	}
	if len(ov) > 0 {
		w.Overrides = map[string][]string{}
		for s, o := range ov {
			var ss []string
			for _, b := range o {
				ss = append(ss, b.String())
			}
			w.Overrides[fmt.Sprint(s)] = ss
		}
	}
	return w
}

type Checker struct {
	S        *Solver
	Seed     int64
	Thorough bool
	Verbose  bool
}

func (c *Comp) owns(name string) bool { return c.Own == nil || c.Own(name) }

// ownsReject: the first failing constraint of the concrete run x, looked up in the symbolic run e.
func (c *Comp) ownsReject(e, x *Env) bool {
	if c.OwnReject == nil || x.Panic != "" {
		return true
	}
	for i, a := range x.C.Asserts {
		if !a.Holds(0) && i < len(e.C.Asserts) {
			return c.OwnReject(e.C.namesOf(e.C.Asserts[i].P))
		}
	}
	return false
}

// namesOf: the inputs and uninterpreted calls a polynomial is about.
func (c *Ctx) namesOf(p Poly) map[string]bool {
	out, seen := map[string]bool{}, map[int]bool{}
	var walk func(p Poly)
	walk = func(p Poly) {
		for _, id := range atomsOf(p) {
			if seen[id] {
				continue
			}
			seen[id] = true
			a := c.Atoms[id]
			switch a.Kind {
			case KInput, KUF:
				out[a.Name] = true
			case KHint:
				for _, q := range a.Hint.Ins {
					walk(q)
				}
			default:
				walk(a.Arg)
			}
		}
	}
	walk(p)
	return out
}

func harnessPanic(p string) bool {
	return strings.Contains(p, "not modelled") || strings.Contains(p, "unsupported") || strings.Contains(p, "unexpected lookup table")
}

func (ck *Checker) Check(c *Comp) *Result {
	res := &Result{Comp: c.Name, Status: "proved"}
	detail := func(f string, a ...any) { res.Detail = append(res.Detail, fmt.Sprintf(f, a...)) }
	violated := func(w *Witness) *Result {
		res.Status = "violated"
		res.Witness = w
		return res
	}
	vals, ok := c.solve(nil, ck.Seed, 0, -1)
	if !ok {
		vals = nil
		detail("the specification's equations could not be solved for a concrete example")
	}
	e := c.Run(RunOpts{Vals: vals, Seed: ck.Seed, Where: true})
	res.Atoms, res.Hints, res.Asserts, res.SpecEqs = len(e.C.Atoms), len(e.C.Hints), len(e.C.Asserts), len(e.Eqs)
	if e.Panic != "" {
		if harnessPanic(e.Panic) {
			res.Status = "inconclusive"
			detail("%s", e.Panic)
			return res
		}
		if c.MayPanic {
			detail("refused: %s", e.Panic)
			return res
		}
		return violated(e.witness("the code panics on a well-formed input: "+e.Panic, "panic", nil))
	}
	if c.Reject {
		// every input: some assertion folds to a false constant
		l := NewLift(e.C, ck.S, e.NSpec)
		l.Run()
		for _, r := range l.Resid {
			if !r.GL {
				if _, isC := r.P.IsConst(); isC {
					res.Equations++
					return res
				}
			}
		}
		if acc, _ := e.Accepts(0); acc {
			return violated(e.witness("an input that must be refused is accepted", "accept", nil))
		}
		res.Status = "inconclusive"
		detail("refusal not shown for every input")
		return res
	}
	judge := func(x *Env, expectAccept bool) *Witness {
		if x.Panic != "" && !harnessPanic(x.Panic) {
			return x.witness("the code panics on a well-formed input: "+x.Panic, "panic", nil)
		}
		if expectAccept && !degenerate(x) {
			if acc, why := x.Accepts(0); !acc && c.ownsReject(e, x) {
				return x.witness("a valid input is rejected: "+why, "reject", nil)
			}
		}
		for k := 0; k < K; k++ {
			if k > 0 && !c.AllShadows {
				break
			}
			if x.C.DivByZero[k] { // outside the domain of the specification
				continue
			}
			if d := x.OutDiff(k); d != "" {
				w := x.witness(d, "outdiff", nil)
				if k > 0 {
					for i, v := range x.Inputs {
						w.Inputs[x.Names[i]] = frBig(&v.Sh[k]).String()
					}
				}
				return w
			}
		}
		return nil
	}
	if vals != nil {
		for _, h := range e.C.HintFail {
			if strings.Contains(h, "shadow 0") && c.Own == nil {
				return violated(e.witness("an honest hint fails on a valid input: "+h, "hintfail", nil))
			}
		}
	}
	if w := judge(e, vals != nil); w != nil {
		return violated(w)
	}

	l := NewLift(e.C, ck.S, e.NSpec)
	l.trace = os.Getenv("TRACE") != ""
	// bounds that the code has to establish itself are not assumed
	for _, b := range e.Bounds {
		if id, ok := b.V.P.SingleAtom(); ok && e.C.Atoms[id].exactLE {
			e.C.Atoms[id].UB = nil
		}
	}
	for _, v := range e.Codes {
		l.Outs = append(l.Outs, e.C.V(v).P)
	}
	l.Run()
	// bounds
	var missing, tight []*BoundReq
	for _, b := range e.Bounds {
		id, _ := b.V.P.SingleAtom()
		ub := l.UB[id]
		if r := l.rep[id]; r != id && l.UB[r] != nil && (ub == nil || ub.Cmp(l.UB[r]) > 0) {
			ub = l.UB[r]
		}
		if ub == nil || ub.Cmp(b.UB) > 0 {
			// another name of the same value
			me := l.norm(PAtom(id))
			for a := range l.rep {
				if a != id && l.UB[a] != nil && (ub == nil || ub.Cmp(l.UB[a]) > 0) && e.C.Atoms[a].Kind == KUF && l.norm(PAtom(a)).Key() == me.Key() {
					ub = l.UB[a]
				}
				if a != id && l.rep[a] == l.rep[id] && l.UB[a] != nil && (ub == nil || ub.Cmp(l.UB[a]) > 0) {
					ub = l.UB[a]
				}
			}
		}
		if ub == nil || ub.Cmp(b.UB) > 0 {
			missing = append(missing, b)
			detail("no bound %s <= %s follows from the constraints", b.Name, b.UB)
		} else {
			res.Bounds++
			if ub.Cmp(b.UB) < 0 {
				detail("bound on %s is tighter than required: %s", b.Name, ub)
				tight = append(tight, b)
			}
		}
	}
	res.RangeProved, res.Defs, res.Merged, res.Lemmas = l.Clusters, l.Defs, l.Merged, l.Lemmas
	// outputs
	var badOut []int
	for i, o := range e.Outs {
		cv := e.C.V(e.Codes[i])
		good := false
		if o.GL {
			good = l.EqualM(cv.P, o.V.P)
			if good && o.Can && !l.canonOut(cv.P) {
				good = false
				detail("output %s is not shown to be canonical", o.Name)
			}
		} else {
			good = l.EqualN(cv.P, o.V.P)
		}
		if good {
			res.Outputs++
		} else {
			badOut = append(badOut, i)
			if len(badOut) < 5 {
				detail("output %s not matched", o.Name)
			}
		}
	}
	// equations
	used := make([]bool, len(l.Resid))
	keys := map[string][]int{}
	for i, r := range l.Resid {
		keys[residKey(r)] = append(keys[residKey(r)], i)
	}
	var unEq []int
	for i, q := range e.Eqs {
		r := &Resid{GL: q.GL, Sh: q.Sh}
		if q.GL {
			r.PM = l.normM(q.PM)
		} else {
			r.P = l.norm(q.P)
		}
		if (q.GL && len(r.PM) == 0) || (!q.GL && len(r.P) == 0) {
			res.Equations++
			continue
		}
		hit := -1
		if js := keys[residKey(r)]; len(js) > 0 {
			for _, j := range js {
				used[j] = true
			}
			hit = js[0]
		} else {
			for j, x := range l.Resid {
				if used[j] || x.GL != r.GL {
					continue
				}
				if l.sameEq(r, x) {
					used[j] = true
					hit = j
					break
				}
			}
		}
		if hit < 0 {
			unEq = append(unEq, i)
			if len(unEq) < 8 {
				detail("required equation %s not found among the constraints", q.Name)
			}
		} else {
			res.Equations++
		}
	}
	extra := 0
	for i, r := range l.Resid {
		if !used[i] {
			extra++
			if extra < 6 {
				detail("constraint #%d (%s) is not one the specification asks for", r.Seq, r.Where)
			}
		}
	}
	for i, p := range l.Pending {
		if i < 6 {
			detail("constraint #%d (kind %d, %s) could not be interpreted", p.Seq, p.Kind, p.Where)
		}
	}
	for _, q := range e.C.Calls {
		if q.Name != "posGL" {
			continue
		}
		for _, a := range q.Args {
			if !l.canonOut(a) {
				detail("a Goldilocks Poseidon input is not shown to be canonical")
				break
			}
		}
	}
	for i, x := range l.strict {
		if i < 4 {
			detail("the range check of %s%d is not shown to admit every value up to its bound", e.C.Atoms[x].Name, x)
		}
	}
	susp := l.suspicious(e)
	if len(l.Incomplete()) > 0 {
		detail("%d reductions may not leave room for the honest quotient", len(l.Incomplete()))
	}
	clean := len(missing) == 0 && len(tight) == 0 && len(badOut) == 0 && len(unEq) == 0 && extra == 0 && len(l.Pending) == 0 && len(l.Incomplete()) == 0 && len(susp) == 0 && len(l.strict) == 0
	if ck.Verbose {
		for _, n := range l.Notes {
			detail("note: %s", n)
		}
	}
	if clean && vals != nil && !ck.Thorough {
		return res
	}
	if !clean {
		res.Status = "inconclusive"
	}
	// ---- look for a concrete counterexample ----
	try := func(vals map[string][K]*big.Int, ov map[int][]*big.Int, seed int64, ext int) *Env {
		res.Replays++
		return c.Run(RunOpts{NoSym: true, Vals: vals, Override: ov, Seed: seed, Extreme: ext})
	}
	// missing equations
	todo := unEq
	if ck.Thorough && clean {
		todo = nil
		for i := range e.Eqs {
			todo = append(todo, i)
		}
	}
	for n, i := range todo {
		if n > 60 {
			break
		}
		if !c.owns(e.Eqs[i].Name) {
			continue
		}
		v2, ok := c.solve(nil, ck.Seed, 0, i)
		if !ok {
			continue
		}
		x := try(v2, nil, ck.Seed, 0)
		if acc, _ := x.Accepts(0); acc {
			w := x.witness(fmt.Sprintf("accepted although %s is violated (off by %s)", e.Eqs[i].Name, frBig(&x.Eqs[i].Sh[0])), "accept", nil)
			return violated(w)
		}
	}
	if len(unEq) > 0 && vals != nil {
		if w := ck.codeSolve(c, e, unEq, vals, try); w != nil {
			return violated(w)
		}
	}
	// missing bounds
	for n, b := range missing {
		if n > 24 {
			break
		}
		if !c.owns(b.Name) {
			continue
		}
		if w := ck.outOfRange(c, e, l, b, vals, &res.Replays); w != nil {
			return violated(w)
		}
	}
	// bounds tighter than required: the edge must be accepted
	for n, b := range tight {
		if n > 8 || !c.owns(b.Name) {
			continue
		}
		for _, v := range []*big.Int{b.UB, new(big.Int).Sub(b.UB, one)} {
			v2, ok := c.solve(map[string][K]*big.Int{b.Name: {v}}, ck.Seed, 0, -1)
			if !ok {
				continue
			}
			x := try(v2, nil, ck.Seed, 0)
			if in := x.ByName[b.Name]; in == nil || frBig(&in.Sh[0]).Cmp(v) != 0 || degenerate(x) {
				continue
			}
			if w := judge(x, true); w != nil {
				return violated(w)
			}
		}
	}
	// values that a range check rejects
	for n, x := range l.strict {
		in := e.inputOf(x)
		if v := l.strictVal[x]; v != nil && in != "" && n < 24 {
			v2, ok := c.solve(map[string][K]*big.Int{in: {v}}, ck.Seed, 0, -1)
			if !ok {
				continue
			}
			y := try(v2, nil, ck.Seed, 0)
			if i := y.ByName[in]; i == nil || frBig(&i.Sh[0]).Cmp(v) != 0 || degenerate(y) {
				continue
			}
			if w := judge(y, true); w != nil {
				return violated(w)
			}
		}
	}
	// under-determined hints
	for n, h := range susp {
		if n > 24 {
			break
		}
		if w := ck.altWitness(c, e, l, h, vals, &res.Replays); w != nil {
			return violated(w)
		}
	}
	// other concrete inputs: extremes, steering on the discrete choices
	if len(badOut) > 0 || extra > 0 || len(l.Pending) > 0 || len(l.Incomplete()) > 0 || len(l.strict) > 0 || ck.Thorough {
		for _, ext := range []int{1, 2, 3, 3, 3, 0, 0} {
			seed := ck.Seed + int64(res.Replays)*13 + 5
			v2, ok := c.solve(nil, seed, ext, -1)
			if !ok {
				continue
			}
			x := try(v2, nil, seed, ext)
			if ext != 0 && len(x.C.HintFail) > 0 {
				hf := false
				for _, h := range x.C.HintFail {
					if strings.Contains(h, "shadow 0") {
						hf = true
					}
				}
				if hf && degenerate(x) {
					continue
				}
			}
			if degenerate(x) {
				continue
			}
			if w := judge(x, true); w != nil {
				return violated(w)
			}
		}
	}
	if !clean {
		if w := ck.steer(c, e, l, badOut, unEq, &res.Replays, judge); w != nil {
			return violated(w)
		}
	}
	return res
}

// codeSolve looks for inputs that satisfy the code's own equations, which may be other than the specification's:
// the constraints that react to the pivots of the missing equations are solved as linear equations in them.
func (ck *Checker) codeSolve(c *Comp, e *Env, unEq []int, vals map[string][K]*big.Int, try func(map[string][K]*big.Int, map[int][]*big.Int, int64, int) *Env) *Witness {
	var piv []string
	seen := map[string]bool{}
	gl, own := true, false
	for _, i := range unEq {
		gl = gl && e.Eqs[i].GL
		own = own || c.owns(e.Eqs[i].Name)
		for _, n := range e.Eqs[i].Piv {
			if !seen[n] && len(piv) < 32 {
				seen[n] = true
				piv = append(piv, n)
			}
			gl = gl && !e.Native[n]
		}
	}
	if !gl || !own || len(piv) < 2 {
		return nil
	}
	half := new(big.Int).Rsh(BigR, 1)
	val := func(a *AssertEv) *big.Int {
		v := frBig(&a.Sh[0])
		if v.Cmp(half) > 0 {
			v.Sub(v, BigR)
		}
		return v.Mod(v, BigM)
	}
	t0 := time.Now()
	base := try(vals, nil, ck.Seed, 0)
	if base.Panic != "" {
		return nil
	}
	if d := time.Since(t0); d*time.Duration(len(piv)) > 150*time.Second {
		piv = piv[:max(2, int(150*time.Second/d))]
	}
	shifted := func(d []*big.Int) map[string][K]*big.Int {
		v2 := map[string][K]*big.Int{}
		for k, v := range vals {
			v2[k] = v
		}
		for x, n := range piv {
			if d[x].Sign() == 0 {
				continue
			}
			var v [K]*big.Int
			for k := range v {
				v[k] = frBig(&base.ByName[n].Sh[k])
			}
			v[0] = new(big.Int).Add(v[0], d[x])
			v[0].Mod(v[0], BigM)
			v2[n] = v
		}
		return v2
	}
	zero := func() []*big.Int {
		d := make([]*big.Int, len(piv))
		for i := range d {
			d[i] = new(big.Int)
		}
		return d
	}
	row := map[int]int{}
	var rows [][]*big.Int
	for i, a := range base.C.Asserts {
		if !a.Holds(0) {
			if a.Kind != AEq {
				return nil
			}
			r := append(zero(), new(big.Int))
			r[len(piv)].Sub(BigM, val(a))
			row[i] = len(rows)
			rows = append(rows, r)
		}
	}
	for x := range piv {
		d := zero()
		d[x].SetInt64(1)
		y := try(shifted(d), nil, ck.Seed, 0)
		if y.Panic != "" || len(y.C.Asserts) != len(base.C.Asserts) {
			return nil
		}
		for i, a := range y.C.Asserts {
			_, have := row[i]
			if !have && a.Holds(0) {
				continue
			}
			if a.Kind != AEq {
				return nil
			}
			if !have {
				row[i] = len(rows)
				rows = append(rows, append(zero(), new(big.Int)))
				if len(rows) > 200 {
					return nil
				}
			}
			t := new(big.Int).Sub(val(a), val(base.C.Asserts[i]))
			rows[row[i]][x] = t.Mod(t, BigM)
		}
	}
	// reduced row echelon form
	np := len(piv)
	var lead []int
	r := 0
	for x := 0; x < np && r < len(rows); x++ {
		k := r
		for k < len(rows) && rows[k][x].Sign() == 0 {
			k++
		}
		if k == len(rows) {
			continue
		}
		rows[r], rows[k] = rows[k], rows[r]
		inv := new(big.Int).ModInverse(rows[r][x], BigM)
		for y := range rows[r] {
			rows[r][y] = new(big.Int).Mod(new(big.Int).Mul(rows[r][y], inv), BigM)
		}
		for k := range rows {
			if k != r && rows[k][x].Sign() != 0 {
				f := new(big.Int).Set(rows[k][x])
				for y := range rows[k] {
					t := new(big.Int).Mul(f, rows[r][y])
					rows[k][y] = t.Mod(t.Sub(rows[k][y], t), BigM)
				}
			}
		}
		lead = append(lead, x)
		r++
	}
	isLead := map[int]bool{}
	for _, x := range lead {
		isLead[x] = true
	}
	tried := 0
	for f := 0; f <= np && tried < 12; f++ {
		if f < np && isLead[f] {
			continue
		}
		d := zero()
		for x := range d {
			if !isLead[x] && (x == f || f == np) {
				d[x].SetInt64(int64(7*x + 3))
			}
		}
		for k, x := range lead {
			t := new(big.Int).Set(rows[k][np])
			for y := 0; y < np; y++ {
				if y != x && d[y].Sign() != 0 && !isLead[y] {
					t.Sub(t, new(big.Int).Mul(rows[k][y], d[y]))
				}
			}
			d[x] = t.Mod(t, BigM)
		}
		tried++
		x := try(shifted(d), nil, ck.Seed, 0)
		if acc, _ := x.Accepts(0); !acc {
			continue
		}
		for _, i := range unEq {
			if v := frBig(&x.Eqs[i].Sh[0]); v.Sign() != 0 && c.owns(e.Eqs[i].Name) {
				return x.witness(fmt.Sprintf("accepted although %s is violated (off by %s)", e.Eqs[i].Name, v), "accept", nil)
			}
		}
	}
	return nil
}

// degenerate: the specification divides by zero on shadow 0, so the input is outside its domain.
func degenerate(x *Env) bool {
	return x.C.DivByZero[0]
}

func residKey(r *Resid) string {
	if r.GL {
		return "g" + r.PM.Monic().Key()
	}
	m, _ := r.P.Monic()
	return "n" + m.Key()
}

// sameEq: x is c times r for a constant c, read off the random shadows and then proved.
func (l *Lift) sameEq(r, x *Resid) bool {
	if r.GL {
		a, b := l.C.EvalShM(r.PM), l.C.EvalShM(x.PM)
		if K > 2 && a[1] != 0 && b[1] != 0 && a[2] != 0 && b[2] != 0 {
			c := mulM(b[1], invM(a[1]))
			if mulM(c, a[2]) != b[2] {
				return false
			}
			return l.prove(x.PM.Sub(r.PM.Scale(c)))
		}
		return false
	}
	a, b := l.C.EvalSh(r.P), l.C.EvalSh(x.P)
	if a[1].IsZero() || b[1].IsZero() || a[2].IsZero() {
		return false
	}
	var c, t fr.Element
	c.Div(&b[1], &a[1])
	t.Mul(&c, &a[2])
	if !t.Equal(&b[2]) {
		return false
	}
	return l.proveN(l.norm(x.P.Sub(r.P.Scale(c))))
}

// canonOut: the value lies in [0,M).
func (l *Lift) canonOut(p Poly) bool {
	p = l.norm(p)
	if c, ok := p.IsConst(); ok {
		return frBig(&c).Cmp(BigM) < 0
	}
	if id, ok := p.SingleAtom(); ok && l.canonical(id) {
		return true
	}
	lo, hi := l.ivlP(p)
	if lo == nil {
		return false
	}
	if lo.Sign() >= 0 && hi.Cmp(MaxGL) <= 0 {
		return true
	}
	q := NewQ("canonical-output")
	ok := true
	fp := l.flat(p)
	s := l.exactSum(q, fp, &ok)
	q.Assert("(or (< %s 0) (>= %s %s))", s, s, BigM.String())
	return ok && l.S.Check(q) == "unsat"
}

// suspicious lists hint calls whose outputs matter but are not pinned down.
func (l *Lift) suspicious(e *Env) []*HintEv {
	use := map[int]bool{}
	var visit func(a int)
	visit = func(a int) {
		if a >= len(l.rep) {
			return
		}
		if use[a] {
			return
		}
		use[a] = true
		at := l.C.Atoms[a]
		if l.hasDef[a] {
			for i := range l.def[a] {
				for mm, jj := l.def[a][i].M, 0; jj < len(mm); jj += 4 {
					y := atomAt(mm, jj)
					visit(y)
				}
			}
		}
		for _, y := range atomsOf(at.Arg) {
			visit(y)
		}
		if at.Call != nil {
			for _, p := range at.Call.Args {
				for _, y := range atomsOf(p) {
					visit(y)
				}
			}
		}
	}
	for _, c := range e.Codes {
		for _, a := range atomsOf(l.norm(e.C.V(c).P)) {
			visit(a)
		}
	}
	for _, r := range l.Resid {
		for _, a := range atomsOf(r.P) {
			visit(a)
		}
		for i := range r.PM {
			for mm, jj := r.PM[i].M, 0; jj < len(mm); jj += 4 {
				a := atomAt(mm, jj)
				visit(a)
			}
		}
	}
	for _, q := range l.C.Calls {
		for _, p := range q.Args {
			for _, a := range atomsOf(p) {
				visit(a)
			}
		}
	}
	for _, p := range l.Pending {
		for _, a := range atomsOf(p.P) {
			visit(a)
		}
	}
	seen := map[int]bool{}
	var out []*HintEv
	for _, a := range sortedKeys(use) {
		at := l.C.Atoms[a]
		if at.Kind == KHint && !l.hasDef[a] && !l.quot[a] && !seen[at.Hint.Seq] {
			if _, isC := l.cst[a]; isC {
				continue
			}
			seen[at.Hint.Seq] = true
			out = append(out, at.Hint)
		}
	}
	return out
}

func (l *Lift) Incomplete() []*AssertEv { return l.incomplete }

// closure of atoms computed from the seeds: by hints fed only from the set, and up to
// wide steps away by hints whose other inputs do not depend on the seeds.
func (l *Lift) closure(seeds []int, wide int) (set map[int]bool, taint map[int]bool) {
	c := l.C
	set = map[int]bool{}
	taint = map[int]bool{}
	level := map[int]int{}
	for _, s := range seeds {
		set[s], taint[s] = true, true
	}
	join := func(i int, ps ...Poly) {
		any, all, lv := false, true, 0
		out := false
		for _, p := range ps {
			for _, y := range atomsOf(p) {
				if taint[y] {
					any = true
					if !set[y] {
						out = true
					}
				}
				if !set[y] {
					all = false
				} else {
					lv = max(lv, level[y])
				}
			}
		}
		if !any {
			return
		}
		taint[i] = true
		if !all {
			lv++
		}
		if !out && (all || lv <= wide) {
			set[i] = true
			level[i] = lv
		}
	}
	hintDone := map[int]bool{}
	for i := range c.Atoms {
		a := c.Atoms[i]
		switch a.Kind {
		case KHint:
			if set[i] || hintDone[a.Hint.Seq] && !taint[i] && !set[i] {
				continue
			}
			join(i, a.Hint.Ins...)
		case KIsZero, KBit:
			// a bit of a computed value joins the set as before
			join(i, a.Arg)
		case KPoly:
			join(i, a.Arg)
			if taint[i] && !set[i] {
				out := false
				lv := 0
				for _, y := range atomsOf(a.Arg) {
					if taint[y] && !set[y] {
						out = true
					}
					lv = max(lv, level[y])
				}
				if !out && wide > 0 {
					set[i] = true
					level[i] = lv
				}
			}
		case KUF:
			for _, p := range a.Call.Args {
				for _, y := range atomsOf(p) {
					if taint[y] {
						taint[i] = true
					}
				}
			}
		}
	}
	return
}

// concretise replaces atoms outside the set by their shadow-0 values.
func (l *Lift) concretise(p Poly, set map[int]bool) Poly {
	p = l.flatKeep(p, set)
	acc := map[string]fr.Element{}
	for i := range p {
		c := p[i].C
		var keep []int
		for mm, jj := p[i].M, 0; jj < len(mm); jj += 4 {
			a := atomAt(mm, jj)
			if set[a] {
				keep = append(keep, a)
			} else {
				c.Mul(&c, &l.C.Atoms[a].Sh[0])
			}
		}
		m := monoFrom(keep)
		if o, ok := acc[m]; ok {
			c.Add(&c, &o)
		}
		acc[m] = c
	}
	return polyFromMap(acc)
}
func (l *Lift) flatKeep(p Poly, set map[int]bool) Poly {
	var out Poly
	for i := range p {
		t := PConst(p[i].C)
		for mm, jj := p[i].M, 0; jj < len(mm); jj += 4 {
			a := atomAt(mm, jj)
			if l.C.Atoms[a].Kind == KPoly && set[a] {
				t = t.MulExpand(l.flatKeep(l.C.Atoms[a].Arg, set))
			} else {
				t = t.MulExpand(PAtom(a))
			}
		}
		out = out.Add(t)
	}
	return out
}

// freeQuery encodes every assertion that mentions the set and nothing computed further on.
func (l *Lift) freeQuery(q *Q, seeds []int, wide int) (set map[int]bool, ok bool) {
	set, taint := l.closure(seeds, wide)
	var as []*AssertEv
	for _, e := range l.C.Asserts {
		in, bad := false, false
		for _, a := range atomsOf(e.P) {
			if set[a] {
				in = true
			} else if taint[a] {
				bad = true
			}
		}
		if in && !bad {
			x := *e
			x.P = l.concretise(e.P, set)
			as = append(as, &x)
		}
	}
	if len(as) > 400 {
		return set, false
	}
	saved := map[int]Poly{}
	for a := range set {
		at := l.C.Atoms[a]
		if at.Kind == KIsZero || at.Kind == KBit {
			saved[a] = at.Arg
			at.Arg = l.concretise(at.Arg, set)
		}
	}
	defer func() {
		for a, p := range saved {
			l.C.Atoms[a].Arg = p
		}
	}()
	ok = l.clusterQuery(q, seeds[0], as)
	return set, ok
}

func (l *Lift) overrides(set map[int]bool, m map[int]*big.Int) map[int][]*big.Int {
	ov := map[int][]*big.Int{}
	for a := range set {
		at := l.C.Atoms[a]
		if at.Kind != KHint {
			continue
		}
		if _, done := ov[at.Hint.Seq]; done {
			continue
		}
		var outs []*big.Int
		for _, o := range at.Hint.Outs {
			if v, ok := m[o]; ok {
				outs = append(outs, new(big.Int).Mod(v, BigR))
			} else {
				outs = append(outs, frBig(&l.C.Atoms[o].Sh[0]))
			}
		}
		ov[at.Hint.Seq] = outs
	}
	return ov
}

// altWitness: can a dishonest prover give this hint call other outputs?
func (ck *Checker) altWitness(c *Comp, e *Env, l *Lift, h *HintEv, vals map[string][K]*big.Int, replays *int) *Witness {
	last := map[int]int{}
	for pass := 0; pass < 6; pass++ {
		for _, o := range h.Outs {
			if l.hasDef[o] || (l.quot[o] && pass%2 == 0) {
				continue
			}
			q := NewQ("alternative-witness")
			set, ok := l.freeQuery(q, h.Outs, pass/2)
			if !ok || pass > 1 && last[o*2+pass%2] == len(set) {
				continue
			}
			last[o*2+pass%2] = len(set)
			q.Int(o, new(big.Int), l.ubOrR(o))
			q.Assert("(not (= %s %s))", q.names[o], frBig(&l.C.Atoms[o].Sh[0]).String())
			if pass%2 == 1 {
				q.Assert("(not (= (mod (- %s %s) %s) 0))", q.names[o], frBig(&l.C.Atoms[o].Sh[0]).String(), BigM.String())
			}
			r, m := ck.S.Model(q)
			if r != "sat" {
				continue
			}
			ov := l.overrides(set, m)
			*replays++
			x := c.Run(RunOpts{NoSym: true, Vals: vals, Override: ov, Seed: ck.Seed})
			if acc, _ := x.Accepts(0); !acc {
				continue
			}
			if d := x.OutDiff(0); d != "" && !degenerate(x) {
				return x.witness(fmt.Sprintf("a dishonest prover's answer to hint #%d (%s) is accepted: %s", h.Seq, h.Fn, d), "accept-outdiff", ov)
			}
			if len(x.Outs) == 0 && c.Own == nil {
				return x.witness(fmt.Sprintf("hint #%d (%s) accepts more than one answer for the same inputs", h.Seq, h.Fn), "accept-alternative", ov)
			}
		}
	}
	return nil
}

// outOfRange: an input outside its required range that the code accepts.
func (ck *Checker) outOfRange(c *Comp, e *Env, l *Lift, b *BoundReq, vals map[string][K]*big.Int, replays *int) *Witness {
	id, ok := b.V.P.SingleAtom()
	if !ok {
		return nil
	}
	at := l.C.Atoms[id]
	if at.Kind != KInput {
		// a computed value: some input assignment must drive it out of range
		for s := int64(1); s < 40; s++ {
			*replays++
			v2, ok := c.solve(nil, ck.Seed+s, 0, -1)
			if !ok {
				continue
			}
			x := c.Run(RunOpts{NoSym: true, Vals: v2, Seed: ck.Seed + s})
			for _, bb := range x.Bounds {
				if bb.Name == b.Name && frBig(&bb.V.Sh[0]).Cmp(bb.UB) > 0 {
					if acc, _ := x.Accepts(0); acc {
						return x.witness(fmt.Sprintf("%s = %s exceeds %s and is accepted", b.Name, frBig(&bb.V.Sh[0]), bb.UB), "accept", nil)
					}
				}
			}
		}
		return nil
	}
	cur := frBig(&at.Sh[0])
	cands := []*big.Int{}
	q := NewQ("out-of-range-input")
	set, okq := l.freeQuery(q, []int{id}, 0)
	var model map[int]*big.Int
	if okq {
		q.Assert("(> %s %s)", q.names[id], b.UB.String())
		if r, m := ck.S.Model(q); r == "sat" {
			model = m
			cands = append(cands, m[id])
		}
	}
	cands = append(cands, new(big.Int).Add(cur, BigM), new(big.Int).Set(BigM), new(big.Int).Add(b.UB, one), new(big.Int).Lsh(one, 64))
	for i, v := range cands {
		if v.Cmp(b.UB) <= 0 {
			continue
		}
		base := map[string][K]*big.Int{}
		base[b.Name] = [K]*big.Int{v}
		v2, ok := c.solve(base, ck.Seed, 0, -1)
		if !ok {
			v2 = map[string][K]*big.Int{}
			for k, x := range vals {
				v2[k] = x
			}
			nv := v2[b.Name]
			nv[0] = v
			v2[b.Name] = nv
		}
		var ov map[int][]*big.Int
		if i == 0 && model != nil {
			ov = l.overrides(set, model)
		}
		*replays++
		x := c.Run(RunOpts{NoSym: true, Vals: v2, Override: ov, Seed: ck.Seed})
		if acc, _ := x.Accepts(0); acc && frBig(&x.ByName[b.Name].Sh[0]).Cmp(b.UB) > 0 {
			return x.witness(fmt.Sprintf("%s = %s is out of range (> %s) and is accepted", b.Name, v, b.UB), "accept", ov)
		}
	}
	return nil
}

// steer asks the solver for values of the discrete choices (bits) under which code and specification differ,
// and drives the inputs there.
func (ck *Checker) steer(c *Comp, e *Env, l *Lift, badOut, unEq []int, replays *int, judge func(*Env, bool) *Witness) *Witness {
	var diffs []Poly
	for _, i := range badOut {
		diffs = append(diffs, l.norm(e.C.V(e.Codes[i]).P).Sub(l.norm(e.Outs[i].V.P)))
	}
	type un struct {
		r  *Resid
		sq int
	}
	for _, i := range unEq {
		var sp Poly
		if !e.Eqs[i].GL {
			sp = l.norm(e.Eqs[i].P)
		}
		for _, r := range l.Resid {
			if sp != nil && !r.GL {
				diffs = append(diffs, r.P.Sub(sp), r.P.Add(sp))
			}
		}
		if len(diffs) > 40 {
			break
		}
	}
	bits := map[int]bool{}
	for _, d := range diffs {
		for _, a := range atomsOf(d) {
			if l.C.Atoms[a].Kind == KBit {
				bits[a] = true
			}
		}
	}
	tried := map[string]bool{}
	for n, d := range diffs {
		if n > 40 {
			break
		}
		q := NewQ("steer")
		set := map[int]bool{}
		for _, a := range atomsOf(d) {
			if l.C.Atoms[a].Kind == KBit {
				set[a] = true
			}
		}
		if len(set) == 0 {
			continue
		}
		dc := l.concretise(d, set)
		ok := true
		s := l.exactSum(q, dc, &ok)
		q.Assert("(not (= (mod %s %s) 0))", s, BigR.String())
		for rep := 0; rep < 3; rep++ {
			r, m := ck.S.Model(q)
			if r != "sat" {
				break
			}
			if w := ck.trySteer(c, e, l, m, tried, replays, judge, unEq); w != nil {
				return w
			}
			// another assignment
			var neq []string
			for _, a := range sortedKeys(m) {
				neq = append(neq, fmt.Sprintf("(not (= %s %s))", q.names[a], smtInt(m[a])))
			}
			if len(neq) == 0 {
				break
			}
			q.Assert("(or %s)", strings.Join(neq, " "))
		}
	}
	// every choice of the low bits of each input that is decomposed
	for a := range bits {
		x, ok := l.C.Atoms[a].Arg.SingleAtom()
		if !ok || l.C.Atoms[x].Kind != KInput {
			continue
		}
	}
	return nil
}

func (ck *Checker) trySteer(c *Comp, e *Env, l *Lift, m map[int]*big.Int, tried map[string]bool, replays *int, judge func(*Env, bool) *Witness, unEq []int) *Witness {
	base := map[string][K]*big.Int{}
	for _, a := range sortedKeys(m) {
		at := l.C.Atoms[a]
		if at.Kind != KBit {
			continue
		}
		x, ok := at.Arg.SingleAtom()
		if !ok {
			continue
		}
		// a value reduced from an input still is that input
		if l.C.Atoms[x].Kind == KHint || l.C.Atoms[x].Kind == KRed {
			x = l.rep[x]
		}
		if l.C.Atoms[x].Kind != KInput {
			continue
		}
		name := l.C.Atoms[x].Name
		cur, ok2 := base[name]
		if !ok2 {
			cur = [K]*big.Int{frBig(&l.C.Atoms[x].Sh[0])}
		}
		cur[0] = new(big.Int).SetBit(cur[0], at.Idx, uint(m[a].Uint64()))
		base[name] = cur
	}
	if len(base) == 0 {
		return nil
	}
	key := ""
	var ns []string
	for n := range base {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		key += n + "=" + base[n][0].String() + ";"
	}
	if tried[key] {
		return nil
	}
	tried[key] = true
	*replays++
	if v2, ok := c.solve(base, ck.Seed, 0, -1); ok {
		x := c.Run(RunOpts{NoSym: true, Vals: v2, Seed: ck.Seed})
		if w := judge(x, true); w != nil {
			return w
		}
	}
	for n, i := range unEq {
		if n > 8 {
			break
		}
		if !c.owns(e.Eqs[i].Name) {
			continue
		}
		if v2, ok := c.solve(base, ck.Seed, 0, i); ok {
			x := c.Run(RunOpts{NoSym: true, Vals: v2, Seed: ck.Seed})
			if acc, _ := x.Accepts(0); acc {
				return x.witness(fmt.Sprintf("accepted although %s is violated", e.Eqs[i].Name), "accept", nil)
			}
		}
	}
	return nil
}

// Replay runs a witness again against the real code.
func Replay(c *Comp, w *Witness) (bool, string) {
	vals := map[string][K]*big.Int{}
	for n, s := range w.Inputs {
		b, _ := new(big.Int).SetString(s, 10)
		vals[n] = [K]*big.Int{b}
	}
	ov := map[int][]*big.Int{}
	for s, o := range w.Overrides {
		var id int
		fmt.Sscan(s, &id)
		for _, x := range o {
			b, _ := new(big.Int).SetString(x, 10)
			ov[id] = append(ov[id], b)
		}
	}
	x := c.Run(RunOpts{NoSym: true, Vals: vals, Override: ov, Seed: w.Seed, Where: true})
	acc, why := x.Accepts(0)
	d := ""
	if x.Panic == "" {
		d = x.OutDiff(0)
	}
	switch w.Expect {
	case "panic":
		return x.Panic != "", x.Panic
	case "reject":
		return !acc && !degenerate(x), why
	case "hintfail":
		return len(x.C.HintFail) > 0, strings.Join(x.C.HintFail, "; ")
	case "outdiff":
		return d != "" && !degenerate(x), d
	case "accept-outdiff":
		return acc && d != "" && !degenerate(x), d
	default:
		return acc, "accepted by the code: " + w.What
	}
}

func WriteJSON(path string, v any) {
	b, _ := json.MarshalIndent(v, "", " ")
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
}

// native-field expressions of the specification
func (e *Env) NConst(c fr.Element) *Var {
	v := &Var{P: PConst(c)}
	for k := range v.Sh {
		v.Sh[k] = c
	}
	return v
}
func (e *Env) NU(u uint64) *Var {
	var c fr.Element
	c.SetUint64(u)
	return e.NConst(c)
}
func (e *Env) NBig(b *big.Int) *Var {
	var c fr.Element
	c.SetBigInt(b)
	return e.NConst(c)
}
func (e *Env) NAdd(a, b *Var) *Var {
	r := &Var{P: e.C.addP(a.P, b.P)}
	for k := range r.Sh {
		r.Sh[k].Add(&a.Sh[k], &b.Sh[k])
	}
	return r
}
func (e *Env) NSub(a, b *Var) *Var {
	r := &Var{P: e.C.subP(a.P, b.P)}
	for k := range r.Sh {
		r.Sh[k].Sub(&a.Sh[k], &b.Sh[k])
	}
	return r
}
func (e *Env) NMul(a, b *Var) *Var {
	r := &Var{P: e.C.mulPoly(a.P, b.P)}
	for k := range r.Sh {
		r.Sh[k].Mul(&a.Sh[k], &b.Sh[k])
	}
	return r
}
func (e *Env) NSel(s, x, y *Var) *Var {
	d := e.NSub(x, y)
	r := &Var{P: e.C.addP(y.P, e.C.expandP(s.P, d.P))}
	for k := range r.Sh {
		r.Sh[k].Mul(&s.Sh[k], &d.Sh[k])
		r.Sh[k].Add(&r.Sh[k], &y.Sh[k])
	}
	return r
}

// Bits names the low n bits of the canonical representative of v.
func (e *Env) Bits(v *Var, n int) []*Var {
	out := make([]*Var, n)
	for i := range out {
		r := &Var{P: dummy}
		for k := range r.Sh {
			r.Sh[k].SetUint64(uint64(frBig(&v.Sh[k]).Bit(i)))
		}
		if !e.C.NoSym {
			if c, ok := v.P.IsConst(); ok {
				out[i] = e.NU(uint64(frBig(&c).Bit(i)))
				continue
			}
			key := v.P.Key()
			if vs := e.bitKey[key]; i < len(vs) {
				out[i] = vs[i]
				continue
			}
			a := e.C.newAtom(KBit, fmt.Sprintf("bit%d", i))
			a.Arg, a.Idx, a.UB, a.Sh = v.P, i, one, r.Sh
			r = e.C.VarOf(a)
			e.bitKey[key] = append(e.bitKey[key], r)
		}
		out[i] = r
	}
	return out
}

// NBits is the number written by some bits, least significant first.
func (e *Env) NBits(bs []*Var) *Var {
	r := e.NU(0)
	for i, b := range bs {
		r = e.NAdd(r, e.NMul(e.NBig(new(big.Int).Lsh(one, uint(i))), b))
	}
	return r
}

// SelX is x if the bit b is 0 and y if it is 1.
func SelX(b, x, y X) X     { return x.Add(b.Mul(y.Sub(x))) }
func SelQ(b X, x, y QX) QX { return QX{SelX(b, x[0], y[0]), SelX(b, x[1], y[1])} }

// inputOf is the name of the input that an atom stands for, or "".
func (e *Env) inputOf(x int) string {
	for _, n := range e.Names {
		if id, ok := e.ByName[n].P.SingleAtom(); ok && id == x {
			return n
		}
	}
	return ""
}
