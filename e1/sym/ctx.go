package sym

import (
	"fmt"
	"math/big"
	"math/rand"
	"reflect"
	"runtime"
	"strings"
	"sync"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/constraint"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/gnarkx"
)

// K is the number of concrete shadow executions carried along.
const K = 3

type Kind uint8

const (
	KInput  Kind = iota
	KHint        // output of a hint: any value the prover likes
	KIsZero      // 1 if Arg = 0 in F_r, else 0
	KBit         // bit Idx of the canonical representative of Arg
	KUF          // output Idx of an uninterpreted call
	KPoly        // name for a polynomial with several terms (product factors)
	KRed         // spec value: polynomial reduced mod M
	KInv         // inverse mod M of ArgM
	KOpaque
)

type Atom struct {
	ID   int
	Kind Kind
	Name string
	UB   *big.Int // inclusive upper bound of the canonical representative
	Sh   [K]fr.Element
	Arg  Poly
	ArgM PolyM
	Idx  int
	Hint *HintEv
	Call *UFCall
	// lifting
	DefM    PolyM // value mod M, valid if HasDef
	HasDef  bool
	Spec    bool // reachable from the specification
	DefSeq  int
	exactLE bool
}

type HintEv struct {
	Seq  int
	Fn   string
	Ins  []Poly
	InSh [K][]*big.Int
	Outs []int
}

type UFCall struct {
	Name string
	Args []Poly
	Outs []int
	Seq  int
}

type AKind uint8

const (
	AEq    AKind = iota // P = 0 in F_r
	ABool               // P in {0,1}
	ARange              // P < 2^Bits
	ANeq                // P != 0
	ALeq                // P <= Bound (canonical representatives)
)

type AssertEv struct {
	Seq   int
	Kind  AKind
	L, R  Poly
	P     Poly // L-R for AEq, the subject otherwise
	Bits  int
	Bound *big.Int
	Sh    [K]fr.Element // value of P
	Where string
}

type Var struct {
	P   Poly
	Sh  [K]fr.Element
	mut bool // result of MulAcc: may be updated in place by the next one
}

type Mode int

const (
	Plain     Mode = iota // no Committer, no Rangechecker
	Commit                // Committer
	CommitSCS             // Committer of the PLONK builder, which gnark's range checker treats differently
	Native                // Rangechecker
)

type Ctx struct {
	Mode     Mode
	Rng      *rand.Rand
	Atoms    []*Atom
	Hints    []*HintEv
	Asserts  []*AssertEv
	Calls    []*UFCall
	defers   []func(frontend.API) error
	kv       map[any]any
	NZ       map[int]bool // atoms the specification assumes to be non-zero mod M
	Api      frontend.API
	izCache  map[string]int
	polyAtom map[string]int
	bits     map[string][]*Var
	boolSeen map[string]bool

	// HintOverride lets a replay play a dishonest prover: outputs for the n-th hint call.
	HintOverride map[int][]*big.Int
	HintFail     []string
	unregistered map[string]bool
	Checked      []RangeReq // range checks as the code asked for them (native mode)
	TableSize    int
	Committed    bool
	KeepWhere    bool
	NbOps        int
	DivByZero    [K]bool
	Env          any
	NoSym        bool        // concrete run: only the shadows are computed
	Alias        map[int]int // specification values that are equal by the law of exponents (newer -> older)
	// overridden shadows
	Panic string
}

// Commits tells the two commitment-based facilities.
func (m Mode) Commits() bool { return m == Commit || m == CommitSCS }

type RangeReq struct {
	P    Poly
	Bits int
}

func NewCtx(mode Mode, seed int64) *Ctx {
	c := &Ctx{Mode: mode, Rng: rand.New(rand.NewSource(seed)), kv: map[any]any{}, izCache: map[string]int{}, polyAtom: map[string]int{}, bits: map[string][]*Var{}, boolSeen: map[string]bool{}}
	c.newAtom(KOpaque, "dummy")
	b := &base{Ctx: c}
	switch mode {
	case Plain:
		c.Api = &PlainAPI{b}
	case Commit:
		c.Api = &CommitAPI{b}
	case CommitSCS:
		c.Api = &CommitSCSAPI{CommitAPI: &CommitAPI{b}}
	case Native:
		c.Api = &NativeAPI{b}
	}
	return c
}

func (c *Ctx) newAtom(k Kind, name string) *Atom {
	a := &Atom{ID: len(c.Atoms), Kind: k, Name: name}
	c.Atoms = append(c.Atoms, a)
	return a
}

func (c *Ctx) VarOf(a *Atom) *Var { return &Var{P: PAtom(a.ID), Sh: a.Sh} }

// Input creates an input atom assumed to lie in [0,ub]; values gives its
// shadow values (nil: random below ub).
func (c *Ctx) Input(name string, ub *big.Int, values []*big.Int) *Var {
	a := c.newAtom(KInput, name)
	a.UB = ub
	lim := new(big.Int).Set(BigR)
	if ub != nil {
		lim.Add(ub, big.NewInt(1))
	}
	for k := 0; k < K; k++ {
		var v *big.Int
		if values != nil {
			v = values[k%len(values)]
		} else {
			v = new(big.Int).Rand(c.Rng, lim)
		}
		a.Sh[k].SetBigInt(v)
	}
	return c.VarOf(a)
}

var MaxGL = new(big.Int).SetUint64(GM - 1)

func (c *Ctx) GLInput(name string) *Var { return c.Input(name, MaxGL, nil) }

// NewUF records an uninterpreted call; outSh gives the concrete outputs.
func (c *Ctx) NewUF(name string, args []*Var, n int, ub *big.Int, outSh [K][]fr.Element) []*Var {
	call := &UFCall{Name: name, Seq: len(c.Calls)}
	for _, a := range args {
		call.Args = append(call.Args, a.P)
	}
	out := make([]*Var, n)
	for i := 0; i < n; i++ {
		a := c.newAtom(KUF, name)
		a.Call = call
		a.Idx = i
		a.UB = ub
		for k := 0; k < K; k++ {
			a.Sh[k] = outSh[k][i]
		}
		call.Outs = append(call.Outs, a.ID)
		out[i] = c.VarOf(a)
	}
	c.Calls = append(c.Calls, call)
	return out
}

// where is the innermost place in the repository on the stack.
func where() string {
	var pcs [24]uintptr
	for skip := 3; ; skip += len(pcs) {
		n := runtime.Callers(skip, pcs[:])
		for _, pc := range pcs[:n] {
			w, ok := places.Load(pc)
			if !ok {
				w = placeOf(pc)
				places.Store(pc, w)
			}
			if w != "" {
				return w.(string)
			}
		}
		if n < len(pcs) {
			return "?"
		}
	}
}

var places sync.Map // program counter -> file:line if it belongs to the repository

func placeOf(pc uintptr) string {
	fs := runtime.CallersFrames([]uintptr{pc})
	for {
		f, more := fs.Next()
		if strings.Contains(f.Function, "gnark-plonky2-verifier/") && !strings.Contains(f.File, "/verif/") {
			return fmt.Sprintf("%s:%d", f.File, f.Line)
		}
		if !more {
			return ""
		}
	}
}

// V converts any gnark variable or constant.
func (c *Ctx) V(x frontend.Variable) *Var {
	switch t := x.(type) {
	case *Var:
		return t
	case nil:
		panic("nil frontend.Variable used")
	}
	b := ConstBig(x)
	var e fr.Element
	e.SetBigInt(b)
	v := &Var{P: PConst(e)}
	for k := 0; k < K; k++ {
		v.Sh[k] = e
	}
	return v
}

type bigInter interface{ BigInt(*big.Int) *big.Int }

func ConstBig(x interface{}) *big.Int {
	switch t := x.(type) {
	case big.Int:
		return new(big.Int).Set(&t)
	case *big.Int:
		return new(big.Int).Set(t)
	case uint8:
		return new(big.Int).SetUint64(uint64(t))
	case uint16:
		return new(big.Int).SetUint64(uint64(t))
	case uint32:
		return new(big.Int).SetUint64(uint64(t))
	case uint64:
		return new(big.Int).SetUint64(t)
	case uint:
		return new(big.Int).SetUint64(uint64(t))
	case int8:
		return big.NewInt(int64(t))
	case int16:
		return big.NewInt(int64(t))
	case int32:
		return big.NewInt(int64(t))
	case int64:
		return big.NewInt(t)
	case int:
		return big.NewInt(int64(t))
	case string:
		b, ok := new(big.Int).SetString(t, 0)
		if !ok {
			panic("unable to set big.Int from string " + t)
		}
		return b
	case bigInter:
		return t.BigInt(new(big.Int))
	}
	rv := reflect.ValueOf(x)
	if rv.Kind() != reflect.Ptr {
		p := reflect.New(rv.Type())
		p.Elem().Set(rv)
		if bi, ok := p.Interface().(bigInter); ok {
			return bi.BigInt(new(big.Int))
		}
	}
	panic(fmt.Sprintf("cannot convert %T to a constant", x))
}

// ---- API implementation ----

type base struct{ *Ctx }
type PlainAPI struct{ *base }
type CommitAPI struct{ *base }
type CommitSCSAPI struct {
	*CommitAPI
	gnarkx.SCS
}
type NativeAPI struct{ *base }

func (a *PlainAPI) Compiler() frontend.Compiler     { return a }
func (a *CommitAPI) Compiler() frontend.Compiler    { return a }
func (a *CommitSCSAPI) Compiler() frontend.Compiler { return a }
func (a *NativeAPI) Compiler() frontend.Compiler    { return a }

type stopDeferred struct{}

func (a *CommitAPI) Commit(toCommit ...frontend.Variable) (frontend.Variable, error) {
	a.Committed = true
	panic(stopDeferred{})
}
func (a *NativeAPI) Check(v frontend.Variable, bits int) {
	x := a.V(v)
	a.Checked = append(a.Checked, RangeReq{x.P, bits})
	a.rangeEv(x, bits)
}
func (b *base) rangeEv(x *Var, bits int) {
	b.Asserts = append(b.Asserts, &AssertEv{Seq: len(b.Asserts), Kind: ARange, P: x.P, Bits: bits, Sh: x.Sh, Where: b.wh()})
}
func (b *base) wh() string {
	if b.KeepWhere {
		return where()
	}
	return ""
}

// RunDeferred runs the deferred callbacks as gnark's compiler does.
func (c *Ctx) RunDeferred() {
	for i := 0; i < len(c.defers); i++ {
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(stopDeferred); !ok {
						panic(r)
					}
				}
			}()
			if err := c.defers[i](c.Api); err != nil {
				panic(err)
			}
		}()
	}
}

func (b *base) Add(i1, i2 frontend.Variable, in ...frontend.Variable) frontend.Variable {
	x, y := b.V(i1), b.V(i2)
	r := &Var{P: b.addP(x.P, y.P)}
	for k := 0; k < K; k++ {
		r.Sh[k].Add(&x.Sh[k], &y.Sh[k])
	}
	for _, z := range in {
		zz := b.V(z)
		r.P = b.addP(r.P, zz.P)
		for k := 0; k < K; k++ {
			r.Sh[k].Add(&r.Sh[k], &zz.Sh[k])
		}
	}
	return r
}

func (c *Ctx) wrap(p Poly) Poly {
	m, s := p.SignNorm()
	key := m.Key()
	id, ok := c.polyAtom[key]
	if !ok {
		a := c.newAtom(KPoly, "")
		a.Arg = m
		a.Sh = c.EvalSh(m)
		id = a.ID
		c.polyAtom[key] = id
	}
	return PAtom(id).Scale(s)
}

// EvalSh evaluates a polynomial under the shadows of its atoms.
func (c *Ctx) EvalSh(p Poly) [K]fr.Element {
	var out [K]fr.Element
	for i := range p {
		for k := 0; k < K; k++ {
			t := p[i].C
			for mm, jj := p[i].M, 0; jj < len(mm); jj += 4 {
				a := atomAt(mm, jj)
				t.Mul(&t, &c.Atoms[a].Sh[k])
			}
			out[k].Add(&out[k], &t)
		}
	}
	return out
}

var dummy = PAtom(0)

func (c *Ctx) nonConst(p, q Poly) bool {
	if !c.NoSym {
		return false
	}
	_, a := p.IsConst()
	_, b := q.IsConst()
	return !(a && b)
}
func (c *Ctx) addP(p, q Poly) Poly {
	if c.nonConst(p, q) {
		return dummy
	}
	return p.Add(q)
}
func (c *Ctx) subP(p, q Poly) Poly {
	if c.nonConst(p, q) {
		return dummy
	}
	return p.Sub(q)
}
func (c *Ctx) expandP(p, q Poly) Poly {
	if c.nonConst(p, q) {
		return dummy
	}
	return p.MulExpand(q)
}
func (c *Ctx) mulPoly(p, q Poly) Poly {
	if c.nonConst(p, q) {
		if len(p) == 0 || len(q) == 0 {
			return nil
		}
		return dummy
	}
	if len(p) > 1 && len(q) > 1 && !c.flag(p, q) && !c.flag(q, p) {
		p, q = c.wrap(p), c.wrap(q)
	}
	p, q = c.power(p, q), c.power(q, p)
	return p.MulExpand(q)
}

// flag: p is the negation of a zero test and q is small, so that p*q is a condition as Select writes it.
func (c *Ctx) flag(p, q Poly) bool {
	if len(p) != 2 || len(q) > 3 || !q.Linear() || p[0].M != "" || len(p[1].M) != 4 {
		return false
	}
	return c.Atoms[monoAtoms(p[1].M)[0]].Kind == KIsZero && c.KnownBool(p)
}

// power: a further factor of a sum that is already named in the other operand keeps its name.
func (c *Ctx) power(p, q Poly) Poly {
	if len(p) < 2 || len(q) != 1 {
		return p
	}
	named := false
	for mm, jj := q[0].M, 0; jj < len(mm); jj += 4 {
		a := atomAt(mm, jj)
		if c.Atoms[a].Kind == KPoly {
			named = true
		}
	}
	if !named {
		return p
	}
	m, s := p.SignNorm()
	if id, ok := c.polyAtom[m.Key()]; ok {
		for mm, jj := q[0].M, 0; jj < len(mm); jj += 4 {
			a := atomAt(mm, jj)
			if a == id {
				return PAtom(id).Scale(s)
			}
		}
	}
	return p
}
func (b *base) mul(x, y *Var) *Var {
	b.NbOps++
	r := &Var{P: b.mulPoly(x.P, y.P)}
	for k := 0; k < K; k++ {
		r.Sh[k].Mul(&x.Sh[k], &y.Sh[k])
	}
	return r
}
func (b *base) MulAcc(a, x, y frontend.Variable) frontend.Variable {
	av := b.V(a)
	m := b.mul(b.V(x), b.V(y))
	r := &Var{P: b.addP(av.P, m.P), mut: true}
	for k := 0; k < K; k++ {
		r.Sh[k].Add(&av.Sh[k], &m.Sh[k])
	}
	if av.mut {
		// gnark may update the accumulator in place: whoever still holds it sees the new value
		av.P, av.Sh = r.P, r.Sh
	}
	return r
}
func (b *base) Neg(i1 frontend.Variable) frontend.Variable {
	x := b.V(i1)
	r := &Var{P: b.subP(nil, x.P)}
	for k := 0; k < K; k++ {
		r.Sh[k].Neg(&x.Sh[k])
	}
	return r
}
func (b *base) Sub(i1, i2 frontend.Variable, in ...frontend.Variable) frontend.Variable {
	x, y := b.V(i1), b.V(i2)
	r := &Var{P: b.subP(x.P, y.P)}
	for k := 0; k < K; k++ {
		r.Sh[k].Sub(&x.Sh[k], &y.Sh[k])
	}
	for _, z := range in {
		zz := b.V(z)
		r.P = b.subP(r.P, zz.P)
		for k := 0; k < K; k++ {
			r.Sh[k].Sub(&r.Sh[k], &zz.Sh[k])
		}
	}
	return r
}
func (b *base) Mul(i1, i2 frontend.Variable, in ...frontend.Variable) frontend.Variable {
	r := b.mul(b.V(i1), b.V(i2))
	for _, z := range in {
		r = b.mul(r, b.V(z))
	}
	return r
}
func (b *base) opaque(name string, sh [K]fr.Element) *Var {
	a := b.newAtom(KOpaque, name)
	a.Sh = sh
	return b.VarOf(a)
}
func (b *base) DivUnchecked(i1, i2 frontend.Variable) frontend.Variable { return b.Div(i1, i2) }
func (b *base) Div(i1, i2 frontend.Variable) frontend.Variable {
	x, y := b.V(i1), b.V(i2)
	var sh [K]fr.Element
	for k := 0; k < K; k++ {
		sh[k].Div(&x.Sh[k], &y.Sh[k])
	}
	q := b.opaque("div", sh)
	b.AssertIsEqual(b.mul(q, y), x)
	return q
}
func (b *base) Inverse(i1 frontend.Variable) frontend.Variable { return b.Div(1, i1) }

func (b *base) ToBinary(i1 frontend.Variable, n ...int) []frontend.Variable {
	nb := fr.Bits
	if len(n) == 1 {
		nb = n[0]
	}
	x := b.V(i1)
	if nb == 1 {
		b.AssertIsBoolean(x)
		return []frontend.Variable{x}
	}
	if c, ok := x.P.IsConst(); ok {
		v := new(big.Int)
		c.BigInt(v)
		if v.BitLen() > nb {
			b.AssertIsEqual(0, 1)
		}
		out := make([]frontend.Variable, nb)
		for i := range out {
			out[i] = int(v.Bit(i))
		}
		return out
	}
	if nb < fr.Bits {
		b.rangeEv(x, nb)
	}
	key := x.P.Key()
	vs := b.bits[key]
	for len(vs) < nb {
		i := len(vs)
		a := b.newAtom(KBit, fmt.Sprintf("bit%d", i))
		a.Arg = x.P
		a.Idx = i
		a.UB = big.NewInt(1)
		for k := 0; k < K; k++ {
			v := new(big.Int)
			x.Sh[k].BigInt(v)
			a.Sh[k].SetUint64(uint64(v.Bit(i)))
		}
		vs = append(vs, b.VarOf(a))
	}
	if !b.NoSym {
		b.bits[key] = vs
	}
	out := make([]frontend.Variable, nb)
	for i := range out {
		out[i] = vs[i]
	}
	return out
}
func (b *base) FromBinary(bs ...frontend.Variable) frontend.Variable {
	r := b.V(0)
	c := new(big.Int).SetInt64(1)
	acc := map[string]fr.Element{}
	for _, x := range bs {
		b.AssertIsBoolean(x)
		v := b.V(x)
		var ce fr.Element
		ce.SetBigInt(c)
		for _, t := range v.P {
			var tc fr.Element
			tc.Mul(&t.C, &ce)
			if o, ok := acc[t.M]; ok {
				tc.Add(&tc, &o)
			}
			acc[t.M] = tc
		}
		for k := 0; k < K; k++ {
			var s fr.Element
			s.Mul(&v.Sh[k], &ce)
			r.Sh[k].Add(&r.Sh[k], &s)
		}
		c = new(big.Int).Lsh(c, 1)
	}
	r.P = polyFromMap(acc)
	if _, isC := r.P.IsConst(); b.NoSym && !isC {
		r.P = dummy
	}
	return r
}
func (b *base) Xor(a, x frontend.Variable) frontend.Variable {
	b.AssertIsBoolean(a)
	b.AssertIsBoolean(x)
	p, q := b.V(a), b.V(x)
	pq := &Var{P: b.expandP(p.P, q.P)}
	for k := 0; k < K; k++ {
		pq.Sh[k].Mul(&p.Sh[k], &q.Sh[k])
	}
	return b.Sub(b.Add(p, q), b.Add(pq, pq))
}
func (b *base) Or(a, x frontend.Variable) frontend.Variable {
	b.AssertIsBoolean(a)
	b.AssertIsBoolean(x)
	p, q := b.V(a), b.V(x)
	pq := &Var{P: b.expandP(p.P, q.P)}
	for k := 0; k < K; k++ {
		pq.Sh[k].Mul(&p.Sh[k], &q.Sh[k])
	}
	return b.Sub(b.Add(p, q), pq)
}
func (b *base) And(a, x frontend.Variable) frontend.Variable {
	b.AssertIsBoolean(a)
	b.AssertIsBoolean(x)
	p, q := b.V(a), b.V(x)
	pq := &Var{P: b.expandP(p.P, q.P)}
	for k := 0; k < K; k++ {
		pq.Sh[k].Mul(&p.Sh[k], &q.Sh[k])
	}
	return pq
}
func (b *base) sel(s, x, y *Var) *Var {
	if c, ok := s.P.IsConst(); ok {
		if c.IsOne() {
			return x
		}
		return y
	}
	d := b.subP(x.P, y.P)
	r := &Var{P: b.addP(y.P, b.expandP(s.P, d))}
	for k := 0; k < K; k++ {
		var t fr.Element
		t.Sub(&x.Sh[k], &y.Sh[k])
		t.Mul(&t, &s.Sh[k])
		r.Sh[k].Add(&y.Sh[k], &t)
	}
	return r
}
func (b *base) Select(s, i1, i2 frontend.Variable) frontend.Variable {
	b.AssertIsBoolean(s)
	return b.sel(b.V(s), b.V(i1), b.V(i2))
}
func (b *base) Lookup2(b0, b1 frontend.Variable, i0, i1, i2, i3 frontend.Variable) frontend.Variable {
	b.AssertIsBoolean(b0)
	b.AssertIsBoolean(b1)
	s0, s1 := b.V(b0), b.V(b1)
	lo := b.sel(s0, b.V(i1), b.V(i0))
	hi := b.sel(s0, b.V(i3), b.V(i2))
	return b.sel(s1, hi, lo)
}
func (b *base) IsZero(i1 frontend.Variable) frontend.Variable {
	x := b.V(i1)
	if c, ok := x.P.IsConst(); ok {
		if c.IsZero() {
			return b.V(1)
		}
		return b.V(0)
	}
	m, _ := x.P.Monic()
	key := m.Key()
	if id, ok := b.izCache[key]; ok {
		return b.VarOf(b.Atoms[id])
	}
	a := b.newAtom(KIsZero, "iszero")
	a.Arg = m
	a.UB = big.NewInt(1)
	for k := 0; k < K; k++ {
		if x.Sh[k].IsZero() {
			a.Sh[k].SetOne()
		}
	}
	if !b.NoSym {
		b.izCache[key] = a.ID
	}
	return b.VarOf(a)
}
func (b *base) Cmp(i1, i2 frontend.Variable) frontend.Variable {
	x, y := b.V(i1), b.V(i2)
	var sh [K]fr.Element
	for k := 0; k < K; k++ {
		sh[k].SetInt64(int64(x.Sh[k].Cmp(&y.Sh[k])))
	}
	return b.opaque("cmp", sh)
}
func (b *base) AssertIsEqual(i1, i2 frontend.Variable) {
	x, y := b.V(i1), b.V(i2)
	if c1, ok1 := x.P.IsConst(); ok1 {
		if c2, ok2 := y.P.IsConst(); ok2 && c1.Equal(&c2) {
			return
		}
	}
	e := &AssertEv{Seq: len(b.Asserts), Kind: AEq, L: x.P, R: y.P, P: b.subP(x.P, y.P), Where: b.wh()}
	for k := 0; k < K; k++ {
		e.Sh[k].Sub(&x.Sh[k], &y.Sh[k])
	}
	b.Asserts = append(b.Asserts, e)
}
func (b *base) AssertIsDifferent(i1, i2 frontend.Variable) {
	x, y := b.V(i1), b.V(i2)
	e := &AssertEv{Seq: len(b.Asserts), Kind: ANeq, L: x.P, R: y.P, P: b.subP(x.P, y.P), Where: b.wh()}
	for k := 0; k < K; k++ {
		e.Sh[k].Sub(&x.Sh[k], &y.Sh[k])
	}
	b.Asserts = append(b.Asserts, e)
}
func (c *Ctx) KnownBool(p Poly) bool {
	if v, ok := p.IsConst(); ok {
		return v.IsZero() || v.IsOne()
	}
	if id, ok := p.SingleAtom(); ok {
		a := c.Atoms[id]
		return a.UB != nil && !a.exactLE && a.UB.Cmp(big.NewInt(1)) <= 0
	}
	// 1 - s
	if len(p) == 2 && p[0].M == "" && p[0].C.IsOne() && len(p[1].M) == 4 {
		var m fr.Element
		m.SetOne()
		m.Neg(&m)
		if p[1].C.Equal(&m) {
			id := monoAtoms(p[1].M)[0]
			a := c.Atoms[id]
			return a.UB != nil && !a.exactLE && a.UB.Cmp(big.NewInt(1)) <= 0
		}
	}
	// products of booleans
	if len(p) == 1 && p[0].C.IsOne() {
		for mm, jj := p[0].M, 0; jj < len(mm); jj += 4 {
			id := atomAt(mm, jj)
			a := c.Atoms[id]
			if a.Kind == KPoly {
				q := a.Arg
				if !c.KnownBool(q) && !c.KnownBool(q.Neg()) {
					return false
				}
				continue
			}
			if a.UB == nil || a.exactLE || a.UB.Cmp(big.NewInt(1)) > 0 {
				return false
			}
		}
		return true
	}
	return false
}
func (b *base) AssertIsBoolean(i1 frontend.Variable) {
	x := b.V(i1)
	if b.KnownBool(x.P) {
		return
	}
	key := x.P.Key()
	if b.boolSeen[key] {
		return
	}
	b.boolSeen[key] = !b.NoSym
	b.Asserts = append(b.Asserts, &AssertEv{Seq: len(b.Asserts), Kind: ABool, P: x.P, Sh: x.Sh, Where: b.wh()})
}
func (b *base) AssertIsLessOrEqual(v frontend.Variable, bound frontend.Variable) {
	x := b.V(v)
	y := b.V(bound)
	c, ok := y.P.IsConst()
	if !ok {
		panic("AssertIsLessOrEqual with a variable bound is not modelled")
	}
	bb := new(big.Int)
	c.BigInt(bb)
	b.Asserts = append(b.Asserts, &AssertEv{Seq: len(b.Asserts), Kind: ALeq, P: x.P, Bound: bb, Sh: x.Sh, Where: b.wh()})
}
func (b *base) MustBeLessOrEqCst(bits []frontend.Variable, bound *big.Int, aForDebug frontend.Variable) {
	x := b.V(b.FromBinary(bits...))
	b.Asserts = append(b.Asserts, &AssertEv{Seq: len(b.Asserts), Kind: ALeq, P: x.P, Bound: bound, Sh: x.Sh})
}
func (b *base) Println(a ...frontend.Variable) {}
func (b *base) ConstantValue(v frontend.Variable) (*big.Int, bool) {
	if x, ok := v.(*Var); ok {
		c, ok := x.P.IsConst()
		if !ok {
			return nil, false
		}
		r := new(big.Int)
		return c.BigInt(r), true
	}
	return new(big.Int).Mod(ConstBig(v), BigR), true
}

func HintName(f solver.Hint) string {
	return runtime.FuncForPC(reflect.ValueOf(f).Pointer()).Name()
}

func (b *base) NewHint(f solver.Hint, nbOutputs int, inputs ...frontend.Variable) ([]frontend.Variable, error) {
	name := HintName(f)
	if strings.HasSuffix(name, "logderivarg.countHint") {
		// gnark's log-derivative lookup: every query row lies in the table.
		n := int(ConstBig(inputs[0]).Int64())
		for i := 0; i < n; i++ {
			cv, ok := b.ConstantValue(inputs[2+i])
			if !ok || cv.Cmp(big.NewInt(int64(i))) != 0 {
				panic("unexpected lookup table")
			}
		}
		b.TableSize = n
		for _, q := range inputs[2+n:] {
			v := b.V(q)
			if c, ok := v.P.IsConst(); ok && c.IsUint64() && c.Uint64() < uint64(n) {
				continue
			}
			b.Asserts = append(b.Asserts, &AssertEv{Seq: len(b.Asserts), Kind: ALeq, P: v.P, Bound: big.NewInt(int64(n - 1)), Sh: v.Sh})
		}
		out := make([]frontend.Variable, nbOutputs)
		for i := range out {
			out[i] = 0
		}
		return out, nil
	}
	if strings.HasSuffix(name, "rangecheck.DecomposeHint") {
		// limbs of a constant are constants: any other answer fails the table lookup or the recomposition
		if v, ok := b.ConstantValue(inputs[2]); ok {
			outs := make([]*big.Int, nbOutputs)
			for i := range outs {
				outs[i] = new(big.Int)
			}
			if err := f(BigR, []*big.Int{ConstBig(inputs[0]), ConstBig(inputs[1]), v}, outs); err != nil {
				return nil, err
			}
			out := make([]frontend.Variable, nbOutputs)
			for i := range out {
				out[i] = outs[i]
			}
			return out, nil
		}
	}
	if !b.unregistered[name] && solver.GetRegisteredHint(solver.GetHintID(f)) == nil {
		// gnark's solver only finds the hints that were registered: proving would fail
		if b.unregistered == nil {
			b.unregistered = map[string]bool{}
		}
		b.unregistered[name] = true
		b.HintFail = append(b.HintFail, fmt.Sprintf("hint %s is not registered with the solver (shadow 0)", name))
	}
	ev := &HintEv{Seq: len(b.Hints), Fn: name}
	b.Hints = append(b.Hints, ev)
	var ins []*Var
	for _, in := range inputs {
		v := b.V(in)
		ins = append(ins, v)
		ev.Ins = append(ev.Ins, v.P)
	}
	var outSh [K][]*big.Int
	for k := 0; k < K; k++ {
		var bi []*big.Int
		for _, v := range ins {
			x := new(big.Int)
			v.Sh[k].BigInt(x)
			bi = append(bi, x)
		}
		ev.InSh[k] = bi
		outSh[k] = make([]*big.Int, nbOutputs)
		for i := range outSh[k] {
			outSh[k][i] = new(big.Int)
		}
		if ov, ok := b.HintOverride[ev.Seq]; ok {
			for i := range outSh[k] {
				outSh[k][i].Set(ov[i])
			}
			continue
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					b.HintFail = append(b.HintFail, fmt.Sprintf("hint %s #%d shadow %d panics: %v", name, ev.Seq, k, r))
					fallbackHint(name, bi, outSh[k])
				}
			}()
			cp := make([]*big.Int, len(bi))
			for i := range bi {
				cp[i] = new(big.Int).Set(bi[i])
			}
			if err := f(new(big.Int).Set(BigR), cp, outSh[k]); err != nil {
				b.HintFail = append(b.HintFail, fmt.Sprintf("hint %s #%d shadow %d: %v", name, ev.Seq, k, err))
				fallbackHint(name, bi, outSh[k])
			}
		}()
	}
	out := make([]frontend.Variable, nbOutputs)
	for i := range out {
		a := b.newAtom(KHint, name)
		a.Hint = ev
		a.Idx = i
		for k := 0; k < K; k++ {
			a.Sh[k].SetBigInt(outSh[k][i])
		}
		ev.Outs = append(ev.Outs, a.ID)
		out[i] = b.VarOf(a)
	}
	return out, nil
}

// fallbackHint is what a dishonest prover would do where the honest hint gives up.
func fallbackHint(name string, in, out []*big.Int) {
	switch {
	case strings.HasSuffix(name, ".MulAddHint") && len(in) == 3 && len(out) == 2:
		s := new(big.Int).Mul(in[0], in[1])
		s.Add(s, in[2])
		out[0].DivMod(s, BigM, out[1])
	case strings.HasSuffix(name, ".SplitLimbsHint") && len(in) == 1 && len(out) == 2:
		out[0].DivMod(in[0], new(big.Int).Lsh(big.NewInt(1), 32), out[1])
	case strings.HasSuffix(name, ".InverseHint") && len(in) == 1 && len(out) == 1:
		m := new(big.Int).Mod(in[0], BigM)
		if m.Sign() != 0 {
			out[0].ModInverse(m, BigM)
		}
	}
}
func (b *base) NewHintForId(id solver.HintID, nbOutputs int, inputs ...frontend.Variable) ([]frontend.Variable, error) {
	panic("NewHintForId not modelled")
}

// ---- Compiler ----
func (b *base) AddBlueprint(constraint.Blueprint) constraint.BlueprintID { panic("unsupported") }
func (b *base) AddInstruction(bID constraint.BlueprintID, calldata []uint32) []uint32 {
	panic("unsupported")
}
func (b *base) MarkBoolean(v frontend.Variable) {}
func (b *base) IsBoolean(v frontend.Variable) bool {
	return b.KnownBool(b.V(v).P)
}
func (b *base) Field() *big.Int  { return new(big.Int).Set(BigR) }
func (b *base) FieldBitLen() int { return fr.Bits }
func (b *base) Defer(cb func(api frontend.API) error) {
	b.defers = append(b.defers, cb)
}
func (b *base) InternalVariable(wireID uint32) frontend.Variable { panic("unsupported") }
func (b *base) ToCanonicalVariable(frontend.Variable) frontend.CanonicalVariable {
	panic("unsupported")
}
func (b *base) SetGkrInfo(constraint.GkrInfo) error { panic("unsupported") }
func (b *base) SetKeyValue(key, value any)          { b.kv[key] = value }
func (b *base) GetKeyValue(key any) any             { return b.kv[key] }

func where2() string { return where() }

// CtxOf returns the symbolic context behind an API, if it is one of ours.
func CtxOf(api frontend.API) *Ctx {
	switch t := api.(type) {
	case *PlainAPI:
		return t.Ctx
	case *CommitAPI:
		return t.Ctx
	case *CommitSCSAPI:
		return t.Ctx
	case *NativeAPI:
		return t.Ctx
	}
	return nil
}

// ModM reads a field element as an integer modulo the Goldilocks prime; Big as an integer.
func ModM(x *fr.Element) uint64  { return new(big.Int).Mod(frBig(x), BigM).Uint64() }
func Big(x *fr.Element) *big.Int { return frBig(x) }
