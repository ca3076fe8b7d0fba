package sx

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Engine holds the program and what a check adds to it.
type Engine struct {
	Prog        *ssa.Program
	Pkgs        map[string]*ssa.Package
	S           *Solver
	Intr        map[string]func(p *Path, c *Call) Value
	Stub        []string // prefixes of function names answered with arbitrary values
	Interp      []string // package path prefixes that are executed
	OpaqueTypes []string
	Module      string
	MaxPaths    int
	Deadline    time.Time // zero: none
	MaxSteps    int
	MaxForks    int
	opaqueDyn   types.Type
	Funcs       map[string]int
	Paths       int
	Aborted     map[string]int
	Approx      map[string]int
	Trace       bool
	reCache     map[string]*reAnswer
}

type Call struct {
	Fn     *ssa.Function
	Name   string
	Args   []Value
	Res    types.Type
	Common *ssa.CallCommon
}

// Load builds SSA for the repository and everything it imports.
func Load(repo, goBin string, patterns ...string) (*Engine, error) {
	os.Setenv("PATH", goBin+":"+os.Getenv("PATH")) // the go command is looked up in our own PATH
	env := append([]string{}, os.Environ()...)
	env = append(env, "CGO_ENABLED=0", "GOFLAGS=-mod=mod", "PATH="+goBin+":"+os.Getenv("PATH"))
	cfg := &packages.Config{Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
		packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule, Dir: repo, Env: env}
	ps, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	for _, p := range ps {
		for _, e := range p.Errors {
			return nil, e
		}
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	e := &Engine{Prog: prog, Pkgs: map[string]*ssa.Package{}, S: NewSolver(), Intr: map[string]func(*Path, *Call) Value{},
		MaxPaths: 5000, MaxSteps: 20000000, MaxForks: 400, Funcs: map[string]int{}, Aborted: map[string]int{}, Approx: map[string]int{},
		Trace: os.Getenv("TRACE") != ""}
	for _, p := range prog.AllPackages() {
		e.Pkgs[p.Pkg.Path()] = p
	}
	for _, p := range ps {
		if p.Module != nil {
			e.Module = p.Module.Path
		}
	}
	e.Interp = []string{e.Module, "sort", "slices", "maps", "cmp", "errors", "math/bits", "iter", "container/", "github.com/consensys/gnark/std/math/emulated/emparams"}
	e.opaqueDyn = types.NewNamed(types.NewTypeName(token.NoPos, nil, "opaque", nil), types.NewStruct(nil, nil), nil)
	e.OpaqueTypes = []string{"sync.", "regexp.", "os.", "log.", "time.", "io."}
	standard(e)
	return e, nil
}

// Func finds a function or method: "pkg.Name" or "pkg.(*T).M".
func (e *Engine) Func(pkg, name string) *ssa.Function {
	p := e.Pkgs[e.Module+"/"+pkg]
	if p == nil {
		return nil
	}
	p.Build()
	if t, m, ok := strings.Cut(name, "."); ok {
		ptr := strings.HasPrefix(t, "*")
		mem := p.Type(strings.TrimPrefix(t, "*"))
		if mem == nil {
			return nil
		}
		var ty types.Type = mem.Type()
		if ptr {
			ty = types.NewPointer(ty)
		}
		sel := e.Prog.MethodSets.MethodSet(ty).Lookup(p.Pkg, m)
		if sel == nil {
			return nil
		}
		return e.Prog.MethodValue(sel)
	}
	return p.Func(name)
}

func (e *Engine) Type(pkg, name string) types.Type {
	p := e.Pkgs[e.Module+"/"+pkg]
	if p == nil || p.Type(name) == nil {
		return nil
	}
	return p.Type(name).Type()
}

type targetPanic struct{ v Value }
type exitPanic struct{ why string }
type abortPanic struct{ why string }

// Path is one execution.
type Path struct {
	E        *Engine
	Decide   []int64
	pos      int
	taken    []int64
	iv       map[*Term][2]*big.Int
	pending  [][]int64
	PC       []*Term
	fresh    int
	steps    int
	globals  map[*ssa.Global]*Value
	Events   []Event
	ApproxBy map[string]bool
	MapOrder int // 1: backwards
	User     map[string]any
	inited   map[*ssa.Package]bool
	depth    int
}

type Event struct {
	Name string
	Args []Value
}

func (p *Path) Abort(why string) { panic(abortPanic{why}) }

func (p *Path) Approx(why string) {
	p.ApproxBy[why] = true
}

// Panic raises a panic of the program under test.
func (p *Path) Panic(msg string) {
	panic(targetPanic{Iface{T: types.Typ[types.String], V: Lit(msg)}})
}

func (p *Path) Exit(why string) { panic(exitPanic{why}) }

// Outcome of one path.
type Outcome struct {
	Kind  string // return panic exit abort
	Value Value
	Msg   string
	P     *Path
}

// Explore runs body on every feasible path.
func (e *Engine) Explore(setup func(p *Path), body func(p *Path) Value, each func(o Outcome) bool) {
	work := [][]int64{nil}
	n := 0
	for len(work) > 0 {
		d := work[len(work)-1]
		work = work[:len(work)-1]
		if n++; n > e.MaxPaths {
			e.Aborted["path limit"]++
			return
		}
		if !e.Deadline.IsZero() && time.Now().After(e.Deadline) {
			e.Aborted["time limit"]++
			return
		}
		e.Paths++
		p := &Path{E: e, Decide: d, globals: map[*ssa.Global]*Value{}, ApproxBy: map[string]bool{}, User: map[string]any{}, inited: map[*ssa.Package]bool{}}
		o := Outcome{P: p}
		func() {
			defer func() {
				switch r := recover().(type) {
				case nil:
				case targetPanic:
					o.Kind, o.Msg = "panic", Show(r.v)
				case exitPanic:
					o.Kind, o.Msg = "exit", r.why
				case abortPanic:
					o.Kind, o.Msg = "abort", r.why
				default:
					if e.Trace {
						panic(r)
					}
					o.Kind, o.Msg = "abort", fmt.Sprint(r)
				}
			}()
			if setup != nil {
				setup(p)
			}
			o.Value = body(p)
			o.Kind = "return"
		}()
		work = append(work, p.pending...)
		if o.Kind == "abort" {
			e.Aborted[o.Msg]++
		}
		for a := range p.ApproxBy {
			e.Approx[a]++
		}
		if e.Trace {
			fmt.Fprintf(os.Stderr, "path %d %v: %s %s\n", n, p.taken, o.Kind, o.Msg)
		}
		if !each(o) {
			return
		}
	}
}

func (p *Path) feasible(c *Term) bool {
	r, _ := p.E.S.Check(append(append([]*Term{}, p.PC...), c), false)
	return r != "unsat"
}

func (p *Path) next() (int64, bool) {
	if p.pos < len(p.Decide) {
		v := p.Decide[p.pos]
		p.pos++
		p.taken = append(p.taken, v)
		return v, true
	}
	return 0, false
}

func (p *Path) take(v int64) { p.taken = append(p.taken, v); p.pos++ }

func (p *Path) later(v int64) {
	p.pending = append(p.pending, append(append([]int64{}, p.taken...), v))
}

// addPC adds a condition and remembers the interval it puts a variable into.
func (p *Path) addPC(c *Term) {
	p.PC = append(p.PC, c)
	pos := true
	if c.Op == "not" {
		c, pos = c.Args[0], false
	}
	if c.Op == "and" && pos {
		for _, x := range c.Args {
			p.addPC(x)
			p.PC = p.PC[:len(p.PC)-1]
		}
		return
	}
	if c.Op != "eq" && c.Op != "le" || c.Args[0].Bool {
		return
	}
	a, ka := split(c.Args[0])
	b, kb := split(c.Args[1])
	if a != nil && b != nil || a == nil && b == nil {
		return
	}
	d := new(big.Int).Sub(kb, ka) // a ? d or -d ? b
	one := big.NewInt(1)
	if c.Op == "eq" {
		if pos {
			if a == nil {
				a, d = b, d.Neg(d)
			}
			p.narrow(a, d, d)
		}
		return
	}
	switch {
	case a != nil && pos:
		p.narrow(a, nil, d)
	case a != nil:
		p.narrow(a, d.Add(d, one), nil)
	case pos:
		p.narrow(b, d.Neg(d), nil)
	default:
		p.narrow(b, nil, d.Sub(d.Neg(d), one))
	}
}

// split writes a term as variable + constant.
func split(t *Term) (*Term, *big.Int) {
	switch {
	case t.IsConst():
		return nil, t.C
	case t.Op == "add" && t.Args[1].IsConst():
		return t.Args[0], t.Args[1].C
	}
	return t, new(big.Int)
}

func (p *Path) narrow(t *Term, lo, hi *big.Int) {
	if p.iv == nil {
		p.iv = map[*Term][2]*big.Int{}
	}
	l, h := p.interval(t)
	if lo != nil && (l == nil || l.Cmp(lo) < 0) {
		l = lo
	}
	if hi != nil && (h == nil || h.Cmp(hi) > 0) {
		h = hi
	}
	p.iv[t] = [2]*big.Int{l, h}
}

func (p *Path) interval(t *Term) (*big.Int, *big.Int) {
	if x, ok := p.iv[t]; ok {
		return x[0], x[1]
	}
	switch {
	case t.IsConst():
		return t.C, t.C
	case t.Op == "add":
		a, b := p.interval(t.Args[0])
		c, d := p.interval(t.Args[1])
		return addB(a, c), addB(b, d)
	}
	return t.Lo, t.Hi
}

// quick decides a comparison from the intervals of the path condition alone.
func (p *Path) quick(c *Term) (bool, bool) {
	pos := true
	if c.Op == "not" {
		c, pos = c.Args[0], false
	}
	if len(p.iv) == 0 || c.Op != "eq" && c.Op != "le" || c.Args[0].Bool {
		return false, false
	}
	al, ah := p.interval(c.Args[0])
	bl, bh := p.interval(c.Args[1])
	less := func(x, y *big.Int) bool { return x != nil && y != nil && x.Cmp(y) < 0 }
	leq := func(x, y *big.Int) bool { return x != nil && y != nil && x.Cmp(y) <= 0 }
	switch {
	case less(bh, al):
		return !pos, true
	case c.Op == "le" && leq(ah, bl):
		return pos, true
	case c.Op == "eq" && less(ah, bl):
		return !pos, true
	case c.Op == "eq" && al != nil && bl != nil && ah != nil && bh != nil && al.Cmp(ah) == 0 && bl.Cmp(bh) == 0 && al.Cmp(bl) == 0:
		return pos, true
	}
	return false, false
}

// Assume restricts the path; false means it is infeasible and the path ends.
func (p *Path) Assume(c *Term) {
	if c == True {
		return
	}
	p.addPC(c)
	if c == False {
		p.Exit("infeasible")
	}
}

// Branch decides a condition, forking when both ways are possible.
func (p *Path) Branch(c *Term) bool {
	if c.IsConst() {
		return c == True
	}
	if v, ok := p.quick(c); ok {
		return v
	}
	if v, ok := p.next(); ok {
		if v&1 == 1 {
			if v&2 == 0 {
				p.addPC(c)
			}
			return true
		}
		if v&2 == 0 {
			p.addPC(Not(c))
		}
		return false
	}
	if len(p.taken) > p.E.MaxForks*10 {
		p.Abort("too many decisions")
	}
	t, f := p.feasible(c), p.feasible(Not(c))
	switch {
	case t && f:
		p.later(0)
		p.take(1)
		p.addPC(c)
		return true
	case t:
		p.take(3)
		return true
	default:
		p.take(2)
		return false
	}
}

// Concrete makes a term concrete, forking over its feasible values.
func (p *Path) Concrete(t *Term) int64 {
	for i := 0; ; i++ {
		if n, ok := t.Int(); ok {
			return n
		}
		if t.IsConst() {
			p.Abort("huge value")
		}
		if i > 300 {
			p.Abort("too many values of " + t.String())
		}
		var v int64
		var ok bool
		if v, ok = p.next(); !ok {
			q := Var(fmt.Sprintf("q%d", t.ID), nil, nil)
			r, m := p.E.S.Check(append(append([]*Term{}, p.PC...), Eq(q, t)), true)
			if r != "sat" {
				p.Abort("cannot enumerate " + t.String())
			}
			x := m[q.Name]
			if x == nil || !x.IsInt64() {
				p.Abort("cannot enumerate " + t.String())
			}
			v = x.Int64()
			p.take(v)
		}
		if p.Branch(Eq(t, N(v))) {
			return v
		}
	}
}

// ---- functions

type frame struct {
	p      *Path
	fn     *ssa.Function
	env    map[ssa.Value]Value
	defers []func()
	panicV *targetPanic
	rec    bool
	caller *frame
	result Value
}

func (p *Path) Global(g *ssa.Global) *Value {
	if c := p.globals[g]; c != nil {
		return c
	}
	if g.Pkg != nil && p.E.interpreted(g.Pkg.Pkg.Path()) {
		p.Init(g.Pkg)
		if c := p.globals[g]; c != nil {
			return c
		}
		c := cell(p.Zero(deref(g.Type())))
		p.globals[g] = c
		return c
	}
	c := cell(p.Havoc(deref(g.Type()), "global "+g.String()))
	p.globals[g] = c
	return c
}

func (e *Engine) interpreted(path string) bool {
	for _, x := range e.Interp {
		if path == x || strings.HasPrefix(path, x+"/") || (strings.HasSuffix(x, "/") && strings.HasPrefix(path, x)) {
			return true
		}
	}
	return false
}

// Init runs a package's initialisation (of this repository only).
func (p *Path) Init(pkg *ssa.Package) {
	if p.inited[pkg] {
		return
	}
	p.inited[pkg] = true
	pkg.Build()
	for _, m := range pkg.Members {
		if g, ok := m.(*ssa.Global); ok && p.globals[g] == nil {
			p.globals[g] = cell(p.Zero(deref(g.Type())))
		}
	}
	if strings.HasPrefix(pkg.Pkg.Path(), p.E.Module) || pkg.Pkg.Path() == "errors" {
		p.call(nil, pkg.Func("init"), nil, nil)
	}
}

func deref(t types.Type) types.Type {
	if q, ok := t.Underlying().(*types.Pointer); ok {
		return q.Elem()
	}
	return t
}

// Call runs a function of the program.
func (p *Path) Call(fn *ssa.Function, args ...Value) Value { return p.call(nil, fn, args, nil) }

// CallValue calls a function value.
func (p *Path) CallValue(f Value, args ...Value) Value {
	switch x := f.(type) {
	case *ssa.Function:
		return p.call(nil, x, args, nil)
	case *Closure:
		if x == nil {
			p.Panic("nil function")
		}
		return p.call(nil, x.Fn, args, x.Env)
	case *Native:
		return x.F(p, args)
	}
	p.Abort(fmt.Sprintf("call of %T", f))
	return nil
}

func results(fn *types.Signature) types.Type {
	switch fn.Results().Len() {
	case 0:
		return types.NewTuple()
	case 1:
		return fn.Results().At(0).Type()
	}
	return fn.Results()
}

func (p *Path) call(caller *frame, fn *ssa.Function, args, env []Value) Value {
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if f := p.E.Intr[name]; f != nil {
		return f(p, &Call{Fn: fn, Name: name, Args: args, Res: results(fn.Signature)})
	}
	for _, s := range p.E.Stub {
		if strings.HasPrefix(name, s) {
			return p.Havoc(results(fn.Signature), fn.Name())
		}
	}
	var path string
	if fn.Pkg != nil {
		path = fn.Pkg.Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		path = fn.Object().Pkg().Path()
	} else if o := fn.Origin(); o != nil && o.Pkg != nil {
		path = o.Pkg.Pkg.Path()
	}
	if fn.Name() == "init" && fn.Pkg != nil && fn.Synthetic != "" {
		if !strings.HasPrefix(path, p.E.Module) && path != "errors" {
			return Tuple{}
		}
		p.inited[fn.Pkg] = true
		for _, m := range fn.Pkg.Members {
			if g, ok := m.(*ssa.Global); ok && p.globals[g] == nil {
				p.globals[g] = cell(p.Zero(deref(g.Type())))
			}
		}
	}
	if fn.Pkg != nil {
		fn.Pkg.Build()
	}
	synthetic := fn.Synthetic != "" && fn.Pkg == nil // wrappers, thunks, instances
	if (!synthetic && !p.E.interpreted(path)) || len(fn.Blocks) == 0 {
		if r, ok := p.native(fn, name, args); ok {
			return r
		}
		return p.External(name, results(fn.Signature), args)
	}
	if strings.HasPrefix(path, p.E.Module) {
		p.E.Funcs[name]++
	}
	if p.depth++; p.depth > 500 {
		p.Abort("recursion")
	}
	defer func() { p.depth-- }()
	fr := &frame{p: p, fn: fn, env: map[ssa.Value]Value{}, caller: caller}
	for i, a := range fn.Params {
		fr.env[a] = args[i]
	}
	for i, a := range fn.FreeVars {
		fr.env[a] = env[i]
	}
	return fr.run()
}

// External answers a call into code that is not executed: arbitrary results, and arbitrary contents behind
// the pointers it was given.
func (p *Path) External(name string, res types.Type, args []Value) Value {
	p.Approx("external call " + name)
	p.Events = append(p.Events, Event{Name: name, Args: args})
	return p.Havoc(res, name)
}

func (fr *frame) run() (res Value) {
	p := fr.p
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			tp, ok := r.(targetPanic)
			if !ok {
				panic(r)
			}
			fr.panicV = &tp
			fr.runDefers()
			if fr.panicV != nil {
				panic(*fr.panicV)
			}
			// recovered
			if fr.fn.Recover != nil {
				fr.block(fr.fn.Recover, nil)
			} else {
				fr.result = p.Zero(results(fr.fn.Signature))
			}
		}()
		fr.block(fr.fn.Blocks[0], nil)
	}()
	return fr.result
}

func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				if r := recover(); r != nil {
					if tp, ok := r.(targetPanic); ok {
						fr.panicV = &tp
						return
					}
					panic(r)
				}
			}()
			d()
		}()
	}
}

func (fr *frame) get(v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return fr.p.constant(x)
	case *ssa.Global:
		return fr.p.Global(x)
	case *ssa.Function:
		return x
	case *ssa.Builtin:
		return x
	}
	r, ok := fr.env[v]
	if !ok {
		fr.p.Abort("no value for " + v.Name())
	}
	return r
}

func (p *Path) constant(c *ssa.Const) Value {
	if c.Value == nil {
		return p.Zero(c.Type())
	}
	u, ok := c.Type().Underlying().(*types.Basic)
	if !ok {
		p.Abort("constant of " + c.Type().String())
	}
	switch {
	case u.Info()&types.IsBoolean != 0:
		return B(constant.BoolVal(c.Value))
	case u.Info()&types.IsInteger != 0:
		n, _ := new(big.Int).SetString(constant.ToInt(c.Value).ExactString(), 10)
		return NB(n)
	case u.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		return f
	case u.Info()&types.IsString != 0:
		return Lit(constant.StringVal(c.Value))
	}
	p.Abort("constant of " + c.Type().String())
	return nil
}

func (fr *frame) block(b, prev *ssa.BasicBlock) {
	p := fr.p
	for b != nil {
		var phis []Value
		var next *ssa.BasicBlock
		i := 0
		for ; i < len(b.Instrs); i++ {
			ph, ok := b.Instrs[i].(*ssa.Phi)
			if !ok {
				break
			}
			for k, q := range b.Preds {
				if q == prev {
					phis = append(phis, fr.get(ph.Edges[k]))
					break
				}
			}
		}
		for k, v := range phis {
			fr.env[b.Instrs[k].(*ssa.Phi)] = v
		}
		for ; i < len(b.Instrs); i++ {
			if p.steps++; p.steps > p.E.MaxSteps {
				p.Abort("step limit")
			}
			switch in := b.Instrs[i].(type) {
			case *ssa.If:
				c := fr.get(in.Cond).(*Term)
				if p.Branch(c) {
					next = b.Succs[0]
				} else {
					next = b.Succs[1]
				}
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.Return:
				switch len(in.Results) {
				case 0:
					fr.result = Tuple{}
				case 1:
					fr.result = Copy(fr.get(in.Results[0]))
				default:
					var t Tuple
					for _, r := range in.Results {
						t = append(t, Copy(fr.get(r)))
					}
					fr.result = t
				}
				return
			case *ssa.Panic:
				v := fr.get(in.X)
				panic(targetPanic{v})
			default:
				fr.instr(in)
			}
		}
		prev, b = b, next
	}
}

func (fr *frame) instr(in ssa.Instruction) {
	p := fr.p
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		fr.env[x] = cell(p.Zero(deref(x.Type())))
	case *ssa.BinOp:
		fr.env[x] = p.binop(x.Op, fr.get(x.X), fr.get(x.Y), x.X.Type(), x.Type())
	case *ssa.UnOp:
		fr.env[x] = fr.unop(x)
	case *ssa.Call:
		fr.env[x] = fr.callCommon(&x.Call)
	case *ssa.ChangeInterface:
		fr.env[x] = fr.get(x.X)
	case *ssa.ChangeType:
		fr.env[x] = fr.get(x.X)
	case *ssa.Convert:
		fr.env[x] = p.convert(fr.get(x.X), x.X.Type(), x.Type())
	case *ssa.MultiConvert:
		fr.env[x] = p.convert(fr.get(x.X), x.X.Type(), x.Type())
	case *ssa.SliceToArrayPointer:
		s := fr.get(x.X).(Slice)
		n := int(deref(x.Type()).Underlying().(*types.Array).Len())
		if !p.Branch(Le(N(int64(n)), s.Len())) {
			p.Panic("slice to array conversion: length out of range")
		}
		a := make(Array, n)
		for i := range a {
			a[i] = s.At(i)
		}
		fr.env[x] = cell(Value(a))
	case *ssa.Defer:
		f, args := fr.prepare(&x.Call)
		fr.defers = append(fr.defers, func() { f(args) })
	case *ssa.RunDefers:
		fr.runDefers()
		if fr.panicV != nil {
			tp := *fr.panicV
			fr.panicV = nil
			panic(tp)
		}
	case *ssa.Extract:
		t := fr.get(x.Tuple)
		tt, ok := t.(Tuple)
		if !ok {
			p.Abort("extract")
		}
		fr.env[x] = tt[x.Index]
	case *ssa.Field:
		switch s := fr.get(x.X).(type) {
		case Struct:
			fr.env[x] = Copy(*s[x.Field])
		case *Opaque:
			fr.env[x] = *p.opaqueField(s, x.Field, x.Type())
		default:
			p.Abort("field of " + fmt.Sprintf("%T", s))
		}
	case *ssa.FieldAddr:
		switch q := fr.get(x.X).(type) {
		case *Value:
			if q == nil {
				p.Panic("nil pointer dereference")
			}
			switch s := (*q).(type) {
			case Struct:
				fr.env[x] = s[x.Field]
			case *Opaque:
				fr.env[x] = p.opaqueField(s, x.Field, deref(x.Type()))
			default:
				p.Abort(fmt.Sprintf("field address of %T", s))
			}
		case *Opaque:
			fr.env[x] = p.opaqueField(q, x.Field, deref(x.Type()))
		default:
			p.Abort(fmt.Sprintf("field address of %T", q))
		}
	case *ssa.Index:
		i := fr.get(x.Index).(*Term)
		switch a := fr.get(x.X).(type) {
		case Array:
			fr.env[x] = Copy(*a[p.index(i, N(int64(len(a))))])
		case Str:
			fr.env[x] = p.strIndex(a, i)
		default:
			p.Abort(fmt.Sprintf("index of %T", a))
		}
	case *ssa.IndexAddr:
		i := fr.get(x.Index).(*Term)
		switch a := fr.get(x.X).(type) {
		case Slice:
			fr.env[x] = a.At(p.index(i, a.Len()))
		case *Value:
			if a == nil {
				p.Panic("nil pointer dereference")
			}
			arr, ok := (*a).(Array)
			if !ok {
				p.Abort(fmt.Sprintf("index address in %T", *a))
			}
			fr.env[x] = arr[p.index(i, N(int64(len(arr))))]
		default:
			p.Abort(fmt.Sprintf("index address of %T", a))
		}
	case *ssa.Lookup:
		if s, ok := fr.get(x.X).(Str); ok {
			fr.env[x] = p.strIndex(s, fr.get(x.Index).(*Term))
			return
		}
		m, ok := fr.get(x.X).(*Map)
		if !ok {
			p.Abort("lookup in an unknown map")
		}
		k := fr.get(x.Index)
		var v Value
		found := false
		if m != nil {
			for i := range m.keys {
				if p.Branch(p.equal(m.keys[i], k)) {
					v, found = m.vals[i], true
					break
				}
			}
		}
		vt := x.Type()
		if x.CommaOk {
			vt = x.Type().(*types.Tuple).At(0).Type()
		}
		if !found {
			v = p.Zero(vt)
		}
		v = Copy(v)
		if x.CommaOk {
			fr.env[x] = Tuple{v, B(found)}
		} else {
			fr.env[x] = v
		}
	case *ssa.MapUpdate:
		m, ok := fr.get(x.Map).(*Map)
		if !ok {
			p.Abort("update of an unknown map")
		}
		if m == nil {
			p.Panic("assignment to entry in nil map")
		}
		k, v := fr.get(x.Key), Copy(fr.get(x.Value))
		for i := range m.keys {
			if p.Branch(p.equal(m.keys[i], k)) {
				m.vals[i] = v
				return
			}
		}
		m.keys, m.vals = append(m.keys, k), append(m.vals, v)
	case *ssa.MakeClosure:
		var env []Value
		for _, b := range x.Bindings {
			env = append(env, fr.get(b))
		}
		fr.env[x] = &Closure{Fn: x.Fn.(*ssa.Function), Env: env}
	case *ssa.MakeInterface:
		fr.env[x] = Iface{T: x.X.Type(), V: Copy(fr.get(x.X))}
	case *ssa.MakeMap:
		fr.env[x] = &Map{}
	case *ssa.MakeSlice:
		n, c := fr.get(x.Len).(*Term), fr.get(x.Cap).(*Term)
		if !p.Branch(And(Le(N(0), n), Le(n, c))) {
			p.Panic("makeslice: len out of range")
		}
		et := x.Type().Underlying().(*types.Slice).Elem()
		cn := p.Concrete(c)
		if cn > 1<<20 {
			p.Abort("huge slice")
		}
		fr.env[x] = Slice{b: &Backing{mk: func(int) Value { return p.Zero(et) }}, len: n, cap: int(cn)}
	case *ssa.Next:
		fr.env[x] = fr.next(x)
	case *ssa.Range:
		switch v := fr.get(x.X).(type) {
		case *Map:
			fr.env[x] = &iter{m: v}
			if v != nil {
				n := len(v.keys)
				o := make([]int, n)
				for i := range o {
					o[i] = i
					if p.MapOrder == 1 {
						o[i] = n - 1 - i
					}
				}
				fr.env[x] = &iter{m: v, order: o}
			}
		case Str:
			s, ok := v.Concrete()
			if !ok {
				p.Abort("range over a symbolic string")
			}
			fr.env[x] = &iter{s: []rune(s), str: s}
		default:
			p.Abort(fmt.Sprintf("range over %T", v))
		}
	case *ssa.Slice:
		fr.env[x] = fr.slice(x)
	case *ssa.Store:
		c, ok := fr.get(x.Addr).(*Value)
		if !ok {
			p.Abort("store through an unknown pointer")
		}
		if c == nil {
			p.Panic("nil pointer dereference")
		}
		assign(c, fr.get(x.Val))
	case *ssa.TypeAssert:
		fr.env[x] = p.typeAssert(fr.get(x.X), x.AssertedType, x.CommaOk)
	default:
		p.Abort(fmt.Sprintf("instruction %T", in))
	}
}

func (p *Path) opaqueField(o *Opaque, i int, t types.Type) *Value {
	if o.sub == nil {
		o.sub = map[string]Value{}
	}
	k := fmt.Sprint("f", i)
	if c, ok := o.sub[k]; ok {
		return c.(*Value)
	}
	c := cell(p.Havoc(t, fmt.Sprintf("%s.f%d", o.Tag, i)))
	o.sub[k] = c
	return c
}

func (p *Path) index(i, n *Term) int {
	if !p.Branch(And(Le(N(0), i), Lt(i, n))) {
		p.Panic("index out of range")
	}
	return int(p.Concrete(i))
}

func (p *Path) strIndex(s Str, i *Term) Value {
	c, ok := s.Concrete()
	if !ok {
		// literal prefix
		if n, k := i.Int(); k && len(s) > 0 && s[0].Num == nil && n >= 0 && int(n) < len(s[0].Lit) {
			return N(int64(s[0].Lit[n]))
		}
		p.Abort("index into a symbolic string")
	}
	return N(int64(c[p.index(i, N(int64(len(c))))]))
}

type iter struct {
	m     *Map
	order []int
	i     int
	s     []rune
	str   string
}

func (fr *frame) next(x *ssa.Next) Value {
	it := fr.get(x.Iter).(*iter)
	if x.IsString {
		if it.i >= len(it.str) {
			return Tuple{False, N(0), N(0)}
		}
		for _, r := range it.str[it.i:] {
			at := it.i
			it.i += len(string(r))
			return Tuple{True, N(int64(at)), N(int64(r))}
		}
	}
	tt := x.Type().(*types.Tuple)
	if it.m == nil || it.i >= len(it.order) {
		return Tuple{False, fr.p.zeroOr(tt.At(1).Type()), fr.p.zeroOr(tt.At(2).Type())}
	}
	k := it.order[it.i]
	it.i++
	return Tuple{True, it.m.keys[k], Copy(it.m.vals[k])}
}

func (p *Path) zeroOr(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nil
	}
	return p.Zero(t)
}

func (fr *frame) slice(x *ssa.Slice) Value {
	p := fr.p
	v := fr.get(x.X)
	get := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return fr.get(v).(*Term)
	}
	switch s := v.(type) {
	case Str:
		c, ok := s.Concrete()
		if !ok {
			p.Abort("slice of a symbolic string")
		}
		n := N(int64(len(c)))
		lo, hi := get(x.Low, N(0)), get(x.High, n)
		if !p.Branch(And(Le(N(0), lo), Le(lo, hi), Le(hi, n))) {
			p.Panic("slice bounds out of range")
		}
		return Lit(c[p.Concrete(lo):p.Concrete(hi)])
	case *Value:
		if s == nil {
			p.Panic("nil pointer dereference")
		}
		a, ok := (*s).(Array)
		if !ok {
			p.Abort("slice of an unknown array")
		}
		n := N(int64(len(a)))
		lo, hi := get(x.Low, N(0)), get(x.High, n)
		mx := get(x.Max, n)
		if !p.Branch(And(Le(N(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, n))) {
			p.Panic("slice bounds out of range")
		}
		l := p.Concrete(lo)
		return Slice{b: &Backing{cells: a}, off: int(l), len: Sub(hi, lo), cap: int(p.Concrete(mx) - l)}
	case Slice:
		lo, hi := get(x.Low, N(0)), get(x.High, s.Len())
		cp := s.Len()
		if _, ok := s.Len().Int(); ok {
			cp = N(int64(s.cap))
		}
		mx := get(x.Max, cp)
		if !p.Branch(And(Le(N(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, cp))) {
			p.Panic("slice bounds out of range")
		}
		if s.b == nil {
			return s
		}
		l := p.Concrete(lo)
		r := Slice{b: s.b, off: s.off + int(l), len: Sub(hi, lo)}
		if n, ok := mx.Int(); ok {
			r.cap = int(n - l)
		}
		return r
	}
	p.Abort(fmt.Sprintf("slice of %T", v))
	return nil
}

func (fr *frame) unop(x *ssa.UnOp) Value {
	p := fr.p
	v := fr.get(x.X)
	switch x.Op {
	case token.MUL:
		switch c := v.(type) {
		case *Value:
			if c == nil {
				p.Panic("nil pointer dereference")
			}
			return Copy(*c)
		case *Opaque:
			return *p.opaqueDeref(c, x.Type())
		}
	case token.NOT:
		return Not(v.(*Term))
	case token.SUB:
		switch n := v.(type) {
		case *Term:
			b, s, _ := intType(x.Type())
			return Wrap(Neg(n), b, s)
		case float64:
			return -n
		}
	case token.XOR:
		if n, ok := v.(*Term); ok {
			b, s, _ := intType(x.Type())
			return Wrap(Sub(N(-1), n), b, s)
		}
	}
	if o, ok := v.(*Opaque); ok {
		return p.Havoc(x.Type(), "op "+o.Tag)
	}
	p.Abort(fmt.Sprintf("unary %s on %T", x.Op, v))
	return nil
}

func (p *Path) opaqueDeref(o *Opaque, t types.Type) *Value {
	if o.sub == nil {
		o.sub = map[string]Value{}
	}
	if c, ok := o.sub["*"]; ok {
		return c.(*Value)
	}
	c := cell(p.Havoc(t, "*"+o.Tag))
	o.sub["*"] = c
	return c
}

func (p *Path) nilness(o *Opaque) *Term {
	if o.nul == nil {
		p.fresh++
		o.nul = BoolVar(fmt.Sprintf("nil%d!%s", p.fresh, o.Tag))
	}
	return o.nul
}

// equal is ==.
func (p *Path) equal(a, b Value) *Term {
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok {
			return Eq(x, y)
		}
	case float64:
		if y, ok := b.(float64); ok {
			return B(x == y)
		}
	case Str:
		if y, ok := b.(Str); ok {
			c, ok := EqStr(x, y)
			if !ok {
				p.Abort("comparison of symbolic strings")
			}
			return c
		}
	case *Value:
		if y, ok := b.(*Value); ok {
			return B(x == y)
		}
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			break
		}
		if x.T == nil || y.T == nil {
			z := x
			if x.T == nil {
				z = y
			}
			if z.T == nil {
				return True
			}
			if o, ok := z.V.(*Opaque); ok && z.T == p.E.opaqueDyn {
				return p.nilness(o)
			}
			return False
		}
		if x.T == p.E.opaqueDyn || y.T == p.E.opaqueDyn {
			if x.V == y.V {
				return True
			}
			p.fresh++
			return BoolVar(fmt.Sprintf("cmp%d", p.fresh))
		}
		if !types.Identical(x.T, y.T) {
			return False
		}
		return p.equal(x.V, y.V)
	case Struct:
		if y, ok := b.(Struct); ok {
			c := True
			for i := range x {
				c = And(c, p.equal(*x[i], *y[i]))
			}
			return c
		}
	case Array:
		if y, ok := b.(Array); ok {
			c := True
			for i := range x {
				c = And(c, p.equal(*x[i], *y[i]))
			}
			return c
		}
	case Slice: // only against nil
		y := b.(Slice)
		return B(x.b == nil && y.b == nil)
	case *Map:
		return B(x == b.(*Map))
	case *Closure, *ssa.Function, *Native:
		n := func(v Value) bool { c, ok := v.(*Closure); return ok && c == nil }
		return B(n(a) && n(b))
	case *Opaque:
		if y, ok := b.(*Opaque); ok && x == y {
			return True
		}
		if q, ok := b.(*Value); ok && q == nil {
			return p.nilness(x)
		}
		if _, ok := b.(Slice); ok {
			return p.nilness(x)
		}
		p.fresh++
		return BoolVar(fmt.Sprintf("cmp%d", p.fresh))
	}
	if _, ok := b.(*Opaque); ok {
		return p.equal(b, a)
	}
	if _, ok := b.(*Closure); ok {
		return False
	}
	p.Abort(fmt.Sprintf("comparison of %T and %T", a, b))
	return nil
}

func (p *Path) binop(op token.Token, a, b Value, t, rt types.Type) Value {
	switch op {
	case token.EQL:
		return p.equal(a, b)
	case token.NEQ:
		return Not(p.equal(a, b))
	}
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok {
			break
		}
		if x.Bool {
			switch op {
			case token.AND:
				return And(x, y)
			case token.OR:
				return Or(x, y)
			}
		}
		return p.intop(op, x, y, t)
	case float64:
		y, ok := b.(float64)
		if !ok {
			break
		}
		switch op {
		case token.ADD:
			return x + y
		case token.SUB:
			return x - y
		case token.MUL:
			return x * y
		case token.QUO:
			return x / y
		case token.LSS:
			return B(x < y)
		case token.LEQ:
			return B(x <= y)
		case token.GTR:
			return B(x > y)
		case token.GEQ:
			return B(x >= y)
		}
	case Str:
		y, ok := b.(Str)
		if !ok {
			break
		}
		if op == token.ADD {
			return Cat(x, y)
		}
		c, k1 := x.Concrete()
		d, k2 := y.Concrete()
		if k1 && k2 {
			switch op {
			case token.LSS:
				return B(c < d)
			case token.LEQ:
				return B(c <= d)
			case token.GTR:
				return B(c > d)
			case token.GEQ:
				return B(c >= d)
			}
		}
	}
	_, o1 := a.(*Opaque)
	_, o2 := b.(*Opaque)
	if o1 || o2 {
		p.Approx("operation on an unknown value")
		return p.Havoc(rt, "op")
	}
	p.Abort(fmt.Sprintf("%T %s %T", a, op, b))
	return nil
}

func (p *Path) intop(op token.Token, x, y *Term, t types.Type) Value {
	bits, signed, _ := intType(t)
	w := func(t *Term) *Term { return Wrap(t, bits, signed) }
	nonneg := func(t *Term) bool { return t.Lo != nil && t.Lo.Sign() >= 0 }
	pow := func(t *Term) (int, bool) {
		if !t.IsConst() || t.C.Sign() <= 0 {
			return 0, false
		}
		n := t.C.BitLen() - 1
		return n, new(big.Int).Lsh(BI(1), uint(n)).Cmp(t.C) == 0
	}
	switch op {
	case token.ADD:
		return w(Add(x, y))
	case token.SUB:
		return w(Sub(x, y))
	case token.MUL:
		return w(Mul(x, y))
	case token.LSS:
		return Lt(x, y)
	case token.LEQ:
		return Le(x, y)
	case token.GTR:
		return Lt(y, x)
	case token.GEQ:
		return Le(y, x)
	case token.QUO, token.REM:
		if p.Branch(Eq(y, N(0))) {
			p.Panic("integer divide by zero")
		}
		if nonneg(x) && nonneg(y) {
			if op == token.QUO {
				return Div(x, y)
			}
			return Mod(x, y)
		}
		abs := func(t *Term) *Term { return Ite(Le(N(0), t), t, Neg(t)) }
		q := Div(abs(x), abs(y))
		q = Ite(Eq(Le(N(0), x), Le(N(0), y)), q, Neg(q))
		if op == token.QUO {
			return w(q)
		}
		return w(Sub(x, Mul(q, y)))
	case token.SHL:
		if !nonneg(y) && !p.Branch(Le(N(0), y)) {
			p.Panic("negative shift amount")
		}
		if !p.Branch(Lt(y, N(int64(bits)))) {
			return N(0)
		}
		y = p.clamp(y, 0, int64(bits-1))
		return w(Mul(x, Pow2(y)))
	case token.SHR:
		if !nonneg(y) && !p.Branch(Le(N(0), y)) {
			p.Panic("negative shift amount")
		}
		if !p.Branch(Lt(y, N(int64(bits)))) {
			if nonneg(x) {
				return N(0)
			}
			return Ite(Le(N(0), x), N(0), N(-1))
		}
		y = p.clamp(y, 0, int64(bits-1))
		return Div(x, Pow2(y))
	case token.AND:
		if x.IsConst() {
			x, y = y, x
		}
		if x.IsConst() && y.IsConst() {
			return NB(new(big.Int).And(x.C, y.C))
		}
		if y.IsConst() && nonneg(y) {
			if n, ok := pow(Add(y, N(1))); ok {
				return Mod(x, NB(new(big.Int).Lsh(BI(1), uint(n))))
			}
			if n, ok := pow(y); ok {
				m := NB(new(big.Int).Lsh(BI(1), uint(n)))
				return Mul(Mod(Div(x, m), N(2)), m)
			}
		}
	case token.OR, token.XOR, token.AND_NOT:
		if x.IsConst() && y.IsConst() {
			r := new(big.Int)
			switch op {
			case token.OR:
				r.Or(x.C, y.C)
			case token.XOR:
				r.Xor(x.C, y.C)
			default:
				r.AndNot(x.C, y.C)
			}
			return NB(r)
		}
		if op != token.AND_NOT {
			if y == N(0) {
				return x
			}
			if x == N(0) {
				return y
			}
		}
	}
	lo, hi := p.E.Range(t)
	return UF("go"+map[token.Token]string{token.AND: "and", token.OR: "or", token.XOR: "xor", token.AND_NOT: "andnot"}[op], lo, hi, x, y)
}

// clamp records bounds that the path condition already implies.
func (p *Path) clamp(t *Term, lo, hi int64) *Term {
	if t.IsConst() || (t.Lo != nil && t.Hi != nil && t.Lo.Cmp(BI(lo)) >= 0 && t.Hi.Cmp(BI(hi)) <= 0) {
		return t
	}
	v := Var(fmt.Sprintf("c%d!%d!%d", t.ID, lo, hi), BI(lo), BI(hi))
	p.PC = append(p.PC, Eq(v, t))
	return v
}

func (p *Path) convert(v Value, from, to types.Type) Value {
	fu, tu := from.Underlying(), to.Underlying()
	fb, fIs := fu.(*types.Basic)
	tb, tIs := tu.(*types.Basic)
	if o, ok := v.(*Opaque); ok {
		if s, ok := tu.(*types.Slice); ok && o.Data != nil {
			_ = s
			return o
		}
		if tIs && tb.Info()&types.IsString != 0 && o.Data != nil {
			return o
		}
		if f, ok := o.Data.(floatOf); ok && tIs && tb.Info()&types.IsInteger != 0 {
			lo, hi := p.E.Range(to)
			return UF("float64", lo, hi, f.t)
		}
		return p.Havoc(to, "conv "+o.Tag)
	}
	if fIs && tIs {
		switch x := v.(type) {
		case *Term:
			if tb.Info()&types.IsInteger != 0 {
				b, s, _ := intType(to)
				return Wrap(x, b, s)
			}
			if tb.Info()&types.IsFloat != 0 {
				if x.IsConst() {
					f, _ := new(big.Float).SetInt(x.C).Float64()
					return f
				}
				o := p.Opaque(to, "float")
				o.Data = floatOf{x}
				return o
			}
			if tb.Info()&types.IsString != 0 && x.IsConst() {
				return Lit(string(rune(x.C.Int64())))
			}
		case float64:
			if tb.Info()&types.IsInteger != 0 {
				b, s, _ := intType(to)
				if math.IsNaN(x) || math.IsInf(x, 0) {
					return p.Havoc(to, "conv")
				}
				n, _ := new(big.Float).SetFloat64(math.Trunc(x)).Int(nil)
				return Wrap(NB(n), b, s)
			}
			if tb.Info()&types.IsFloat != 0 {
				if tb.Kind() == types.Float32 {
					return float64(float32(x))
				}
				return x
			}
		case Str:
			return x
		}
	}
	if fIs && fb.Info()&types.IsString != 0 {
		if sl, ok := tu.(*types.Slice); ok {
			s := v.(Str)
			c, ok := s.Concrete()
			if !ok {
				o := p.Opaque(to, "bytes")
				o.Data = s
				return o
			}
			var vs []Value
			if b := sl.Elem().Underlying().(*types.Basic); b.Kind() == types.Uint8 {
				for i := 0; i < len(c); i++ {
					vs = append(vs, N(int64(c[i])))
				}
			} else {
				for _, r := range c {
					vs = append(vs, N(int64(r)))
				}
			}
			return MkSlice(vs)
		}
	}
	if tIs && tb.Info()&types.IsString != 0 {
		if s, ok := v.(Slice); ok {
			var out []byte
			n := p.Concrete(s.Len())
			rune32 := fu.(*types.Slice).Elem().Underlying().(*types.Basic).Kind() == types.Int32
			for i := 0; i < int(n); i++ {
				c, ok := (*s.At(i)).(*Term).Int()
				if !ok {
					p.Abort("symbolic bytes")
				}
				if rune32 {
					out = append(out, string(rune(c))...)
				} else {
					out = append(out, byte(c))
				}
			}
			return Lit(string(out))
		}
	}
	if types.Identical(fu, tu) {
		return v
	}
	switch v.(type) {
	case *Value, Struct, Array, Slice:
		return v
	}
	p.Abort(fmt.Sprintf("conversion %s to %s", from, to))
	return nil
}

type floatOf struct{ t *Term }

// MkSlice makes a slice of the given values.
func MkSlice(vs []Value) Slice {
	b := &Backing{}
	for _, v := range vs {
		b.cells = append(b.cells, cell(v))
	}
	return Slice{b: b, len: N(int64(len(vs))), cap: len(vs)}
}

// SymSlice makes a slice of symbolic length.
func SymSlice(n *Term, mk func(i int) Value) Slice { return Slice{b: &Backing{mk: mk}, len: n} }

// Elems are the elements of a slice of concrete length.
func (p *Path) Elems(s Slice) []Value {
	n := int(p.Concrete(s.Len()))
	var r []Value
	for i := 0; i < n; i++ {
		r = append(r, *s.At(i))
	}
	return r
}

func (p *Path) typeAssert(v Value, t types.Type, commaOk bool) Value {
	i, ok := v.(Iface)
	if !ok {
		p.Abort(fmt.Sprintf("type assertion on %T", v))
	}
	yes := False
	var r Value
	it, toIface := t.Underlying().(*types.Interface)
	switch {
	case i.T == nil:
	case i.T == p.E.opaqueDyn:
		o := i.V.(*Opaque)
		if toIface {
			yes, r = True, i
		} else {
			if o.sub == nil {
				o.sub = map[string]Value{}
			}
			k := "as " + t.String()
			if o.sub[k] == nil {
				o.sub[k] = p.Havoc(t, o.Tag)
			}
			yes, r = True, o.sub[k]
		}
		if commaOk {
			p.fresh++
			yes = BoolVar(fmt.Sprintf("is%d!%s", p.fresh, t.String()))
			p.Approx("type test of an unknown value")
		}
	case toIface:
		yes, r = B(types.Implements(i.T, it)), i
	default:
		yes, r = B(types.Identical(i.T, t)), i.V
	}
	if !commaOk {
		if !p.Branch(yes) {
			p.Panic("interface conversion")
		}
		return Copy(r)
	}
	if p.Branch(yes) {
		return Tuple{Copy(r), True}
	}
	return Tuple{p.Zero(t), False}
}

func (fr *frame) prepare(c *ssa.CallCommon) (func(args []Value) Value, []Value) {
	p := fr.p
	var args []Value
	for _, a := range c.Args {
		args = append(args, Copy(fr.get(a)))
	}
	if c.IsInvoke() {
		recv := fr.get(c.Value)
		i, ok := recv.(Iface)
		if !ok {
			p.Abort("invoke on " + fmt.Sprintf("%T", recv))
		}
		return func(args []Value) Value { return p.invoke(fr, i, c, args) }, args
	}
	switch f := fr.get(c.Value).(type) {
	case *ssa.Builtin:
		return func(args []Value) Value { return fr.builtin(f, c, args) }, args
	case *ssa.Function:
		return func(args []Value) Value { return p.call(fr, f, args, nil) }, args
	case *Closure:
		if f == nil {
			return func(args []Value) Value { p.Panic("nil function"); return nil }, args
		}
		return func(args []Value) Value { return p.call(fr, f.Fn, args, f.Env) }, args
	case *Native:
		return func(args []Value) Value { return f.F(p, args) }, args
	case *Opaque:
		return func(args []Value) Value {
			return p.External("a function value "+f.Tag, results(c.Signature()), args)
		}, args
	default:
		p.Abort(fmt.Sprintf("call of %T", f))
	}
	return nil, nil
}

func (p *Path) invoke(fr *frame, i Iface, c *ssa.CallCommon, args []Value) Value {
	if i.T == nil {
		p.Panic("nil interface method call")
	}
	name := c.Method.FullName()
	if i.T == p.E.opaqueDyn {
		if f := p.E.Intr[name]; f != nil {
			return f(p, &Call{Name: name, Args: append([]Value{i}, args...), Res: results(c.Signature()), Common: c})
		}
		for _, s := range p.E.Stub {
			if strings.HasPrefix(name, s) {
				return p.Havoc(results(c.Signature()), c.Method.Name())
			}
		}
		return p.External(name, results(c.Signature()), append([]Value{i}, args...))
	}
	sel := p.E.Prog.MethodSets.MethodSet(i.T).Lookup(c.Method.Pkg(), c.Method.Name())
	if sel == nil {
		p.Abort("no method " + name)
	}
	m := p.E.Prog.MethodValue(sel)
	return p.call(fr, m, append([]Value{Copy(i.V)}, args...), nil)
}

func (fr *frame) callCommon(c *ssa.CallCommon) Value {
	f, args := fr.prepare(c)
	return f(args)
}

func (fr *frame) builtin(b *ssa.Builtin, c *ssa.CallCommon, args []Value) Value {
	p := fr.p
	switch b.Name() {
	case "len", "cap":
		switch x := args[0].(type) {
		case Slice:
			if b.Name() == "cap" {
				if _, ok := x.Len().Int(); ok {
					return N(int64(x.cap))
				}
			}
			return x.Len()
		case Str:
			n := N(0)
			for _, g := range x {
				if g.Num == nil {
					n = Add(n, N(int64(len(g.Lit))))
				} else {
					n = Add(n, digits(g.Num))
				}
			}
			return n
		case *Map:
			if x == nil {
				return N(0)
			}
			return N(int64(len(x.keys)))
		case Array:
			return N(int64(len(x)))
		case *Value:
			if a, ok := (*x).(Array); ok {
				return N(int64(len(a)))
			}
		case *Opaque:
			return p.Havoc(types.Typ[types.Int], "len")
		}
	case "append":
		s, ok := args[0].(Slice)
		if !ok {
			break
		}
		var add []Value
		switch y := args[1].(type) {
		case Slice:
			add = p.Elems(y)
		case Str:
			cs, ok := y.Concrete()
			if !ok {
				p.Abort("append of a symbolic string")
			}
			for i := 0; i < len(cs); i++ {
				add = append(add, N(int64(cs[i])))
			}
		default:
			p.Abort("append")
		}
		if len(add) == 0 {
			return s
		}
		n := int(p.Concrete(s.Len()))
		if s.b != nil && n+len(add) <= s.cap {
			for i, v := range add {
				assign(s.b.at(s.off+n+i), v)
			}
			return Slice{b: s.b, off: s.off, len: N(int64(n + len(add))), cap: s.cap}
		}
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		nb := &Backing{mk: func(int) Value { return p.Zero(et) }}
		for i := 0; i < n; i++ {
			nb.cells = append(nb.cells, cell(Copy(*s.At(i))))
		}
		for _, v := range add {
			nb.cells = append(nb.cells, cell(Copy(v)))
		}
		cp := n + len(add)
		if cp < 2*s.cap {
			cp = 2 * s.cap
		}
		return Slice{b: nb, len: N(int64(n + len(add))), cap: cp}
	case "copy":
		d, ok := args[0].(Slice)
		if !ok {
			break
		}
		s, ok := args[1].(Slice)
		if !ok {
			break
		}
		n, m := int(p.Concrete(d.Len())), int(p.Concrete(s.Len()))
		if m < n {
			n = m
		}
		var t []Value
		for i := 0; i < n; i++ {
			t = append(t, Copy(*s.At(i)))
		}
		for i := range t {
			assign(d.At(i), t[i])
		}
		return N(int64(n))
	case "delete":
		m, _ := args[0].(*Map)
		if m == nil {
			return Tuple{}
		}
		for i := range m.keys {
			if p.Branch(p.equal(m.keys[i], args[1])) {
				m.keys = append(append([]Value{}, m.keys[:i]...), m.keys[i+1:]...)
				m.vals = append(append([]Value{}, m.vals[:i]...), m.vals[i+1:]...)
				break
			}
		}
		return Tuple{}
	case "min", "max":
		r, ok := args[0].(*Term)
		if !ok {
			break
		}
		for _, a := range args[1:] {
			y := a.(*Term)
			if b.Name() == "min" {
				r = Ite(Le(r, y), r, y)
			} else {
				r = Ite(Le(r, y), y, r)
			}
		}
		return r
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			x.keys, x.vals = nil, nil
			return Tuple{}
		case Slice:
			et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := 0; i < int(p.Concrete(x.Len())); i++ {
				assign(x.At(i), p.Zero(et))
			}
			return Tuple{}
		}
	case "print", "println":
		return Tuple{}
	case "panic":
		panic(targetPanic{args[0]})
	case "recover":
		// the deferred function's caller is panicking
		for f := fr.caller; f != nil; f = f.caller {
			if f.panicV != nil {
				v := f.panicV.v
				f.panicV = nil
				return v
			}
		}
		return Iface{}
	case "ssa:wrapnilchk":
		if q, ok := args[0].(*Value); ok && q == nil {
			p.Panic("nil pointer dereference")
		}
		return args[0]
	}
	p.Abort("builtin " + b.Name())
	return nil
}

// digits is the number of decimal digits of a term.
func digits(t *Term) *Term {
	pow := func(d int) *big.Int { return new(big.Int).Exp(BI(10), BI(int64(d)), nil) }
	top := 90
	if t.Hi != nil {
		top = 1
		for t.Hi.Cmp(pow(top)) >= 0 {
			top++
		}
	}
	n := N(int64(top))
	for d := top - 1; d >= 1; d-- {
		n = Ite(Lt(t, NB(pow(d))), N(int64(d)), n)
	}
	return n
}

// Sorted keys of a counter.
func Keys(m map[string]int) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
