package sym

import (
	"fmt"
	"math/big"
	"sort"
	"strings"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
)

var one = big.NewInt(1)

// Lift turns the constraint system recorded by a symbolic run into facts about
// integers (bounds) and about the Goldilocks field (definitions, equations).
// Every step that is not a mere rewriting of names is a solver query.
type Lift struct {
	C     *Ctx
	S     *Solver
	NSpec int // atoms below this id belong to inputs and specification

	UB       []*big.Int
	rep      []int
	def      []PolyM
	hasDef   []bool
	quot     []bool
	rank     []int
	nextRank int
	cst      map[int]fr.Element // code facts: constant atoms
	zp       map[string]bool    // code facts: zero products (pairs of atoms)
	nzPairs  []nzPair
	consumed map[int]bool
	byKey    map[string]int
	byFp     map[[K]uint64][]int
	structK  map[string]int
	resolved []int8 // 0 no, 1 in progress, 2 yes
	nfPoly   map[int]Poly
	changed  bool

	Resid   []*Resid
	Pending []*AssertEv
	NonZero []string
	Notes   []string
	Lemmas  map[string]int

	Undef      map[int]bool // undefined hint atoms met in definitions or equations
	Clusters   int
	Defs       int
	Merged     int
	NoWrapBad  []*AssertEv
	trace      bool
	strict     []int            // range checks that are not shown to admit every value up to the bound
	strictVal  map[int]*big.Int // a value they reject
	incomplete []*AssertEv
	ufFp       map[ufFp][]int
	bitsOf     map[int][]int
	Outs       []Poly // values the code hands on
	lin        map[int]PolyM
	tooBig     bool
}

type ufFp struct {
	name string
	idx  int
	sh   [K]fr.Element
}

type nzPair struct{ a0, a1 int }

type Resid struct {
	GL    bool
	PM    PolyM
	P     Poly
	Seq   int
	Where string
	Sh    [K]fr.Element
}

func NewLift(c *Ctx, s *Solver, nspec int) *Lift {
	l := &Lift{C: c, S: s, NSpec: nspec, cst: map[int]fr.Element{}, zp: map[string]bool{}, Lemmas: map[string]int{}}
	return l
}

func (l *Lift) note(f string, a ...any) {
	m := fmt.Sprintf(f, a...)
	for _, n := range l.Notes {
		if n == m {
			return
		}
	}
	if len(l.Notes) < 200 {
		l.Notes = append(l.Notes, m)
	}
}

// ---------- bounds ----------

func (l *Lift) ivl(a int) (lo, hi *big.Int) {
	at := l.C.Atoms[a]
	switch at.Kind {
	case KPoly:
		return l.ivlP(at.Arg)
	case KRed, KInv:
		return new(big.Int), MaxGL
	}
	if l.UB[a] == nil {
		return nil, nil
	}
	return new(big.Int), l.UB[a]
}
func (l *Lift) ivlMono(m string) (lo, hi *big.Int) {
	lo, hi = big.NewInt(1), big.NewInt(1)
	for mm, jj := m, 0; jj < len(mm); jj += 4 {
		a := atomAt(mm, jj)
		x, y := l.ivl(a)
		if x == nil {
			return nil, nil
		}
		lo, hi = mulIvl(lo, hi, x, y)
	}
	return
}
func mulIvl(a, b, c, d *big.Int) (lo, hi *big.Int) {
	if a.Sign() >= 0 && c.Sign() >= 0 {
		return new(big.Int).Mul(a, c), new(big.Int).Mul(b, d)
	}
	for i, p := range [][2]*big.Int{{a, c}, {a, d}, {b, c}, {b, d}} {
		v := new(big.Int).Mul(p[0], p[1])
		if i == 0 || v.Cmp(lo) < 0 {
			lo = v
		}
		if i == 0 || v.Cmp(hi) > 0 {
			hi = v
		}
	}
	return
}
func (l *Lift) ivlP(p Poly) (lo, hi *big.Int) {
	lo, hi = new(big.Int), new(big.Int)
	for i := range p {
		x, y := l.ivlMono(p[i].M)
		if x == nil {
			return nil, nil
		}
		c := Centered(&p[i].C)
		u, v := new(big.Int).Mul(c, x), new(big.Int).Mul(c, y)
		if c.Sign() < 0 {
			u, v = v, u
		}
		lo.Add(lo, u)
		hi.Add(hi, v)
	}
	return
}

// noWrap asks the solver whether P = 0 mod r can hold with the integer value of P non zero.
func (l *Lift) noWrap(p Poly) bool {
	q := NewQ("no-wraparound")
	sum := l.abstractSum(q, p)
	if sum == "" {
		return false
	}
	k := q.Fresh("k")
	q.Assert("(= %s (* %s (to_real %s)))", sum, BigR.String(), k)
	q.Assert("(not (= %s 0))", k)
	return l.S.Check(q) == "unsat"
}

// abstractSum writes p with each monomial abstracted to a bounded integer.
func (l *Lift) abstractSum(q *Q, p Poly) string {
	var parts []string
	for i := range p {
		c := Centered(&p[i].C)
		if p[i].M == "" {
			parts = append(parts, smtInt(c))
			continue
		}
		lo, hi := l.ivlMono(p[i].M)
		if lo == nil {
			return ""
		}
		id := 1<<30 + i
		parts = append(parts, "(* "+smtInt(c)+" "+q.Real(id, lo, hi)+")")
	}
	if len(parts) == 0 {
		return "0"
	}
	return "(+ 0 " + strings.Join(parts, " ") + ")"
}

func atomsOf(p Poly) []int {
	seen := map[int]bool{}
	var out []int
	p.Atoms(func(a int) {
		if !seen[a] {
			seen[a] = true
			out = append(out, a)
		}
	})
	return out
}

// flat replaces KPoly atoms by their polynomial (products of sums are expanded).
func (l *Lift) flat(p Poly) Poly {
	has := false
	p.Atoms(func(a int) {
		if l.C.Atoms[a].Kind == KPoly {
			has = true
		}
	})
	if !has {
		return p
	}
	var out Poly
	for i := range p {
		t := PConst(p[i].C)
		for mm, jj := p[i].M, 0; jj < len(mm); jj += 4 {
			a := atomAt(mm, jj)
			if l.C.Atoms[a].Kind == KPoly {
				t = t.MulExpand(l.flat(l.C.Atoms[a].Arg))
			} else {
				t = t.MulExpand(PAtom(a))
			}
		}
		out = out.Add(t)
	}
	return out
}

func (l *Lift) facts() {
	c := l.C
	n := len(c.Atoms)
	l.UB = make([]*big.Int, n)
	l.consumed = map[int]bool{}
	for i, a := range c.Atoms {
		l.UB[i] = a.UB
		if a.Kind == KRed || a.Kind == KInv {
			l.UB[i] = MaxGL
		}
	}
	setUB := func(a int, ub *big.Int) bool {
		if l.UB[a] == nil || l.UB[a].Cmp(ub) > 0 {
			l.UB[a] = ub
			return true
		}
		return false
	}
	for _, e := range c.Asserts {
		id, ok := e.P.SingleAtom()
		if !ok {
			continue
		}
		switch e.Kind {
		case ABool:
			setUB(id, one)
			l.consumed[e.Seq] = true
		case ARange:
			setUB(id, new(big.Int).Sub(new(big.Int).Lsh(one, uint(e.Bits)), one))
			l.consumed[e.Seq] = true
		case ALeq:
			setUB(id, e.Bound)
			l.consumed[e.Seq] = true
		}
	}
	// linear equations with one atom not yet bounded
	type lin struct {
		e  *AssertEv
		at []int
	}
	var lins []lin
	for _, e := range c.Asserts {
		if e.Kind == AEq && e.P.Linear() && len(e.P) > 1 {
			lins = append(lins, lin{e, atomsOf(e.P)})
		}
	}
	for round := 0; round < 6; round++ {
		ch := false
		for _, ln := range lins {
			unk := -1
			for _, a := range ln.at {
				if l.UB[a] == nil {
					if unk >= 0 {
						unk = -2
						break
					}
					unk = a
				}
			}
			if unk == -1 && round == 0 {
				// the bits of an uninterpreted value with a weaker bound
				for _, a := range ln.at {
					if c.Atoms[a].Kind == KUF {
						if unk >= 0 {
							unk = -2
							break
						}
						unk = a
					}
				}
			}
			if unk < 0 {
				continue
			}
			// c*x + rest = 0, c = +-1
			var rest Poly
			var cx *big.Int
			for _, t := range ln.e.P {
				if t.M == monoOf(unk) {
					cx = Centered(&t.C)
				} else {
					rest = append(rest, t)
				}
			}
			if cx == nil || cx.CmpAbs(one) != 0 {
				continue
			}
			if cx.Sign() > 0 {
				rest = rest.Neg()
			}
			lo, hi := l.ivlP(rest)
			if lo == nil || lo.Sign() < 0 || hi.Cmp(BigR) >= 0 || l.UB[unk] != nil && l.UB[unk].Cmp(hi) <= 0 {
				continue
			}
			q := NewQ("bound-propagation")
			x := q.Real(unk, new(big.Int), new(big.Int).Sub(BigR, one))
			s := l.abstractSum(q, rest)
			k := q.Fresh("k")
			q.Assert("(= (- %s %s) (* %s (to_real %s)))", x, s, BigR.String(), k)
			q.Assert("(> %s %s)", x, hi.String())
			if l.S.Check(q) != "unsat" {
				continue
			}
			l.UB[unk] = hi
			ch = true
		}
		if !ch {
			break
		}
	}
	l.canonClusters()
}

func hintInputOnly(h *HintEv, x int) bool {
	if h == nil {
		return false
	}
	n := 0
	for _, p := range h.Ins {
		if _, ok := p.IsConst(); ok {
			continue
		}
		if id, ok := p.SingleAtom(); !ok || id != x {
			return false
		}
		n++
	}
	return n == 1
}

// canonClusters proves x < M for atoms whose range check shows up as a cluster
// of constraints over x and hint outputs computed from x alone.
func (l *Lift) canonClusters() {
	c := l.C
	hintsBy := map[int][]*HintEv{}
	for _, h := range c.Hints {
		only := -1
		for _, p := range h.Ins {
			if _, ok := p.IsConst(); ok {
				continue
			}
			id, ok := p.SingleAtom()
			if !ok || (only >= 0 && only != id) {
				only = -2
				break
			}
			only = id
		}
		if only >= 0 {
			hintsBy[only] = append(hintsBy[only], h)
		}
	}
	dep := map[int][]int{}
	l.bitsOf = map[int][]int{}
	for _, a := range c.Atoms {
		if a.Kind == KIsZero || a.Kind == KPoly || a.Kind == KBit {
			for _, x := range atomsOf(a.Arg) {
				dep[x] = append(dep[x], a.ID)
			}
			if a.Kind == KBit {
				if x, ok := a.Arg.SingleAtom(); ok {
					l.bitsOf[x] = append(l.bitsOf[x], a.ID)
				}
			}
		}
	}
	asBy := map[int][]*AssertEv{}
	for _, e := range c.Asserts {
		for _, x := range atomsOf(e.P) {
			asBy[x] = append(asBy[x], e)
		}
	}
	ext := map[int]bool{}
	for _, p := range l.Outs {
		for _, a := range atomsOf(p) {
			ext[a] = true
		}
	}
	for _, u := range c.Calls {
		for _, p := range u.Args {
			for _, a := range atomsOf(p) {
				ext[a] = true
			}
		}
	}
	// local: a prover-chosen value (or something computed from it) that only the given assertions mention
	var local func(y, x int, in map[int]bool) bool
	local = func(y, x int, in map[int]bool) bool {
		if ext[y] {
			return false
		}
		at := c.Atoms[y]
		switch at.Kind {
		case KHint:
		case KIsZero, KPoly, KBit:
			own := at.Kind == KBit
			for _, z := range atomsOf(at.Arg) {
				if z == x {
					continue
				}
				own = true
				if k := c.Atoms[z].Kind; k != KHint && k != KIsZero && k != KPoly && k != KBit {
					return false
				}
			}
			if !own {
				return false
			}
		default:
			return false
		}
		for _, e := range asBy[y] {
			if !in[e.Seq] {
				if _, single := e.P.SingleAtom(); single && e.Kind != AEq && e.Kind != ANeq {
					continue
				}
				return false
			}
		}
		for _, d := range dep[y] {
			if d != y && !local(d, x, in) {
				return false
			}
		}
		return true
	}
	var cand []int
	for x := range hintsBy {
		cand = append(cand, x)
	}
	for x := range l.bitsOf {
		if _, ok := hintsBy[x]; !ok {
			cand = append(cand, x)
		}
	}
	sort.Ints(cand)
	for _, x := range cand {
		k := c.Atoms[x].Kind
		if k != KInput && k != KHint && k != KOpaque {
			continue
		}
		already := l.UB[x] != nil && l.UB[x].Cmp(MaxGL) <= 0
		if already && k != KInput {
			// bounded below M by plain range checks; nothing to show
		}
		set := map[int]bool{x: true}
		frontier := []int{x}
		for depth := 0; depth < 4 && len(frontier) > 0; depth++ {
			var next []int
			add := func(a int) {
				if !set[a] {
					set[a] = true
					next = append(next, a)
				}
			}
			for _, a := range frontier {
				if depth < 3 {
					for _, h := range hintsBy[a] {
						for _, o := range h.Outs {
							add(o)
						}
					}
				}
				for _, d := range dep[a] {
					ok := true
					for _, y := range atomsOf(c.Atoms[d].Arg) {
						if !set[y] {
							ok = false
						}
					}
					if ok {
						add(d)
					}
				}
			}
			frontier = next
		}
		// assertions inside the set, connected to x
		var as []*AssertEv
		seen := map[int]bool{}
		conn := map[int]bool{x: true}
		work := []int{x}
		for len(work) > 0 {
			a := work[0]
			work = work[1:]
			push := func(y int) {
				if set[y] && !conn[y] {
					conn[y] = true
					work = append(work, y)
				}
			}
			for _, d := range dep[a] {
				if set[d] {
					push(d)
				}
			}
			for _, e := range asBy[a] {
				if seen[e.Seq] {
					continue
				}
				in := true
				ats := atomsOf(e.P)
				for _, y := range ats {
					if !set[y] {
						in = false
					}
				}
				if !in {
					continue
				}
				seen[e.Seq] = true
				as = append(as, e)
				for _, y := range ats {
					push(y)
				}
			}
		}
		if len(as) == 0 {
			continue
		}
		sort.Slice(as, func(i, j int) bool { return as[i].Seq < as[j].Seq })
		ub := l.UB[x]
		if ub == nil || ub.Cmp(MaxGL) > 0 {
			q := NewQ("range-check")
			if l.clusterQuery(q, x, as) {
				q.Assert("(>= %s %s)", q.names[x], BigM.String())
				if l.S.Check(q) == "unsat" {
					l.UB[x] = MaxGL
					l.Clusters++
				}
			}
		}
		if l.UB[x] == nil {
			continue
		}
		// the other members are existential when nothing outside the consumed set mentions them
		settle := func() {
			for stable := false; !stable; {
				stable = true
				for _, e := range as {
					if !seen[e.Seq] {
						continue
					}
					for _, y := range atomsOf(e.P) {
						if y != x && !local(y, x, seen) {
							delete(seen, e.Seq)
							stable = false
							break
						}
					}
				}
			}
		}
		settle()
		// an equation about x alone is not part of a range check
		for _, e := range as {
			if ats := atomsOf(e.P); seen[e.Seq] && e.Kind == AEq && len(ats) == 1 && ats[0] == x {
				delete(seen, e.Seq)
			}
		}
		for {
			ok, out := l.clusterComplete(x, as, seen)
			if len(out) == 0 {
				if !ok {
					l.strict = append(l.strict, x)
				}
				break
			}
			for _, e := range out {
				delete(seen, e.Seq)
			}
			settle()
		}
		for _, e := range as {
			if seen[e.Seq] {
				l.consumed[e.Seq] = true
			}
		}
	}
}

// clusterComplete: can the prover satisfy the consumed assertions for every x up to its bound? Digits that
// recompose a value in a mixed radix exist and are unique; the solver shows that they satisfy the rest.
// What mentions other values is returned: it is not part of a range check.
func (l *Lift) clusterComplete(x int, as []*AssertEv, seen map[int]bool) (bool, []*AssertEv) {
	def := map[int]bool{x: true}
	var d, rest []*AssertEv
	isD := map[int]bool{}
	radix := func(e *AssertEv) bool {
		if e.Kind != AEq || len(e.P) < 2 || !e.P.Linear() || e.P[0].M == "" {
			return false
		}
		t := -1
		var ct *big.Int
		type dig struct {
			a int
			c *big.Int
		}
		var ds []dig
		for _, m := range e.P {
			a := monoAtoms(m.M)[0]
			c := Centered(&m.C)
			if def[a] {
				if t >= 0 || c.CmpAbs(one) != 0 {
					return false
				}
				t, ct = a, c
				continue
			}
			if l.UB[a] == nil || l.C.Atoms[a].Kind != KHint {
				return false
			}
			ds = append(ds, dig{a, c})
		}
		if t < 0 || l.UB[t] == nil {
			return false
		}
		if ct.Sign() > 0 {
			for i := range ds {
				ds[i].c = new(big.Int).Neg(ds[i].c)
			}
		}
		sort.Slice(ds, func(i, j int) bool { return ds[i].c.Cmp(ds[j].c) < 0 })
		w := big.NewInt(1)
		for _, y := range ds {
			if y.c.Cmp(w) != 0 {
				return false
			}
			w.Mul(w, new(big.Int).Add(l.UB[y.a], one))
		}
		if l.UB[t].Cmp(w) >= 0 {
			return false
		}
		for _, y := range ds {
			def[y.a] = true
		}
		return true
	}
	for ch := true; ch; {
		ch = false
		for _, e := range as {
			if seen[e.Seq] && !isD[e.Seq] && radix(e) {
				isD[e.Seq] = true
				d = append(d, e)
				ch = true
			}
		}
	}
	for _, e := range as {
		if !seen[e.Seq] || isD[e.Seq] {
			continue
		}
		if id, ok := e.P.SingleAtom(); ok && id != x && def[id] && (e.Kind == ABool || e.Kind == ARange || e.Kind == ALeq) {
			continue // the bound of the digit
		}
		rest = append(rest, e)
	}
	by := map[int]*AssertEv{} // digit -> the recomposition that defines it
	top := map[int]bool{x: true}
	for _, e := range d {
		var fresh []int
		for _, a := range atomsOf(e.P) {
			if !top[a] {
				fresh = append(fresh, a)
			}
		}
		for _, a := range fresh {
			by[a] = e
			top[a] = true
		}
	}
	var out []*AssertEv
	for _, e := range rest {
		p := l.flat(e.P)
		lo, hi := l.ivlP(p)
		exact := lo != nil && hi != nil && new(big.Int).Neg(lo).Cmp(BigR) < 0 && hi.Cmp(BigR) < 0
		pos := exact && lo.Sign() >= 0
		if pos && (e.Kind == ARange && hi.BitLen() <= e.Bits || e.Kind == ALeq && hi.Cmp(e.Bound) <= 0 || e.Kind == ABool && hi.Cmp(one) <= 0) {
			continue
		}
		// the recompositions this assertion depends on
		need := map[*AssertEv]bool{}
		vis := map[int]bool{}
		okAtoms := true
		var visit func(a int)
		visit = func(a int) {
			if vis[a] {
				return
			}
			vis[a] = true
			switch at := l.C.Atoms[a]; at.Kind {
			case KIsZero, KBit:
				for _, y := range atomsOf(l.flat(at.Arg)) {
					visit(y)
				}
				return
			}
			if a == x {
				return
			}
			de := by[a]
			if de == nil {
				okAtoms = false
				return
			}
			if !need[de] {
				need[de] = true
				for _, y := range atomsOf(de.P) {
					visit(y)
				}
			}
		}
		for _, a := range atomsOf(p) {
			visit(a)
		}
		if !okAtoms {
			out = append(out, e)
			continue
		}
		if len(out) > 0 {
			continue
		}
		var dd []*AssertEv
		for _, de := range d {
			if need[de] {
				dd = append(dd, de)
			}
		}
		q := NewQ("range-check-complete")
		ok := l.clusterQuery(q, x, dd)
		for _, a := range atomsOf(p) {
			l.declareIn(q, a, &ok)
		}
		s := l.exactSum(q, p, &ok)
		val := "(mod " + s + " " + BigR.String() + ")"
		if pos || exact && e.Kind == AEq {
			val = s
		}
		switch e.Kind {
		case AEq:
			q.Assert("(not (= %s 0))", val)
		case ABool:
			q.Assert("(> %s 1)", val)
		case ARange:
			q.Assert("(>= %s %s)", val, new(big.Int).Lsh(one, uint(e.Bits)).String())
		case ALeq:
			q.Assert("(> %s %s)", val, e.Bound.String())
		case ANeq:
			q.Assert("(= %s 0)", val)
		}
		r := l.S.Check(q)
		if !ok || r != "unsat" {
			if l.trace {
				fmt.Println("range check of", x, "answer", r, ok, e.Seq, e.Kind, e.Where, e.Bits)
			}
			if ok && r == "sat" {
				if r, m := l.S.Model(q); r == "sat" && m[x] != nil {
					if l.strictVal == nil {
						l.strictVal = map[int]*big.Int{}
					}
					l.strictVal[x] = m[x]
				}
			}
			return false, nil
		}
	}
	return true, out
}

// declareIn declares an atom in a cluster query, with the definition of what is computed from others.
func (l *Lift) declareIn(q *Q, a int, ok *bool) {
	if q.done == nil {
		q.done = map[int]bool{}
	}
	if q.done[a] {
		return
	}
	at := l.C.Atoms[a]
	q.done[a] = true
	q.Int(a, new(big.Int), l.ubOrR(a))
	switch at.Kind {
	case KIsZero:
		for _, y := range atomsOf(l.flat(at.Arg)) {
			l.declareIn(q, y, ok)
		}
		e := l.exactSum(q, l.flat(at.Arg), ok)
		q.Assert("(= %s (ite (= (mod %s %s) 0) 1 0))", q.names[a], e, BigR.String())
	case KBit:
		y, single := at.Arg.SingleAtom()
		if !single {
			*ok = false
			return
		}
		l.declareIn(q, y, ok)
		if !q.done[-1-y] {
			q.done[-1-y] = true
			var parts []string
			bs := l.bitsOf[y]
			for _, b := range bs {
				q.done[b] = true
				w := new(big.Int).Lsh(one, uint(l.C.Atoms[b].Idx))
				parts = append(parts, "(* "+w.String()+" "+q.Int(b, new(big.Int), one)+")")
			}
			rest := q.Fresh("h")
			q.Assert("(>= %s 0)", rest)
			q.Assert("(= %s (+ (* %s %s) %s))", q.names[y], new(big.Int).Lsh(one, uint(len(bs))).String(), rest, strings.Join(parts, " "))
		}
	}
}

// clusterQuery encodes assertions exactly, over integers.
func (l *Lift) clusterQuery(q *Q, x int, as []*AssertEv) bool {
	ok := true
	q.Int(x, new(big.Int), l.ubOrR(x))
	declare := func(a int) { l.declareIn(q, a, &ok) }
	for _, e := range as {
		p := l.flat(e.P)
		for _, a := range atomsOf(p) {
			declare(a)
		}
		s := l.exactSum(q, p, &ok)
		lo, hi := l.ivlP(p)
		val := "(mod " + s + " " + BigR.String() + ")"
		if lo != nil && lo.Sign() >= 0 && hi.Cmp(BigR) < 0 {
			val = s
		}
		switch e.Kind {
		case AEq:
			if lo != nil && new(big.Int).Neg(lo).Cmp(BigR) < 0 && hi.Cmp(BigR) < 0 {
				q.Assert("(= %s 0)", s)
			} else {
				k := q.Fresh("k")
				q.Assert("(= %s (* %s %s))", s, BigR.String(), k)
			}
		case ABool:
			q.Assert("(<= %s 1)", val)
		case ARange:
			q.Assert("(< %s %s)", val, new(big.Int).Lsh(one, uint(e.Bits)).String())
		case ALeq:
			q.Assert("(<= %s %s)", val, e.Bound.String())
		case ANeq:
			q.Assert("(not (= %s 0))", val)
		}
	}
	return ok
}
func (l *Lift) ubOrR(a int) *big.Int {
	if l.UB[a] != nil {
		return l.UB[a]
	}
	return new(big.Int).Sub(BigR, one)
}

// exactSum writes p exactly; boolean factors become ite.
func (l *Lift) exactSum(q *Q, p Poly, ok *bool) string {
	var parts []string
	for i := range p {
		c := Centered(&p[i].C)
		if p[i].M == "" {
			parts = append(parts, smtInt(c))
			continue
		}
		var bs, os []string
		for mm, jj := p[i].M, 0; jj < len(mm); jj += 4 {
			a := atomAt(mm, jj)
			n := q.Int(a, new(big.Int), l.ubOrR(a))
			if l.UB[a] != nil && l.UB[a].Cmp(one) <= 0 {
				bs = append(bs, n)
			} else {
				os = append(os, n)
			}
		}
		t := "1"
		if len(os) == 1 {
			t = os[0]
		} else if len(os) > 1 {
			t = "(* " + strings.Join(os, " ") + ")"
		}
		for _, b := range bs {
			t = "(ite (= " + b + " 1) " + t + " 0)"
		}
		parts = append(parts, "(* "+smtInt(c)+" "+t+")")
	}
	if len(parts) == 0 {
		return "0"
	}
	return "(+ 0 " + strings.Join(parts, " ") + ")"
}

// ---------- normal forms ----------

func (l *Lift) reset() {
	n := len(l.C.Atoms)
	l.rep = make([]int, n)
	for i := range l.rep {
		l.rep[i] = i
	}
	l.def = make([]PolyM, n)
	l.hasDef = make([]bool, n)
	l.quot = make([]bool, n)
	l.rank = make([]int, n)
	l.resolved = make([]int8, n)
	l.nextRank = 1
	l.byKey = map[string]int{}
	l.byFp = map[[K]uint64][]int{}
	l.structK = map[string]int{}
	l.nfPoly = map[int]Poly{}
	l.lin = map[int]PolyM{}
	l.ufFp = map[ufFp][]int{}
	l.Resid = nil
	l.Pending = nil
	l.NonZero = nil
	l.Undef = map[int]bool{}
	l.NoWrapBad = nil
	l.incomplete = nil
	l.Defs, l.Merged = 0, 0
}

func (l *Lift) grow() {
	for len(l.rep) < len(l.C.Atoms) {
		i := len(l.rep)
		l.rep = append(l.rep, i)
		l.def = append(l.def, nil)
		l.hasDef = append(l.hasDef, false)
		l.quot = append(l.quot, false)
		l.rank = append(l.rank, 0)
		l.resolved = append(l.resolved, 0)
		ub := l.C.Atoms[i].UB
		if k := l.C.Atoms[i].Kind; k == KRed || k == KInv {
			ub = MaxGL
		}
		l.UB = append(l.UB, ub)
	}
}

// val resolves an atom to the native polynomial it stands for now.
func (l *Lift) val(a int) Poly {
	if c, ok := l.cst[a]; ok {
		return PConst(c)
	}
	if l.resolved[a] == 0 {
		l.resolve(a)
	}
	if c, ok := l.cst[a]; ok {
		return PConst(c)
	}
	r := l.rep[a]
	if c, ok := l.cst[r]; ok {
		return PConst(c)
	}
	if l.C.Atoms[r].Kind == KPoly {
		p := l.nfPoly[r]
		if _, ok := p.IsConst(); ok || len(p) == 1 {
			return p
		}
	}
	return PAtom(r)
}

func (l *Lift) touch(p Poly) {
	p.Atoms(func(a int) {
		if l.resolved[a] == 0 {
			l.resolve(a)
		}
	})
}

// norm substitutes representatives and constants and drops zero products.
func (l *Lift) norm(p Poly) Poly {
	same := true
	p.Atoms(func(a int) {
		v := l.val(a)
		if id, ok := v.SingleAtom(); !ok || id != a {
			same = false
		}
	})
	if same && len(l.zp) == 0 {
		return p
	}
	acc := map[string]fr.Element{}
	put := func(t Term) {
		if l.isZeroMono(t.M) {
			return
		}
		if o, ok := acc[t.M]; ok {
			t.C.Add(&t.C, &o)
		}
		acc[t.M] = t.C
	}
	for i := range p {
		if same {
			put(p[i])
			continue
		}
		t := Poly{{"", p[i].C}}
		for mm, jj := p[i].M, 0; jj < len(mm); jj += 4 {
			a := atomAt(mm, jj)
			t = t.MulExpand(l.val(a))
		}
		for _, x := range t {
			put(x)
		}
	}
	// booleans are idempotent
	return l.idem(polyFromMap(acc))
}

func (l *Lift) isBool(a int) bool {
	at := l.C.Atoms[a]
	return at.Kind == KBit || at.Kind == KIsZero || (l.UB[a] != nil && l.UB[a].Cmp(one) <= 0)
}
func (l *Lift) idemMono(m string) string {
	if len(m) < 8 {
		return m
	}
	// the atoms of a monomial are sorted
	dup := false
	for i := 4; i < len(m) && !dup; i += 4 {
		dup = m[i:i+4] == m[i-4:i]
	}
	if !dup {
		return m
	}
	var out []int
	for mm, jj := m, 0; jj < len(mm); jj += 4 {
		a := atomAt(mm, jj)
		if len(out) > 0 && out[len(out)-1] == a && l.isBool(a) {
			continue
		}
		out = append(out, a)
	}
	if len(out)*4 == len(m) {
		return m
	}
	return monoFrom(out)
}
func (l *Lift) idem(p Poly) Poly {
	need := false
	for i := range p {
		if len(l.idemMono(p[i].M)) != len(p[i].M) {
			need = true
			break
		}
	}
	if !need {
		return p
	}
	acc := map[string]fr.Element{}
	for _, t := range p {
		m := l.idemMono(t.M)
		if o, ok := acc[m]; ok {
			t.C.Add(&t.C, &o)
		}
		acc[m] = t.C
	}
	return polyFromMap(acc)
}
func (l *Lift) idemM(p PolyM) PolyM {
	need := false
	for i := range p {
		if len(l.idemMono(p[i].M)) != len(p[i].M) || l.isZeroMono(p[i].M) {
			need = true
			break
		}
	}
	if !need {
		return p
	}
	acc := map[string]uint64{}
	for _, t := range p {
		if l.isZeroMono(t.M) {
			continue
		}
		m := l.idemMono(t.M)
		acc[m] = addM(acc[m], t.C)
	}
	return polyMFromMap(acc)
}
func (l *Lift) isZeroMono(m string) bool {
	if len(l.zp) == 0 || len(m) < 8 {
		return false
	}
	var zs []int
	for mm, jj := m, 0; jj < len(mm); jj += 4 {
		a := atomAt(mm, jj)
		if l.C.Atoms[a].Kind == KIsZero {
			zs = append(zs, a)
		}
	}
	for i := range zs {
		for j := i + 1; j < len(zs); j++ {
			if l.zp[monoFrom([]int{zs[i], zs[j]})] {
				return true
			}
		}
	}
	return false
}

// ToM reduces a (normalised) native polynomial modulo M, reading coefficients as centered integers.
func (l *Lift) ToM(p Poly) PolyM {
	out := make(PolyM, 0, len(p))
	for i := range p {
		b := Centered(&p[i].C)
		b.Mod(b, BigM)
		if u := b.Uint64(); u != 0 {
			out = append(out, TermM{p[i].M, u})
		}
	}
	return out
}

func shM(sh [K]fr.Element) (out [K]uint64) {
	for k := 0; k < K; k++ {
		b := new(big.Int)
		sh[k].BigInt(b)
		out[k] = b.Mod(b, BigM).Uint64()
	}
	return
}

// resolve finds the representative of an atom from its structure.
func (l *Lift) resolve(a int) {
	l.grow()
	if l.resolved[a] != 0 {
		return
	}
	l.resolved[a] = 1
	at := l.C.Atoms[a]
	finish := func() {
		if l.rank[a] == 0 {
			l.rank[a] = l.nextRank
			l.nextRank++
		}
		l.resolved[a] = 2
	}
	structural := func(key string) bool {
		if o, ok := l.structK[key]; ok && o != a {
			l.rep[a] = o
			return true
		}
		l.structK[key] = a
		return false
	}
	switch at.Kind {
	case KRed:
		p := l.normM(at.ArgM)
		if o, ok := l.C.Alias[a]; ok {
			if id, ok := l.val(o).SingleAtom(); ok {
				l.byKeyAlias(p, id)
				l.rep[a] = id
				l.Lemmas["a^i * a^j = a^(i+j)"]++
				break
			}
		}
		l.register(a, p)
	case KInv:
		p := l.normM(at.ArgM)
		if id, ok := p.SingleAtom(); ok {
			structural("inv" + monoOf(id))
		} else {
			structural("inv" + p.Key())
		}
		l.byFp[shM(at.Sh)] = append(l.byFp[shM(at.Sh)], a)
	case KIsZero:
		p := l.idem(l.norm(at.Arg))
		if c, ok := p.IsConst(); ok {
			var v fr.Element
			if c.IsZero() {
				v.SetOne()
			}
			l.cst[a] = v
			break
		}
		m, _ := p.Monic()
		if structural("iz" + m.Key()) {
			break
		}
		if n, ok := m.SingleAtom(); ok && l.isNonZero(n) {
			l.cst[a] = fr.Element{}
			l.changed = true
		}
	case KBit:
		p := l.norm(at.Arg)
		if c, ok := p.IsConst(); ok {
			b := new(big.Int)
			c.BigInt(b)
			var v fr.Element
			v.SetUint64(uint64(b.Bit(at.Idx)))
			l.cst[a] = v
			break
		}
		structural(fmt.Sprintf("bit%d:%s", at.Idx, p.Key()))
	case KUF:
		key := "uf" + at.Call.Name + fmt.Sprint(at.Idx) + ":"
		unst := false
		var args []Poly
		for _, p := range at.Call.Args {
			n := l.norm(p)
			n.Atoms(func(x int) {
				if l.unstable(x) {
					unst = true
				}
			})
			args = append(args, n)
			k := n.Key()
			key += fmt.Sprint(len(k)) + ":" + k
		}
		if unst {
			l.resolved[a] = 0
			if l.rank[a] == 0 {
				l.rank[a] = l.nextRank
				l.nextRank++
			}
			return
		}
		if structural(key) {
			break
		}
		// same arguments written differently
		fk := ufFp{at.Call.Name, at.Idx, at.Sh}
		for _, o := range l.ufFp[fk] {
			oc := l.C.Atoms[o].Call
			same := o != a && len(oc.Args) == len(args)
			for i := 0; same && i < len(args); i++ {
				same = l.proveN(l.norm(args[i].Sub(oc.Args[i])))
			}
			if same {
				l.rep[a] = l.rep[o]
				break
			}
		}
		if l.rep[a] == a {
			l.ufFp[fk] = append(l.ufFp[fk], a)
		}
	case KPoly:
		p := l.norm(at.Arg)
		// unstable while it mentions undefined hints
		unst := false
		p.Atoms(func(x int) {
			if l.unstable(x) {
				unst = true
			}
		})
		l.nfPoly[a] = p
		if unst {
			l.resolved[a] = 0
			if l.rank[a] == 0 {
				l.rank[a] = l.nextRank
				l.nextRank++
			}
			return
		}
		if _, ok := p.IsConst(); !ok && len(p) > 1 {
			m, sg := p.SignNorm()
			key := "p" + m.Key()
			if o, ok := l.structK[key]; ok && o != a {
				// the same polynomial up to sign
				d := PAtom(o)
				_, so := l.nfPoly[o].SignNorm()
				if !so.Equal(&sg) {
					d = d.Neg()
				}
				l.certifyMerge(a, o, d)
				l.nfPoly[a] = d
			} else {
				l.structK[key] = a
			}
		}
	case KHint:
		// defined by an equation, or not at all
		if !l.hasDef[a] {
			l.resolved[a] = 2
			return
		}
	}
	finish()
}
func (l *Lift) unstable(x int) bool {
	at := l.C.Atoms[x]
	if at.Kind == KHint {
		return !l.hasDef[x] && !l.quot[x]
	}
	return l.resolved[x] != 2
}

func (l *Lift) normM(p PolyM) PolyM {
	same := true
	for i := range p {
		for mm, jj := p[i].M, 0; jj < len(mm); jj += 4 {
			a := atomAt(mm, jj)
			v := l.val(a)
			if id, ok := v.SingleAtom(); !ok || id != a {
				same = false
			}
		}
	}
	if same {
		return l.idemM(p)
	}
	acc := map[string]uint64{}
	for i := range p {
		t := PolyM{{"", p[i].C}}
		for mm, jj := p[i].M, 0; jj < len(mm); jj += 4 {
			a := atomAt(mm, jj)
			t = t.Mul(l.ToM(l.val(a)))
		}
		for _, x := range t {
			acc[x.M] = addM(acc[x.M], x.C)
		}
	}
	return l.idemM(polyMFromMap(acc))
}

// register gives atom a (a canonical value) the definition p, merging it with an equal node if there is one.
func (l *Lift) register(a int, p PolyM) {
	l.hasDef[a] = true
	if l.rank[a] == 0 {
		l.rank[a] = l.nextRank
		l.nextRank++
	}
	if c, ok := p.IsConst(); ok {
		var v fr.Element
		v.SetUint64(c)
		l.cst[a] = v
		return
	}
	if id, ok := p.SingleAtom(); ok && l.canonical(id) {
		l.rep[a] = id
		l.certify(MAtom(a).Sub(p), map[int]PolyM{a: p})
		l.Merged++
		return
	}
	l.def[a] = p
	key := p.Key()
	if o, ok := l.byKey[key]; ok {
		l.rep[a] = o
		l.certify(MAtom(a).Sub(MAtom(o)), map[int]PolyM{a: p, o: p})
		l.Merged++
		return
	}
	l.byKey[key] = a
	fp := shM(l.C.Atoms[a].Sh)
	for _, o := range l.byFp[fp] {
		if o == a || l.rep[o] != o {
			continue
		}
		if l.prove(p.Sub(MAtom(o))) {
			l.rep[a] = o
			l.Merged++
			return
		}
		if l.trace {
			fmt.Println("values", a, "and", o, "look equal but were not merged; definition has", len(p), "terms", l.C.Atoms[o].Kind)
		}
	}
	l.byFp[fp] = append(l.byFp[fp], a)
}

// byKeyAlias lets values with definition p be merged with o.
func (l *Lift) byKeyAlias(p PolyM, o int) {
	if _, ok := p.IsConst(); ok {
		return
	}
	if _, ok := p.SingleAtom(); ok {
		return
	}
	if key := p.Key(); l.byKey[key] == 0 {
		l.byKey[key] = o
	}
}

func (l *Lift) canonical(a int) bool {
	_, hi := l.ivl(a)
	lo, _ := l.ivl(a)
	return hi != nil && lo.Sign() >= 0 && hi.Cmp(MaxGL) <= 0
}

func (l *Lift) expansion(a int) (PolyM, bool) {
	at := l.C.Atoms[a]
	switch at.Kind {
	case KRed, KHint:
		if l.hasDef[a] && l.def[a] != nil {
			return l.def[a], true
		}
	case KPoly:
		p, ok := l.nfPoly[a]
		if !ok {
			l.resolve(a)
			p = l.nfPoly[a]
		}
		return l.ToM(p), true
	}
	return nil, false
}

const maxTerms = 20000
const maxWork = 200000

// prove decides D = 0 mod M by expanding the newest definitions first; the solver certifies the result.
func (l *Lift) prove(d PolyM) bool {
	ok, defs, goal := l.eliminate(d)
	if !ok {
		return false
	}
	return l.certify(goal, defs)
}

func (l *Lift) eliminate(d PolyM) (bool, map[int]PolyM, PolyM) {
	d = l.idemM(d)
	goal := d
	defs := map[int]PolyM{}
	work := 0
	for steps := 0; steps < 2000; steps++ {
		if work += len(d); work > maxWork {
			return false, nil, nil
		}
		if len(d) == 0 {
			return true, defs, goal
		}
		if _, ok := d.IsConst(); ok {
			return false, nil, nil
		}
		best, inv := -1, -1
		for i := range d {
			for mm, jj := d[i].M, 0; jj < len(mm); jj += 4 {
				a := atomAt(mm, jj)
				if l.C.Atoms[a].Kind == KInv {
					if inv < 0 || a > inv {
						inv = a
					}
					continue
				}
				if _, ok := l.expansion(a); ok && (best < 0 || l.rank[a] > l.rank[best]) {
					best = a
				}
			}
		}
		if inv >= 0 && (best < 0 || l.rank[best] < l.rank[inv]) {
			// multiply by the inverted quantity, INV(n)*n = 1
			nm := l.normM(l.C.Atoms[inv].ArgM)
			acc := map[string]uint64{}
			for i := range d {
				at := monoAtoms(d[i].M)
				pos := -1
				for j, a := range at {
					if a == inv {
						pos = j
					}
				}
				if pos >= 0 {
					m := monoFrom(append(append([]int{}, at[:pos]...), at[pos+1:]...))
					acc[m] = addM(acc[m], d[i].C)
				} else {
					for _, t := range nm {
						m := monoMul(t.M, d[i].M)
						acc[m] = addM(acc[m], mulM(t.C, d[i].C))
					}
				}
			}
			d = l.idemM(polyMFromMap(acc))
			// restart the certificate from the cleared form
			goal, defs = d, map[int]PolyM{}
			l.Lemmas["clearing of a non-zero denominator"]++
			if len(d) > maxTerms {
				return false, nil, nil
			}
			continue
		}
		if best < 0 {
			return false, nil, nil
		}
		e, _ := l.expansion(best)
		e = l.normM(e)
		if x := l.linear(best); x != nil {
			e = x
		}
		defs[best] = e
		l.tooBig = false
		d = l.substM(d, best, e)
		if l.tooBig || len(d) > maxTerms {
			return false, nil, nil
		}
	}
	return false, nil, nil
}

func isLin(p PolyM) bool {
	for i := range p {
		if len(p[i].M) > 4 {
			return false
		}
	}
	return true
}

const maxLin = 128

// linear rewrites a linear definition in terms of values that are not themselves linear
// combinations; each rewriting is certified once, from the definition and the forms of its parts.
func (l *Lift) linear(a int) PolyM {
	if x, ok := l.lin[a]; ok {
		return x
	}
	l.lin[a] = nil
	if k := l.C.Atoms[a].Kind; k != KRed && k != KHint {
		return nil
	}
	d, ok := l.expansion(a)
	if !ok {
		return nil
	}
	d = l.normM(d)
	if !isLin(d) || len(d) > maxLin {
		return nil
	}
	for i := range d {
		for mm, jj := d[i].M, 0; jj < len(mm); jj += 4 {
			y := atomAt(mm, jj)
			if l.unstable(y) {
				delete(l.lin, a)
				return nil
			}
		}
	}
	acc := map[string]uint64{}
	defs := map[int]PolyM{a: d}
	for i := range d {
		if d[i].M == "" {
			acc[""] = addM(acc[""], d[i].C)
			continue
		}
		y := monoAtoms(d[i].M)[0]
		x := l.linear(y)
		if x == nil {
			acc[d[i].M] = addM(acc[d[i].M], d[i].C)
			continue
		}
		defs[y] = x
		for _, t := range x {
			acc[t.M] = addM(acc[t.M], mulM(t.C, d[i].C))
		}
	}
	p := polyMFromMap(acc)
	if len(p) > maxLin {
		return nil
	}
	if len(defs) > 1 {
		if !l.certify(MAtom(a).Sub(p), defs) {
			return nil
		}
	}
	l.lin[a] = p
	return p
}

func (l *Lift) substM(d PolyM, a int, e PolyM) PolyM {
	acc := map[string]uint64{}
	id := monoOf(a)
	pows := []PolyM{MConst(1), e}
	for i := range d {
		n := 0
		rest := ""
		m := d[i].M
		if strings.Contains(m, id) {
			for j := 0; j < len(m); j += 4 {
				if m[j:j+4] == id {
					n++
				} else {
					rest += m[j : j+4]
				}
			}
		}
		if n == 0 {
			acc[m] = addM(acc[m], d[i].C)
			continue
		}
		for len(pows) <= n {
			if len(pows[len(pows)-1])*len(e) > 20*maxTerms {
				l.tooBig = true
				return nil
			}
			pows = append(pows, l.idemM(pows[len(pows)-1].Mul(e)))
		}
		for _, t := range pows[n] {
			mm := l.idemMono(monoMul(t.M, rest))
			acc[mm] = addM(acc[mm], mulM(t.C, d[i].C))
		}
		if len(acc) > 4*maxTerms {
			break
		}
	}
	return l.idemM(polyMFromMap(acc))
}

// certify asks the solver: can goal be non-zero mod M under the definitions?
func (l *Lift) certify(goal PolyM, defs map[int]PolyM) bool {
	if len(goal) > 3000 {
		l.note("identity too large for the solver (%d terms)", len(goal))
		return false
	}
	q := NewQ("field-identity")
	ids := make([]int, 0, len(defs))
	for a := range defs {
		ids = append(ids, a)
	}
	sort.Slice(ids, func(i, j int) bool { return l.rank[ids[i]] > l.rank[ids[j]] })
	bools := map[int]bool{}
	w := func(p PolyM) string {
		var parts []string
		for i := range p {
			c := p[i].C
			cs := smtU(c)
			if c > GM/2 {
				cs = "(- " + smtU(GM-c) + ")"
			}
			if p[i].M == "" {
				parts = append(parts, cs)
				continue
			}
			var f []string
			for mm, jj := p[i].M, 0; jj < len(mm); jj += 4 {
				a := atomAt(mm, jj)
				f = append(f, q.Int(a, nil, nil))
				if _, isdef := defs[a]; !isdef && l.isBool(a) {
					bools[a] = true
				}
			}
			parts = append(parts, "(* "+cs+" "+strings.Join(f, " ")+")")
		}
		return "(+ 0 " + strings.Join(parts, " ") + ")"
	}
	g := w(goal)
	for _, a := range ids {
		q.Assert("(= %s %s)", q.Int(a, nil, nil), w(defs[a]))
	}
	if len(bools) > 0 {
		var bs []int
		for a := range bools {
			bs = append(bs, a)
		}
		sort.Ints(bs)
		for _, a := range bs {
			q.Assert("(or (= %s 0) (= %s 1))", q.names[a], q.names[a])
		}
	}
	q.Assert("(not (= (mod %s %s) 0))", g, BigM.String())
	r := l.S.Check(q)
	if r != "unsat" {
		l.note("solver answered %s on a field identity", r)
	}
	return r == "unsat"
}

// isNonZero: n is a norm a0^2-7a1^2 of a pair known not to be both zero.
func (l *Lift) isNonZero(n int) bool {
	if l.C.NZ[n] {
		return true
	}
	if len(l.nzPairs) == 0 && len(l.C.NZ) == 0 {
		return false
	}
	fp := shM(l.C.Atoms[n].Sh)
	norm := func(a0, a1 int) bool { // -1: zero
		var s0, s1 [K]uint64
		var p0, p1 PolyM
		if a0 >= 0 {
			s0, p0 = shM(l.C.Atoms[a0].Sh), l.ToM(l.val(a0))
		}
		if a1 >= 0 {
			s1, p1 = shM(l.C.Atoms[a1].Sh), l.ToM(l.val(a1))
		}
		for k := 0; k < K; k++ {
			if subM(mulM(s0[k], s0[k]), mulM(7, mulM(s1[k], s1[k]))) != fp[k] {
				return false
			}
		}
		return l.prove(MAtom(n).Sub(p0.Mul(p0)).Add(p1.Mul(p1).Scale(7)))
	}
	hit := func() bool {
		l.Lemmas["7 is not a square mod M, so a0^2-7*a1^2 != 0 unless a0=a1=0"]++
		return true
	}
	for _, pr := range l.nzPairs {
		if norm(pr.a0, pr.a1) {
			return hit()
		}
	}
	var nz []int
	for x := range l.C.NZ {
		nz = append(nz, x)
	}
	sort.Ints(nz)
	for _, x := range nz {
		for _, y := range append([]int{-1}, nz...) {
			if norm(x, y) || norm(y, x) {
				return hit()
			}
		}
	}
	return false
}

// ---------- main sweep ----------

func (l *Lift) Run() {
	l.facts()
	for sweep := 0; sweep < 4; sweep++ {
		l.reset()
		l.grow()
		l.changed = false
		for a := 0; a < l.NSpec; a++ {
			if l.C.Atoms[a].Kind != KPoly {
				l.resolve(a)
			}
		}
		l.nzPairs = l.nzPairs[:0]
		for _, e := range l.C.Asserts {
			if l.consumed[e.Seq] {
				continue
			}
			l.step(e)
		}
		// second chance for equations that had to wait
		for i := 0; i < 3 && len(l.Pending) > 0; i++ {
			pend := l.Pending
			l.Pending = nil
			for _, e := range pend {
				l.step(e)
			}
			if len(l.Pending) == len(pend) {
				break
			}
		}
		if !l.changed {
			break
		}
	}
}

func (l *Lift) setCst(a int, v fr.Element) {
	if o, ok := l.cst[a]; ok && o.Equal(&v) {
		return
	}
	l.cst[a] = v
	l.changed = true
}

func (l *Lift) step(e *AssertEv) {
	if l.trace {
		defer func(d, r, p int) {
			fmt.Println("step", e.Seq, e.Kind, e.Where, "terms", len(e.P), "defs", l.Defs-d, "resid", len(l.Resid)-r, "pend", len(l.Pending)-p)
		}(l.Defs, len(l.Resid), len(l.Pending))
	}
	if e.Kind != AEq {
		switch e.Kind {
		case ABool, ARange, ALeq, ANeq:
			p := l.norm(e.P)
			if c, ok := p.IsConst(); ok && e.Kind != ANeq {
				b := new(big.Int)
				c.BigInt(b)
				switch {
				case e.Kind == ABool && b.Cmp(one) <= 0:
					return
				case e.Kind == ARange && b.BitLen() <= e.Bits:
					return
				case e.Kind == ALeq && b.Cmp(e.Bound) <= 0:
					return
				}
			}
			if l.implied(e, p) {
				return
			}
			l.Pending = append(l.Pending, e)
		}
		return
	}
	p := l.norm(e.P)
	if len(p) == 0 {
		return
	}
	if c, ok := p.IsConst(); ok {
		l.Resid = append(l.Resid, &Resid{P: PConst(c), Seq: e.Seq, Where: e.Where, Sh: e.Sh})
		return
	}
	// units
	if len(p) == 1 || (len(p) == 2 && p[0].M == "") {
		t := p[len(p)-1]
		ats := monoAtoms(t.M)
		allIz := true
		for _, a := range ats {
			if l.C.Atoms[a].Kind != KIsZero {
				allIz = false
			}
		}
		if allIz && len(ats) == 1 {
			var v fr.Element
			if len(p) == 2 {
				v.Div(&p[0].C, &t.C)
				v.Neg(&v)
			}
			if v.IsZero() || v.IsOne() {
				l.setCst(ats[0], v)
				l.NonZero = append(l.NonZero, fmt.Sprintf("iszero%d=%s", ats[0], v.String()))
				l.rememberNZ(ats[0])
				return
			}
		}
		if allIz && len(ats) == 2 && len(p) == 1 {
			l.addZeroPair(ats[0], ats[1])
			return
		}
	}
	if l.noWrap(p) {
		pm := l.normM(l.ToM(p))
		inM := map[int]bool{}
		for i := range pm {
			for mm, jj := pm[i].M, 0; jj < len(mm); jj += 4 {
				a := atomAt(mm, jj)
				inM[a] = true
			}
		}
		var vanish []int
		for _, a := range atomsOf(p) {
			if !inM[a] && l.C.Atoms[a].Kind == KHint && !l.hasDef[a] {
				vanish = append(vanish, a)
			}
		}
		undef := l.undefIn(pm)
		if len(undef) == 0 {
			for _, a := range vanish {
				l.quot[a] = true
			}
			if len(pm) == 0 {
				return
			}
			l.Resid = append(l.Resid, &Resid{GL: true, PM: pm, P: p, Seq: e.Seq, Where: e.Where, Sh: e.Sh})
			return
		}
		for _, v := range undef {
			if !l.canonical(v) {
				continue
			}
			a, b, ok := l.linearIn(pm, v)
			if !ok {
				continue
			}
			if len(undef) > 1 {
				// other undefined atoms would become part of the definition
				continue
			}
			if c, isC := a.IsConst(); isC {
				l.room(e, p, v, vanish)
				l.define(v, b.Scale(negM(invM(c))))
				for _, x := range vanish {
					l.quot[x] = true
				}
				return
			}
			if _, isC := b.IsConst(); isC && len(b) > 0 {
				l.define(v, b.Mul(l.invOf(a)).Scale(GM-1))
				for _, x := range vanish {
					l.quot[x] = true
				}
				return
			}
		}
		// chains such as product = RED(v*n), product = 1 with v still unknown
		if len(undef) >= 1 {
			for _, v := range undef {
				if !l.canonical(v) {
					continue
				}
				a, b, ok := l.linearIn(pm, v)
				if !ok {
					continue
				}
				if c, isC := a.IsConst(); isC && l.newest(v, undef) {
					l.def[v] = b.Scale(negM(invM(c)))
					l.hasDef[v] = true
					l.resolved[v] = 2
					l.rank[v] = l.nextRank
					l.nextRank++
					for _, x := range vanish {
						l.quot[x] = true
					}
					for _, u := range undef {
						if u != v {
							l.Undef[u] = true
						}
					}
					return
				}
			}
		}
		l.Pending = append(l.Pending, e)
		return
	}
	l.NoWrapBad = append(l.NoWrapBad, e)
	undef := l.undefIn(l.ToM(p))
	if len(undef) > 0 {
		l.Pending = append(l.Pending, e)
		return
	}
	l.Resid = append(l.Resid, &Resid{P: p, Seq: e.Seq, Where: e.Where, Sh: e.Sh})
}

// room: is the honest quotient always inside its range? p = s*(rest - v - M*q), asked over bounded monomials.
func (l *Lift) room(e *AssertEv, p Poly, v int, vanish []int) {
	if len(vanish) != 1 {
		return
	}
	qa := vanish[0]
	var rest Poly
	var cv, cq *big.Int
	for _, t := range p {
		switch t.M {
		case monoOf(v):
			cv = Centered(&t.C)
		case monoOf(qa):
			cq = Centered(&t.C)
		default:
			rest = append(rest, t)
		}
	}
	if cv == nil || cq == nil || cv.CmpAbs(one) != 0 {
		return
	}
	if cv.Sign() > 0 {
		rest = rest.Neg()
		cq = new(big.Int).Neg(cq)
	}
	if cq.CmpAbs(BigM) != 0 || cq.Sign() > 0 {
		return
	}
	q := NewQ("honest-quotient-fits")
	s := l.abstractSum(q, rest)
	if s == "" {
		return
	}
	lim := new(big.Int).Add(l.UB[qa], one)
	lim.Mul(lim, BigM)
	q.Assert("(or (< %s 0) (>= %s %s))", s, s, lim.String())
	if l.S.Check(q) != "unsat" {
		l.incomplete = append(l.incomplete, e)
	}
}

func (l *Lift) newest(v int, undef []int) bool {
	for _, u := range undef {
		if l.C.Atoms[u].Hint.Seq > l.C.Atoms[v].Hint.Seq {
			return false
		}
	}
	return true
}

func (l *Lift) define(v int, p PolyM) {
	l.Defs++
	l.resolved[v] = 2
	l.register(v, p)
	delete(l.Undef, v)
	l.C.Atoms[v].HasDef = true
}

func (l *Lift) invOf(a PolyM) PolyM {
	// scalar multiples share the inverse
	if id, ok := a.SingleAtom(); ok {
		return MAtom(l.invAtom(MAtom(id)))
	}
	m := a.Monic()
	s := a[len(a)-1].C
	return MAtom(l.invAtom(m)).Scale(invM(s))
}
func (l *Lift) invAtom(n PolyM) int {
	key := "inv" + n.Key()
	if id, ok := n.SingleAtom(); ok {
		key = "inv" + monoOf(id)
	}
	if o, ok := l.structK[key]; ok {
		return o
	}
	at := l.C.newAtom(KInv, "inv")
	at.ArgM = n
	v := l.C.EvalShM(n)
	for k := 0; k < K; k++ {
		at.Sh[k].SetUint64(invM(v[k]))
	}
	l.grow()
	l.resolved[at.ID] = 2
	l.rank[at.ID] = l.nextRank
	l.nextRank++
	l.structK[key] = at.ID
	return at.ID
}

func (c *Ctx) EvalShM(p PolyM) (out [K]uint64) {
	for i := range p {
		for k := 0; k < K; k++ {
			t := p[i].C
			for mm, jj := p[i].M, 0; jj < len(mm); jj += 4 {
				a := atomAt(mm, jj)
				s := shM(c.Atoms[a].Sh)
				t = mulM(t, s[k])
			}
			out[k] = addM(out[k], t)
		}
	}
	return
}

func (l *Lift) rememberNZ(z int) {
	// iszero(x)=0 for a single value: nothing further needed
}
func (l *Lift) addZeroPair(z0, z1 int) {
	key := monoFrom([]int{z0, z1})
	if !l.zp[key] {
		l.zp[key] = true
	}
	l.NonZero = append(l.NonZero, fmt.Sprintf("pair(%d,%d)", z0, z1))
	a0, ok0 := l.norm(l.C.Atoms[z0].Arg).SingleAtom()
	a1, ok1 := l.norm(l.C.Atoms[z1].Arg).SingleAtom()
	if ok0 && ok1 {
		for _, pr := range [][2]int{{a0, a1}, {a1, a0}} {
			l.nzPairs = append(l.nzPairs, nzPair{pr[0], pr[1]})
		}
	}
}

// undefIn lists undefined hint atoms that pm depends on, looking through KPoly.
func (l *Lift) undefIn(pm PolyM) []int {
	seen := map[int]bool{}
	var out []int
	var visit func(a int)
	visit = func(a int) {
		if seen[a] {
			return
		}
		seen[a] = true
		at := l.C.Atoms[a]
		if at.Kind == KHint && !l.hasDef[a] {
			out = append(out, a)
			return
		}
		if at.Kind == KPoly {
			for _, y := range atomsOf(l.nfPoly[a]) {
				visit(y)
			}
			return
		}
		if at.Kind == KHint && l.hasDef[a] && len(l.Undef) > 0 {
			// definitions made while something was still unknown
			for i := range l.def[a] {
				for mm, jj := l.def[a][i].M, 0; jj < len(mm); jj += 4 {
					y := atomAt(mm, jj)
					if l.Undef[y] && !l.hasDef[y] {
						visit(y)
					}
				}
			}
		}
	}
	for i := range pm {
		for mm, jj := pm[i].M, 0; jj < len(mm); jj += 4 {
			a := atomAt(mm, jj)
			visit(a)
		}
	}
	return out
}

// linearIn writes pm = a*v + b, expanding definitions and KPoly that hide v.
func (l *Lift) linearIn(pm PolyM, v int) (a, b PolyM, ok bool) {
	for tries := 0; tries < 6; tries++ {
		hid := -1
		for i := range pm {
			for mm, jj := pm[i].M, 0; jj < len(mm); jj += 4 {
				x := atomAt(mm, jj)
				if x == v {
					continue
				}
				at := l.C.Atoms[x]
				if at.Kind == KPoly && containsAtom(l.nfPoly[x], v) {
					hid = x
				}
				if at.Kind == KHint && l.hasDef[x] && l.def[x] != nil {
					for j := range l.def[x] {
						if strings.Contains(l.def[x][j].M, monoOf(v)) && containsMono(l.def[x][j].M, v) {
							hid = x
						}
					}
				}
			}
		}
		if hid < 0 {
			break
		}
		e, ex := l.expansion(hid)
		if !ex {
			return nil, nil, false
		}
		l.tooBig = false
		pm = l.substM(pm, hid, e)
		if l.tooBig {
			return nil, nil, false
		}
	}
	for i := range pm {
		n := 0
		var rest []int
		for mm, jj := pm[i].M, 0; jj < len(mm); jj += 4 {
			x := atomAt(mm, jj)
			if x == v {
				n++
			} else {
				rest = append(rest, x)
			}
		}
		switch n {
		case 0:
			b = append(b, pm[i])
		case 1:
			a = a.Add(PolyM{{monoFrom(rest), pm[i].C}})
		default:
			return nil, nil, false
		}
	}
	return a, b, len(a) > 0
}
func containsMono(m string, v int) bool {
	for mm, jj := m, 0; jj < len(mm); jj += 4 {
		a := atomAt(mm, jj)
		if a == v {
			return true
		}
	}
	return false
}
func containsAtom(p Poly, v int) bool {
	for i := range p {
		if containsMono(p[i].M, v) {
			return true
		}
	}
	return false
}

// implied: a range or boolean assertion on a compound value that follows from the bounds.
func (l *Lift) implied(e *AssertEv, p Poly) bool {
	var bound *big.Int
	switch e.Kind {
	case ABool:
		bound = one
	case ARange:
		bound = new(big.Int).Sub(new(big.Int).Lsh(one, uint(e.Bits)), one)
	case ALeq:
		bound = e.Bound
	default:
		return false
	}
	lo, hi := l.ivlP(p)
	return lo != nil && lo.Sign() >= 0 && hi.Cmp(bound) <= 0
}

// Equal decides whether two native values agree mod M (both read as integers without wraparound).
func (l *Lift) EqualM(p, q Poly) bool {
	a, b := l.norm(p), l.norm(q)
	if a.Key() == b.Key() {
		return l.same(p, q)
	}
	for _, x := range []Poly{a, b} {
		lo, hi := l.ivlP(x)
		if lo == nil || hi.Cmp(BigR) >= 0 || new(big.Int).Neg(lo).Cmp(BigR) >= 0 {
			return false
		}
	}
	return l.prove(l.normM(l.ToM(a)).Sub(l.normM(l.ToM(b))))
}

// EqualN decides equality in the native field.
func (l *Lift) EqualN(p, q Poly) bool {
	d := l.norm(p.Sub(q))
	if len(d) == 0 {
		return l.same(p, q)
	}
	return l.proveN(d)
}

// same: two values whose normal forms coincide; the solver confirms it from the names they were given.
func (l *Lift) same(p, q Poly) bool {
	if len(p)+len(q) > 4000 {
		return l.norm(p.Sub(q)) == nil
	}
	defs := map[int]Poly{}
	for _, x := range []Poly{p, q} {
		x.Atoms(func(z int) {
			v := l.val(z)
			if id, ok := v.SingleAtom(); !ok || id != z {
				defs[z] = v
			}
		})
	}
	return l.certifyEq(p, q, defs)
}

func (l *Lift) proveN(d Poly) bool {
	goal := d
	defs := map[int]Poly{}
	for steps := 0; steps < 400; steps++ {
		if len(d) == 0 {
			return l.certifyN(goal, defs)
		}
		best := -1
		d.Atoms(func(a int) {
			if l.C.Atoms[a].Kind == KPoly && (best < 0 || l.rank[a] > l.rank[best]) {
				best = a
			}
		})
		if best < 0 {
			return false
		}
		e, ok := l.nfPoly[best]
		if !ok {
			return false
		}
		defs[best] = e
		var out Poly
		acc := map[string]fr.Element{}
		for i := range d {
			t := Poly{{"", d[i].C}}
			for mm, jj := d[i].M, 0; jj < len(mm); jj += 4 {
				a := atomAt(mm, jj)
				if a == best {
					if len(t)*len(e) > maxTerms {
						return false
					}
					t = t.MulExpand(e)
				} else {
					t = t.MulExpand(PAtom(a))
				}
				if len(t) > maxTerms {
					return false
				}
			}
			for _, x := range t {
				if o, ok := acc[x.M]; ok {
					x.C.Add(&x.C, &o)
				}
				acc[x.M] = x.C
			}
		}
		out = polyFromMap(acc)
		d = l.norm(l.idem(out))
		if len(d) > maxTerms {
			return false
		}
	}
	return false
}

// certifyMerge has the solver confirm that two named polynomials agree once the values already identified are.
func (l *Lift) certifyMerge(a, o int, d Poly) {
	x, y := l.C.Atoms[a].Arg, l.C.Atoms[o].Arg
	g := x.Sub(y)
	if t := d.Neg(); t[0].C.Equal(&y1) {
		g = x.Add(y)
	}
	defs := map[int]Poly{}
	g.Atoms(func(z int) {
		v := l.val(z)
		if id, ok := v.SingleAtom(); !ok || id != z {
			defs[z] = v
		}
	})
	if len(g) > 0 && !l.certifyN(g, defs) {
		l.note("solver did not confirm a native identity")
	}
}

var y1 = func() fr.Element { var e fr.Element; e.SetOne(); return e }()

func (l *Lift) certifyN(goal Poly, defs map[int]Poly) bool {
	if len(goal) == 0 {
		return true
	}
	return l.certifyEq(goal, nil, defs)
}
func (l *Lift) certifyEq(goal, minus Poly, defs map[int]Poly) bool {
	q := NewQ("native-identity")
	bools := map[int]bool{}
	w := func(p Poly) string {
		var parts []string
		for i := range p {
			cs := smtInt(Centered(&p[i].C))
			if p[i].M == "" {
				parts = append(parts, cs)
				continue
			}
			var f []string
			for mm, jj := p[i].M, 0; jj < len(mm); jj += 4 {
				a := atomAt(mm, jj)
				f = append(f, q.Int(a, nil, nil))
				if _, isdef := defs[a]; !isdef && l.isBool(a) {
					bools[a] = true
				}
			}
			parts = append(parts, "(* "+cs+" "+strings.Join(f, " ")+")")
		}
		return "(+ 0 " + strings.Join(parts, " ") + ")"
	}
	g := w(goal)
	if len(minus) > 0 {
		g = "(- " + g + " " + w(minus) + ")"
	}
	var ids []int
	for a := range defs {
		ids = append(ids, a)
	}
	sort.Slice(ids, func(i, j int) bool { return l.rank[ids[i]] > l.rank[ids[j]] })
	for _, a := range ids {
		q.Assert("(= %s %s)", q.Int(a, nil, nil), w(defs[a]))
	}
	for _, a := range sortedKeys(bools) {
		q.Assert("(or (= %s 0) (= %s 1))", q.names[a], q.names[a])
	}
	q.Assert("(not (= (mod %s %s) 0))", g, BigR.String())
	return l.S.Check(q) == "unsat"
}
