package sx

import (
	"fmt"
	"regexp"
	"regexp/syntax"
)

// Symbolic execution of a regular expression (Go's leftmost-first semantics) on a string of literal pieces and
// decimal numbers. A number is a run of digits of unknown length and content; the threads of the matching automaton
// are carried through it until they repeat, so the answer holds for every length. Where the answer depends on the
// number of digits the path forks on it.

type reThread struct {
	pc   uint32
	caps []int
}

type rePos struct {
	seg, off int
	inside   bool
}

type reRun struct {
	prog    *syntax.Prog
	ncap    int
	matched []int
	cut     bool
}

func (r *reRun) add(list []reThread, seen map[uint32]bool, pc uint32, pos int, caps []int, ctx syntax.EmptyOp) []reThread {
	if seen[pc] {
		return list
	}
	seen[pc] = true
	i := &r.prog.Inst[pc]
	switch i.Op {
	case syntax.InstFail:
	case syntax.InstAlt, syntax.InstAltMatch:
		list = r.add(list, seen, i.Out, pos, caps, ctx)
		list = r.add(list, seen, i.Arg, pos, caps, ctx)
	case syntax.InstEmptyWidth:
		if syntax.EmptyOp(i.Arg)&^ctx == 0 {
			list = r.add(list, seen, i.Out, pos, caps, ctx)
		}
	case syntax.InstNop:
		list = r.add(list, seen, i.Out, pos, caps, ctx)
	case syntax.InstCapture:
		if int(i.Arg) < r.ncap {
			c := append([]int{}, caps...)
			c[i.Arg] = pos
			caps = c
		}
		list = r.add(list, seen, i.Out, pos, caps, ctx)
	default:
		list = append(list, reThread{pc, caps})
	}
	return list
}

var errDigits = fmt.Errorf("tells digits apart")

// step consumes one rune; next is the position after it, ctx the empty-width context there.
func (r *reRun) step(ts []reThread, ch rune, digit bool, next int, ctx syntax.EmptyOp, anchored bool) (out []reThread, matched []int, err error) {
	seen := map[uint32]bool{}
	for _, t := range ts {
		i := &r.prog.Inst[t.pc]
		if i.Op == syntax.InstMatch {
			matched = append([]int{}, t.caps...)
			matched[1] = -1 // filled by the caller
			break
		}
		ok := i.MatchRune(ch)
		if digit {
			for d := '0'; d <= '9'; d++ {
				if i.MatchRune(d) != ok {
					return nil, nil, errDigits
				}
			}
		}
		if ok {
			out = r.add(out, seen, i.Out, next, t.caps, ctx)
		}
	}
	return out, matched, nil
}

func sameThreads(a, b []reThread) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].pc != b[i].pc {
			return false
		}
		for k := range a[i].caps {
			if a[i].caps[k] != b[i].caps[k] {
				return false
			}
		}
	}
	return true
}

func sameInts(a, b []int) bool {
	if (a == nil) != (b == nil) || len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

type reState struct {
	ts      []reThread
	matched []int
}

func sameState(a, b reState) bool { return sameThreads(a.ts, b.ts) && sameInts(a.matched, b.matched) }

// reExec reports the captures as pieces of s; err says why it is out of reach.
func (p *Path) reExec(re *regexp.Regexp, s Str) (groups []Value, matched bool, err error) {
	rx, err := syntax.Parse(re.String(), syntax.Perl)
	if err != nil {
		return nil, false, err
	}
	prog, err := syntax.Compile(rx.Simplify())
	if err != nil {
		return nil, false, err
	}
	s = Cat(nil, s)
	ncap := 2 * (re.NumSubexp() + 1)
	r := &reRun{prog: prog, ncap: ncap}
	var positions []rePos
	pos := func(seg, off int, inside bool) int {
		positions = append(positions, rePos{seg, off, inside})
		return len(positions) - 1
	}
	// the string as items: runes and numbers
	type item struct {
		seg, off, n int
		ch          rune
		num         *Term
	}
	var items []item
	for k, g := range s {
		if g.Num != nil {
			items = append(items, item{seg: k, num: g.Num, ch: '5'})
			continue
		}
		for o, c := range g.Lit {
			items = append(items, item{seg: k, off: o, ch: c})
		}
	}
	at := func(i int) (rune, bool) {
		if i < 0 || i >= len(items) {
			return -1, false
		}
		return items[i].ch, true
	}
	starts := make([]int, len(items)+1)
	for i, x := range items {
		starts[i] = pos(x.seg, x.off, false)
	}
	starts[len(items)] = pos(len(s), 0, false)
	fresh := func() []int {
		c := make([]int, ncap)
		for i := range c {
			c[i] = -2
		}
		return c
	}
	// inject: a new thread at this position, with the lowest priority
	inject := func(st reState, at int, ctx syntax.EmptyOp) reState {
		if st.matched != nil {
			return st
		}
		seen := map[uint32]bool{}
		for _, t := range st.ts {
			seen[t.pc] = true
		}
		// pcs reached by closure of higher-priority threads are only recorded when consuming, which is all that counts
		c := fresh()
		c[0] = at
		st.ts = r.add(append([]reThread{}, st.ts...), seen, uint32(prog.Start), at, c, ctx)
		return st
	}
	step := func(st reState, ch rune, digit bool, cur, next int, ctx syntax.EmptyOp) (reState, error) {
		out, m, err := r.step(st.ts, ch, digit, next, ctx, false)
		if err != nil {
			return st, err
		}
		n := reState{out, st.matched}
		if m != nil {
			m[1] = cur
			n.matched = m
		}
		return n, nil
	}
	ctxOf := func(a, b rune) syntax.EmptyOp { return syntax.EmptyOpContext(a, b) }
	st := reState{}
	r0, _ := at(0)
	st = inject(st, starts[0], ctxOf(-1, r0))
	for i, x := range items {
		nextR, _ := at(i + 1)
		if x.num == nil {
			if st, err = step(st, x.ch, false, starts[i], starts[i+1], ctxOf(x.ch, nextR)); err != nil {
				return nil, false, err
			}
			st = inject(st, starts[i+1], ctxOf(x.ch, nextR))
			continue
		}
		in := pos(x.seg, 0, true)
		var ends []reState
		cur, curPos := st, starts[i]
		for k := 0; ; k++ {
			if k > 40 {
				return nil, false, fmt.Errorf("a number's digits do not settle in %s", re)
			}
			e, err := step(cur, '5', true, curPos, starts[i+1], ctxOf('5', nextR))
			if err != nil {
				return nil, false, err
			}
			ends = append(ends, inject(e, starts[i+1], ctxOf('5', nextR)))
			n, err := step(cur, '5', true, curPos, in, ctxOf('5', '5'))
			if err != nil {
				return nil, false, err
			}
			n = inject(n, in, ctxOf('5', '5'))
			if k > 0 && sameState(n, cur) {
				break
			}
			cur, curPos = n, in
		}
		// the same end for every length, or a fork on the number of digits
		pick := len(ends) - 1
		same := true
		for _, e := range ends[1:] {
			if !sameState(e, ends[0]) {
				same = false
			}
		}
		if !same {
			lim := N(10)
			for k := 0; k < len(ends)-1; k++ {
				if p.Branch(Lt(x.num, lim)) {
					pick = k
					break
				}
				lim = Mul(lim, N(10))
			}
		}
		st = ends[pick]
	}
	for _, t := range st.ts {
		if prog.Inst[t.pc].Op == syntax.InstMatch {
			st.matched = append([]int{}, t.caps...)
			st.matched[1] = starts[len(items)]
			break
		}
	}
	if st.matched == nil {
		return nil, false, nil
	}
	for g := 0; g < ncap; g += 2 {
		a, b := st.matched[g], st.matched[g+1]
		if a == -2 || b == -2 {
			groups = append(groups, Str{})
			continue
		}
		x, y := positions[a], positions[b]
		if x.inside || y.inside {
			groups = append(groups, p.Opaque(nil, "part of a number"))
			continue
		}
		o := Str{}
		for k := x.seg; k <= y.seg && k < len(s); k++ {
			lo, hi := 0, len(s[k].Lit)
			if k == x.seg {
				lo = x.off
			}
			if k == y.seg {
				hi = y.off
			}
			if s[k].Num != nil {
				if k < y.seg {
					o = Cat(o, Str{s[k]})
				}
				continue
			}
			o = Cat(o, Lit(s[k].Lit[lo:hi]))
		}
		groups = append(groups, o)
	}
	return groups, true, nil
}
