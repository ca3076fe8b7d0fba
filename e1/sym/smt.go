package sym

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strings"
	"time"
)

// Solver is one z3 process kept alive, with a cache over alpha-renamed queries.
type Solver struct {
	bin      string
	args     []string
	in       io.WriteCloser
	out      *bufio.Reader
	cmd      *exec.Cmd
	cache    map[string]string
	Queries  int // distinct queries sent
	Hits     int // answered from the cache (same shape)
	Unsat    int
	Sat      int
	Unknown  int
	Fallback int // queries decided by another solver configuration than the first
	Time     time.Duration
	ByKind   map[string]int
	TimeoutM int
	Dump     io.Writer
}

func NewSolver() *Solver {
	bin := "z3-new"
	if _, err := exec.LookPath(bin); err != nil {
		bin = "z3"
	}
	return &Solver{bin: bin, args: []string{"-in", "-memory:4000"}, cache: map[string]string{}, ByKind: map[string]int{}, TimeoutM: 10000}
}

func (s *Solver) Name() string {
	b, err := exec.Command(s.bin, "--version").Output()
	if err != nil {
		return s.bin
	}
	return s.bin + ": " + strings.TrimSpace(string(b))
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin, s.args...)
	w, _ := s.cmd.StdinPipe()
	r, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic("cannot start the solver: " + err.Error())
	}
	s.in, s.out = w, bufio.NewReader(r)
}
func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// Q is a query under construction: variables are renamed in order of use.
type Q struct {
	kind  string
	names map[int]string
	order []int
	decl  strings.Builder
	body  strings.Builder
	extra int
	done  map[int]bool
}

func NewQ(kind string) *Q { return &Q{kind: kind, names: map[int]string{}} }

// Int returns the solver name of atom id, declaring it with the given bounds.
func (q *Q) Int(id int, lo, hi *big.Int) string {
	if n, ok := q.names[id]; ok {
		return n
	}
	n := fmt.Sprintf("v%d", len(q.order))
	q.names[id] = n
	q.order = append(q.order, id)
	fmt.Fprintf(&q.decl, "(declare-const %s Int)", n)
	if lo != nil {
		fmt.Fprintf(&q.decl, "(assert (<= %s %s))", smtInt(lo), n)
	}
	if hi != nil {
		fmt.Fprintf(&q.decl, "(assert (<= %s %s))", n, smtInt(hi))
	}
	q.decl.WriteByte('\n')
	return n
}

// Real is Int over the rationals: a relaxation, so unsat carries over to the integers.
func (q *Q) Real(id int, lo, hi *big.Int) string {
	if n, ok := q.names[id]; ok {
		return n
	}
	n := fmt.Sprintf("v%d", len(q.order))
	q.names[id] = n
	q.order = append(q.order, id)
	fmt.Fprintf(&q.decl, "(declare-const %s Real)", n)
	if lo != nil {
		fmt.Fprintf(&q.decl, "(assert (<= %s %s))", smtInt(lo), n)
	}
	if hi != nil {
		fmt.Fprintf(&q.decl, "(assert (<= %s %s))", n, smtInt(hi))
	}
	q.decl.WriteByte('\n')
	return n
}
func (q *Q) Fresh(prefix string) string {
	q.extra++
	n := fmt.Sprintf("%s%d", prefix, q.extra)
	fmt.Fprintf(&q.decl, "(declare-const %s Int)\n", n)
	return n
}
func (q *Q) Assert(f string, a ...any) {
	q.body.WriteString("(assert ")
	fmt.Fprintf(&q.body, f, a...)
	q.body.WriteString(")\n")
}
func smtInt(b *big.Int) string {
	if b.Sign() < 0 {
		return "(- " + new(big.Int).Neg(b).String() + ")"
	}
	return b.String()
}
func smtU(u uint64) string { return new(big.Int).SetUint64(u).String() }

// Check answers sat, unsat or unknown.
func (s *Solver) Check(q *Q) string {
	text := q.decl.String() + q.body.String()
	s.ByKind[q.kind]++
	if r, ok := s.cache[text]; ok {
		s.Hits++
		return r
	}
	r := "unknown"
	if len(text) > 20000 {
		// large bit decompositions: the older arithmetic solver is much faster
		s.Queries++
		s.Unknown++
		r = s.portfolio(text)
	}
	if r == "unknown" {
		var big = len(text) > 20000
		r, _ = s.raw(text, nil)
		if r == "unknown" && !big {
			r = s.portfolio(text)
		}
	}
	s.cache[text] = r
	return r
}

// portfolio gives an undecided query to other solver configurations, the first answer wins.
func (s *Solver) portfolio(text string) string {
	t0 := time.Now()
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	confs := [][]string{
		{s.bin, "-in", "-memory:4000", "smt.arith.solver=2"},
		{s.bin, "-in", "-memory:4000", "smt.random_seed=7", "sat.random_seed=7"},
		{"cvc5", "--lang=smt2", "-"},
	}
	ch := make(chan string, len(confs))
	for _, c := range confs {
		go func(c []string) {
			cmd := exec.CommandContext(ctx, c[0], c[1:]...)
			cmd.Stdin = strings.NewReader("(set-logic ALL)\n" + text + "(check-sat)\n")
			o, _ := cmd.Output()
			l, _, _ := strings.Cut(string(o), "\n")
			ch <- strings.TrimSpace(l)
		}(c)
	}
	r := "unknown"
	for range confs {
		if a := <-ch; a == "unsat" || a == "sat" {
			r = a
			break
		}
	}
	s.Time += time.Since(t0)
	s.Fallback++
	switch r {
	case "unsat":
		s.Unsat++
		s.Unknown--
	case "sat":
		s.Sat++
		s.Unknown--
	}
	return r
}

// Model answers and, when sat, returns the values of the query's variables by atom id.
func (s *Solver) Model(q *Q) (string, map[int]*big.Int) {
	s.ByKind[q.kind]++
	text := q.decl.String() + q.body.String()
	var names []string
	for _, id := range q.order {
		names = append(names, q.names[id])
	}
	r, vals := s.raw(text, names)
	if r != "sat" {
		return r, nil
	}
	m := map[int]*big.Int{}
	for i, id := range q.order {
		if v, ok := vals[names[i]]; ok {
			m[id] = v
		}
	}
	return r, m
}

func (s *Solver) raw(text string, names []string) (string, map[string]*big.Int) {
	if s.cmd == nil {
		s.start()
	}
	t0 := time.Now()
	res := "unknown"
	defer func() {
		d := time.Since(t0)
		s.Time += d
		if lim := os.Getenv("SLOWQ"); lim != "" && d > 500*time.Millisecond {
			os.WriteFile(fmt.Sprintf("%s/q%d.smt2", lim, s.Queries), []byte(text+"(check-sat)\n"), 0o644)
			fmt.Printf("slow query %d: %.1fs %s\n", s.Queries, d.Seconds(), res)
		}
	}()
	s.Queries++
	if s.Dump != nil {
		fmt.Fprintf(s.Dump, "; query %d\n%s(check-sat)\n", s.Queries, text)
	}
	fmt.Fprintf(s.in, "(reset)(set-option :timeout %d)\n%s(check-sat)\n", s.TimeoutM, text)
	bad := false
	type rd struct {
		l   string
		err error
	}
	ch := make(chan rd, 1)
	out := s.out
	go func() {
		l, err := out.ReadString('\n')
		ch <- rd{l, err}
	}()
	var l string
	select {
	case r := <-ch:
		if r.err != nil {
			s.Close()
			s.Unknown++
			return "unknown", nil
		}
		l = strings.TrimSpace(r.l)
	case <-time.After(time.Duration(s.TimeoutM)*time.Millisecond + 10*time.Second):
		s.Close()
		s.Unknown++
		return "unknown", nil
	}
	if strings.HasPrefix(l, "(error") {
		bad = true
		fmt.Fprintln(os.Stderr, "solver:", l)
	}
	if bad {
		s.Close()
		s.Unknown++
		return "unknown", nil
	}
	switch l {
	case "sat":
		res = "sat"
		s.Sat++
	case "unsat":
		res = "unsat"
		s.Unsat++
	default:
		s.Unknown++
	}
	if res != "sat" || len(names) == 0 {
		return res, nil
	}
	vals := map[string]*big.Int{}
	for _, n := range names {
		fmt.Fprintf(s.in, "(eval %s)\n", n)
		l, err := s.out.ReadString('\n')
		if err != nil {
			s.Close()
			return "unknown", nil
		}
		if v := parseSMTInt(strings.TrimSpace(l)); v != nil {
			vals[n] = v
		}
	}
	return res, vals
}

func parseSMTInt(l string) *big.Int {
	neg := false
	if strings.HasPrefix(l, "(- ") {
		neg = true
		l = strings.TrimSuffix(l[3:], ")")
	}
	v, ok := new(big.Int).SetString(l, 10)
	if !ok {
		return nil
	}
	if neg {
		v.Neg(v)
	}
	return v
}

func (s *Solver) KindTable() map[string]int { return s.ByKind }

func sortedKeys[V any](m map[int]V) []int {
	var k []int
	for i := range m {
		k = append(k, i)
	}
	sort.Ints(k)
	return k
}
