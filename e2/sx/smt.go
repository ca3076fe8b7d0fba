package sx

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"regexp"
	"strings"
	"time"
)

// Solver is a running z3.
type Solver struct {
	cmd      *exec.Cmd
	in       io.WriteCloser
	out      *bufio.Reader
	defined  map[int]bool
	ufs      map[string]bool
	Queries  int
	Time     time.Duration
	Unknown  int
	Timeout  int
	Sat      int
	Unsat    int
	cache    map[string]string
	starting string
}

func NewSolver() *Solver {
	s := &Solver{Timeout: 20000, cache: map[string]string{}}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command("z3-new", "-in", "-smt2")
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.out = bufio.NewReaderSize(o, 1<<20)
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.defined, s.ufs = map[int]bool{}, map[string]bool{}
	fmt.Fprintf(s.in, "(set-option :timeout %d)\n(set-option :model true)\n", s.Timeout)
	var b strings.Builder
	b.WriteString("(define-fun pow2 ((x Int)) Int ")
	for i := 0; i < 256; i++ {
		fmt.Fprintf(&b, "(ite (= x %d) %s ", i, new(big.Int).Lsh(BI(1), uint(i)))
	}
	b.WriteString("0" + strings.Repeat(")", 256) + ")\n")
	io.WriteString(s.in, b.String())
}

func (s *Solver) Close() { s.in.Close(); s.cmd.Process.Kill(); s.cmd.Wait() }

func num(n *big.Int) string {
	if n.Sign() < 0 {
		return "(- " + new(big.Int).Neg(n).String() + ")"
	}
	return n.String()
}

func ref(t *Term) string {
	switch t.Op {
	case "const":
		if t.Bool {
			if t == True {
				return "true"
			}
			return "false"
		}
		return num(t.C)
	case "var":
		return "|" + t.Name + "|"
	}
	return fmt.Sprintf("t%d", t.ID)
}

func (s *Solver) define(b *strings.Builder, t *Term, bounds *[]string) {
	if t.Op == "const" || s.defined[t.ID] {
		return
	}
	s.defined[t.ID] = true
	sort := "Int"
	if t.Bool {
		sort = "Bool"
	}
	if t.Op == "var" {
		fmt.Fprintf(b, "(declare-const %s %s)\n", ref(t), sort)
		if t.Lo != nil {
			fmt.Fprintf(b, "(assert (<= %s %s))\n", num(t.Lo), ref(t))
		}
		if t.Hi != nil {
			fmt.Fprintf(b, "(assert (<= %s %s))\n", ref(t), num(t.Hi))
		}
		return
	}
	var as []string
	for _, a := range t.Args {
		s.define(b, a, bounds)
		as = append(as, ref(a))
	}
	op := map[string]string{"add": "+", "mul": "*", "div": "div", "mod": "mod", "ite": "ite", "pow2": "pow2", "eq": "=", "le": "<=", "not": "not", "and": "and"}[t.Op]
	if t.Op == "uf" {
		n := fmt.Sprintf("|%s/%d|", t.Name, len(as))
		if !s.ufs[n] {
			s.ufs[n] = true
			fmt.Fprintf(b, "(declare-fun %s (%s) Int)\n", n, strings.TrimSpace(strings.Repeat("Int ", len(as))))
		}
		op = n
	}
	fmt.Fprintf(b, "(define-fun t%d () %s (%s %s))\n", t.ID, sort, op, strings.Join(as, " "))
	if t.Op == "uf" {
		if t.Lo != nil {
			fmt.Fprintf(b, "(assert (<= %s t%d))\n", num(t.Lo), t.ID)
		}
		if t.Hi != nil {
			fmt.Fprintf(b, "(assert (<= t%d %s))\n", t.ID, num(t.Hi))
		}
	}
}

func vars(t *Term, seen map[int]bool, out *[]*Term) {
	if seen[t.ID] {
		return
	}
	seen[t.ID] = true
	if t.Op == "var" {
		*out = append(*out, t)
	}
	for _, a := range t.Args {
		vars(a, seen, out)
	}
}

// Check decides the conjunction: "sat", "unsat" or "unknown". With model, values of the variables come back.
func (s *Solver) Check(ts []*Term, model bool) (string, map[string]*big.Int) {
	c := And(ts...)
	if c == False {
		return "unsat", nil
	}
	if c == True && !model {
		return "sat", nil
	}
	key := fmt.Sprint(c.ID)
	if r, ok := s.cache[key]; ok && !model {
		return r, nil
	}
	t0 := time.Now()
	var b strings.Builder
	s.define(&b, c, nil)
	b.WriteString("(push)\n")
	fmt.Fprintf(&b, "(assert %s)\n(check-sat)\n(echo \"done\")\n", ref(c))
	io.WriteString(s.in, b.String())
	r := "unknown"
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			s.start()
			return "unknown", nil
		}
		l = strings.TrimSpace(l)
		if l == "done" {
			break
		}
		if l == "sat" || l == "unsat" || l == "unknown" {
			r = l
		} else if strings.Contains(l, "error") {
			fmt.Fprintln(os.Stderr, "z3:", l)
		}
	}
	var m map[string]*big.Int
	if r == "sat" && model {
		m = map[string]*big.Int{}
		var vs []*Term
		vars(c, map[int]bool{}, &vs)
		if len(vs) > 0 {
			var q strings.Builder
			q.WriteString("(get-value (")
			for _, v := range vs {
				q.WriteString(ref(v) + " ")
			}
			q.WriteString("))\n(echo \"done\")\n")
			io.WriteString(s.in, q.String())
			var all strings.Builder
			for {
				l, err := s.out.ReadString('\n')
				if err != nil || strings.TrimSpace(l) == "done" {
					break
				}
				all.WriteString(l)
			}
			for _, v := range vs {
				re := regexp.MustCompile(`\(` + regexp.QuoteMeta(ref(v)) + `\s+(true|false|\(-\s*\d+\)|\d+)`)
				alt := regexp.MustCompile(`\(` + regexp.QuoteMeta(v.Name) + `\s+(true|false|\(-\s*\d+\)|\d+)`)
				x := re.FindStringSubmatch(all.String())
				if x == nil {
					x = alt.FindStringSubmatch(all.String())
				}
				if x == nil {
					continue
				}
				n := new(big.Int)
				switch {
				case x[1] == "true":
					n.SetInt64(1)
				case x[1] == "false":
				case x[1][0] == '(':
					n.SetString(strings.Trim(x[1], "()- "), 10)
					n.Neg(n)
				default:
					n.SetString(x[1], 10)
				}
				m[v.Name] = n
			}
		}
	}
	io.WriteString(s.in, "(pop)\n")
	s.Queries++
	s.Time += time.Since(t0)
	switch r {
	case "unknown":
		s.Unknown++
	case "sat":
		s.Sat++
	default:
		s.Unsat++
	}
	s.cache[key] = r
	return r, m
}

// Raw runs one self-contained SMT-LIB script (string queries); on unknown cvc5 is asked too.
func (s *Solver) Raw(script string) (string, string) {
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0); s.Queries++ }()
	run := func(name string, args ...string) (string, string) {
		// (solvers do not always keep to their own limits)
		ctx, cancel := context.WithTimeout(context.Background(), 40*time.Second)
		defer cancel()
		c := exec.CommandContext(ctx, name, args...)
		c.Stdin = strings.NewReader(script)
		o, _ := c.Output()
		t := string(o)
		f, rest, _ := strings.Cut(t, "\n")
		return strings.TrimSpace(f), rest
	}
	r, m := run("z3-new", "-in", "-smt2", "-T:20")
	if r != "sat" && r != "unsat" {
		r, m = run("cvc5", "--strings-exp", "--produce-models", "--tlimit=20000", "--lang=smt2", "-")
	}
	if r == "unsat" {
		s.Unsat++
	} else if r == "sat" {
		s.Sat++
	} else {
		s.Unknown++
		r = "unknown"
	}
	return r, m
}
