package sx

import (
	"math/rand"
	"regexp"
	"strconv"
	"testing"
)

// The symbolic matcher against the real one on random expressions and strings.
func TestReExec(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	atoms := []string{"a", "b", " ", "[0-9]", "[a-z]", ".", `\d`, `\w`, "[^a]", "x:", `\b`, "^", "$"}
	var gen func(d int) string
	gen = func(d int) string {
		switch k := r.Intn(9); {
		case d <= 0 || k < 3:
			return atoms[r.Intn(len(atoms))]
		case k < 6:
			return gen(d-1) + gen(d-1)
		case k == 6:
			return "(?:" + gen(d-1) + "|" + gen(d-1) + ")"
		case k == 7:
			return "(" + gen(d-1) + ")"
		default:
			return "(?:" + gen(d-1) + ")" + []string{"*", "+", "?", "*?", "{1,2}"}[r.Intn(5)]
		}
	}
	used, forks := 0, 0
	for n := 0; n < 6000; n++ {
		re, err := regexp.Compile(gen(4))
		if err != nil {
			continue
		}
		var s Str
		var nums []int64
		for i, k := 0, 1+r.Intn(4); i < k; i++ {
			if len(s) == 0 || s[len(s)-1].Num == nil {
				if r.Intn(2) == 0 {
					v := []int64{0, 7, 42, 123, 99999}[r.Intn(5)]
					s = append(s, Seg{Num: Var("n"+strconv.Itoa(len(nums)), BI(0), nil)})
					nums = append(nums, v)
					continue
				}
			}
			s = Cat(s, Lit([]string{"a", "b ", "x:", "ab", " "}[r.Intn(5)]))
		}
		m := map[string]interface{}{}
		_ = m
		conc := ""
		i := 0
		for _, g := range s {
			if g.Num != nil {
				conc += strconv.FormatInt(nums[i], 10)
				i++
			} else {
				conc += g.Lit
			}
		}
		e := &Engine{S: NewSolver(), MaxForks: 100}
		p := &Path{E: e, User: map[string]any{}, ApproxBy: map[string]bool{}}
		// pin the numbers so that forks follow the concrete case
		for i, v := range nums {
			p.PC = append(p.PC, Eq(Var("n"+strconv.Itoa(i), BI(0), nil), N(v)))
		}
		if len(nums) == 0 {
			e.S.Close()
			continue
		}
		g, ok, err := p.reExec(re, s)
		if len(p.taken) > 0 {
			forks++
		}
		e.S.Close()
		if err != nil {
			continue
		}
		used++
		want := re.FindStringSubmatch(conc)
		if ok != (want != nil) {
			t.Fatalf("%s on %s (%s): %v, want %v", re, s, conc, ok, want)
		}
		for k := range want {
			x, isStr := g[k].(Str)
			if !isStr {
				continue
			}
			got := ""
			for _, q := range x {
				if q.Num != nil {
					n, _ := strconv.Atoi(q.Num.Name[1:])
					got += strconv.FormatInt(nums[n], 10)
				} else {
					got += q.Lit
				}
			}
			if got != want[k] {
				t.Fatalf("%s on %s (%s): group %d %q, want %q", re, s, conc, k, got, want[k])
			}
		}
	}
	t.Log(used, "cases", forks, "with forks")
	if used < 500 {
		t.Fatal("too few")
	}
}
