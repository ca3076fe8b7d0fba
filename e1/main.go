// e1 decides the circuit properties: it runs the repository's own circuit code
// against a symbolic frontend.API and lets an SMT solver judge the constraints
// that come out.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/e1/checks"
	"verif/e1/sym"
)

type finding struct {
	Status    string `json:"status"` // known or fixed
	Property  string `json:"property"`
	Component string `json:"component"`
	Expect    string `json:"expect"`
	Contains  string `json:"contains"`
	What      string `json:"what"`
}

type outcome struct {
	res  *sym.Result
	wall float64
	err  string
}

func root() string {
	if r := os.Getenv("VERIF_ROOT"); r != "" {
		return r
	}
	return "/verif"
}

// rss is the resident memory of this process in bytes.
func rss() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	var size, res int64
	fmt.Sscan(string(b), &size, &res)
	return res * int64(os.Getpagesize())
}

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: e1 check|show|replay ID|FILE [component]")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check", "show":
		filter := ""
		if len(os.Args) > 3 {
			filter = os.Args[3]
		}
		os.Exit(check(os.Args[2], filter, os.Args[1] == "show"))
	case "replay":
		os.Exit(replay(os.Args[2]))
	}
	os.Exit(2)
}

type replayFile struct {
	Property string       `json:"property"`
	Tier     string       `json:"tier"`
	Witness  *sym.Witness `json:"witness"`
	HowTo    string       `json:"how_to_replay"`
}

func replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var f replayFile
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Println(err)
		return 2
	}
	p := checks.Props[f.Property]
	for _, c := range p.Comps(f.Tier == "thorough") {
		if c.Name != f.Witness.Component {
			continue
		}
		bad, what := sym.Replay(c, f.Witness)
		fmt.Printf("%s %s: reproduced=%v %s\n", f.Property, c.Name, bad, what)
		if bad {
			return 1
		}
		return 0
	}
	fmt.Println("no such component:", f.Witness.Component)
	return 2
}

func check(id, filter string, show bool) int {
	t0 := time.Now()
	if f := os.Getenv("CPUPROFILE"); f != "" {
		w, err := os.Create(f)
		if err == nil {
			_ = pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
	}
	p := checks.Props[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := int64(1)
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = s
	}
	budget := 420 * time.Second
	if tier == "thorough" {
		budget = 3 * time.Hour
	}
	comps := p.Comps(tier == "thorough")
	var sel []*sym.Comp
	names := map[string]bool{}
	for _, c := range comps {
		if names[c.Name] {
			fmt.Fprintln(os.Stderr, "duplicate component", c.Name)
			return 2
		}
		names[c.Name] = true
		if filter == "" || strings.Contains(c.Name, filter) {
			sel = append(sel, c)
		}
	}
	workers := runtime.NumCPU()
	if workers > 6 {
		workers = 6
	}
	if p.Serial {
		workers = 1
	}
	outs := make([]outcome, len(sel))
	var solvers []*sym.Solver
	var wg sync.WaitGroup
	var mu sync.Mutex
	stop := make(chan bool) // closed at the first violation
	stopped := false
	put := func(i int, o outcome) {
		mu.Lock()
		defer mu.Unlock()
		outs[i] = o
		if o.res != nil && o.res.Status == "violated" && !stopped && !show {
			stopped = true
			close(stop)
		}
	}
	next := make(chan int, len(sel))
	for w := 0; w < workers; w++ {
		s := sym.NewSolver()
		solvers = append(solvers, s)
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer s.Close()
			ck := &sym.Checker{S: s, Seed: seed, Thorough: tier == "thorough", Verbose: show}
			for i := range next {
				t := time.Now()
				if t.Sub(t0) > budget {
					put(i, outcome{err: "not run: the time budget is used up"})
					continue
				}
				select {
				case <-stop:
					put(i, outcome{err: "not run: a violation was found before"})
					continue
				default:
				}
				func() {
					defer func() {
						if r := recover(); r != nil {
							put(i, outcome{err: fmt.Sprint("the harness failed: ", r)})
							if show {
								fmt.Println(string(debug.Stack()))
							}
						}
					}()
					res := ck.Check(sel[i])
					put(i, outcome{res: res, wall: time.Since(t).Seconds()})
				}()
				if show {
					fmt.Fprintf(os.Stderr, "done %s %.2fs\n", sel[i].Name, outs[i].wall)
				}
			}
		}()
	}
	for i := range sel {
		next <- i
	}
	close(next)
	all := make(chan bool)
	go func() { wg.Wait(); close(all) }()
	hard := time.NewTimer(budget + 200*time.Second)
	debug.SetMemoryLimit(10 << 30)
	full := make(chan bool) // closed when memory runs out: what is not decided by then stays undecided
	go func() {
		for {
			time.Sleep(time.Second)
			if rss() > 18<<30 {
				close(full)
				return
			}
		}
	}()
	select {
	case <-all:
	case <-hard.C:
	case <-full:
	case <-stop:
		select {
		case <-all:
		case <-time.After(30 * time.Second):
		}
	}
	mu.Lock()
	outs = append([]outcome{}, outs...)
	mu.Unlock()
	for i := range outs {
		if outs[i].res == nil && outs[i].err == "" {
			outs[i].err = "not finished in time, or stopped after a violation"
		}
	}

	var known []finding
	if b, err := os.ReadFile(filepath.Join(root(), "known_findings.json")); err == nil {
		if err := json.Unmarshal(b, &known); err != nil {
			fmt.Fprintln(os.Stderr, "known_findings.json:", err)
			return 2
		}
	}
	violations, nproved, ninc, knownHits := 0, 0, 0, 0
	var rows []map[string]any
	var unresolved []string
	byKind := map[string]int{}
	var q, hits, unsat, sat, unk int
	var st time.Duration
	for _, s := range solvers {
		q += s.Queries
		hits += s.Hits
		unsat += s.Unsat
		sat += s.Sat
		unk += s.Unknown
		st += s.Time
		for k, v := range s.ByKind {
			byKind[k] += v
		}
	}
	os.MkdirAll(filepath.Join(root(), "evidence"), 0o755)
	constraints, hints, values, replays, oblig := 0, 0, 0, 0, 0
	for i, o := range outs {
		if o.res == nil {
			ninc++
			unresolved = append(unresolved, sel[i].Name+": "+o.err)
			rows = append(rows, map[string]any{"component": sel[i].Name, "status": "not decided", "detail": o.err})
			if show {
				fmt.Printf("%-36s NOT DECIDED %s\n", sel[i].Name, o.err)
			}
			continue
		}
		r := o.res
		constraints += r.Asserts
		hints += r.Hints
		values += r.Atoms
		replays += r.Replays + 1
		oblig += r.Outputs + r.Equations + r.Bounds + r.RangeProved
		if show {
			fmt.Printf("%-36s %-12s %6.2fs atoms %d hints %d asserts %d clusters %d defs %d merged %d eq %d/%d out %d bounds %d replays %d\n", r.Comp, r.Status, o.wall, r.Atoms, r.Hints, r.Asserts, r.RangeProved, r.Defs, r.Merged, r.Equations, r.SpecEqs, r.Outputs, r.Bounds, r.Replays)
			for _, d := range r.Detail {
				fmt.Println("     ", d)
			}
		}
		row := map[string]any{"component": r.Comp, "status": r.Status, "constraints": r.Asserts, "hint_calls": r.Hints, "symbolic_values": r.Atoms,
			"outputs_proved": r.Outputs, "equations_matched": r.Equations, "bounds_proved": r.Bounds, "range_clusters": r.RangeProved, "definitions_lifted": r.Defs, "wall_s": o.wall}
		if len(r.Detail) > 0 {
			row["detail"] = r.Detail
		}
		rows = append(rows, row)
		switch r.Status {
		case "proved":
			nproved++
		case "inconclusive":
			ninc++
			unresolved = append(unresolved, r.Comp)
		case "violated":
			w := r.Witness
			hit := false
			for _, k := range known {
				if k.Status == "known" && k.Property == id && k.Component == r.Comp && k.Expect == w.Expect && strings.Contains(w.What, k.Contains) {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.What)
					hit = true
					knownHits++
					break
				}
			}
			if hit {
				continue
			}
			bad, what := sym.Replay(sel[i], w)
			if !bad {
				ninc++
				unresolved = append(unresolved, r.Comp+": a candidate counterexample did not reproduce: "+w.What)
				continue
			}
			violations++
			path := filepath.Join(root(), "evidence", fmt.Sprintf("%s.violation%d.json", id, violations))
			sym.WriteJSON(path, replayFile{id, tier, w, "bash /verif/run.sh replay " + path})
			fmt.Printf("%s: %s: %s\n", id, r.Comp, what)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		}
	}
	sort.Strings(unresolved)
	wall := time.Since(t0).Seconds()
	if filter == "" {
		var samples []any
		for i, r := range rows {
			if i < 3 {
				samples = append(samples, r)
			}
		}
		ev := map[string]any{
			"property": id, "tier": tier, "seed": seed, "level": "other", "wall_s": wall, "violations": violations,
			"assumptions": append(append([]string{}, p.Assume...), checks.CommonAssume...),
			"coverage": map[string]any{
				"explanation":          "Solver-based checking: the repository's functions were executed against a symbolic frontend.API; every emitted constraint was turned into solver queries over unbounded integers, and the results were matched, again by solver queries, with an independent specification over symbolic inputs. Each component is decided for all input values; sizes are the stated bounds.",
				"functions_encoded":    p.Functions,
				"bounds":               p.Bounds,
				"components":           rows,
				"components_proved":    nproved,
				"components_undecided": ninc,
				"undecided":            unresolved,
				"known_findings":       knownHits,
				"constraints_encoded":  constraints,
				"hint_calls_made_free": hints,
				"symbolic_values":      values,
				"obligations_shown":    oblig,
				"concrete_replays":     replays,
				"queries_sent":         q,
				"queries_cached":       hits,
				"unsat":                unsat, "sat": sat, "unknown": unk,
				"queries_by_kind": byKind,
				"solver_s":        st.Seconds(),
				"solver":          solvers[0].Name(),
				"samples":         samples,
			},
		}
		sym.WriteJSON(filepath.Join(root(), "evidence", id+".json"), ev)
	}
	fmt.Printf("%s: %d components decided, %d undecided, %d violated; %d queries (%d more from the cache), solver %.1fs, wall %.1fs\n", id, nproved, ninc, violations, q, hits, st.Seconds(), wall)
	for _, u := range unresolved {
		fmt.Println("  undecided:", u)
	}
	if show {
		fmt.Println(byKind, "unsat", unsat, "sat", sat, "unknown", unk)
	}
	if violations > 0 {
		return 1
	}
	return 0
}
