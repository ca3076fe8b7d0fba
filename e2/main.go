// Command e2 decides properties of the repository's plain Go code by symbolic execution of its SSA form.
package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"verif/e2/sx"
)

// A Violation is a candidate until Replay has shown it on the real code.
type Violation struct {
	Group  string            // once one of a group is shown, the others are not run
	What   string            `json:"what"`
	Inputs map[string]string `json:"inputs"`
	Key    string            `json:"key"`
	// Replay runs the real code; it reports whether the violation shows and what was seen.
	Replay func() (bool, string) `json:"-"`
	Files  map[string]string     `json:"files,omitempty"` // test sources that show it
	Cmd    string                `json:"cmd,omitempty"`
}

// A Report collects what one check did.
type Report struct {
	ID         string
	Title      string
	Bounds     string
	Assume     []string
	Entries    []string
	Rows       []map[string]any
	Violations []*Violation
	Undecided  []string
	Oblig      int
	Replays    int
	probes     int
	Samples    []Sample // concrete cases of this check, run on the real code as a test of the encoding
}

type Sample struct{ Name string }

func (r *Report) row(name string, kv ...any) {
	m := map[string]any{"component": name}
	for i := 0; i+1 < len(kv); i += 2 {
		m[kv[i].(string)] = kv[i+1]
	}
	r.Rows = append(r.Rows, m)
}

func (r *Report) undecided(s string) {
	for _, x := range r.Undecided {
		if x == s {
			return
		}
	}
	if len(r.Undecided) < 60 {
		r.Undecided = append(r.Undecided, s)
	}
}

// probe is called for a path that the engine could not follow to its end: the solver's model of the path so far
// is a candidate as well, which only counts if it reproduces on the real code.
func (r *Report) probe(f func()) {
	if r.probes++; r.probes <= 5 {
		f()
	}
}

func (r *Report) violate(v *Violation) {
	for _, x := range r.Violations {
		if x.Key == v.Key {
			return
		}
	}
	r.Violations = append(r.Violations, v)
}

var (
	repo  = env("REPO", "/repo")
	root  = env("VERIF_ROOT", "/verif")
	goBin = env("REPO_GO", "/usr/local/bin/go1.23")
	tier  = env("VERIF_TIER", "quick")
	work  string

	started = time.Now()
)

func thorough() bool { return tier == "thorough" }

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

type check struct {
	title string
	run   func(r *Report) *sx.Engine
}

var checks = map[string]check{}

func load(patterns ...string) (*sx.Engine, error) {
	d, _ := filepath.EvalSymlinks(goBin)
	e, err := sx.Load(repo, filepath.Dir(d), patterns...)
	if err == nil {
		e.Deadline = started.Add(480 * time.Second)
		if thorough() {
			e.Deadline = started.Add(3 * time.Hour)
		}
	}
	return e, err
}

type finding struct {
	Property string `json:"property"`
	Status   string `json:"status"`
	Key      string `json:"key"`
	What     string `json:"what"`
}

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: e2 check ID | e2 replay FILE")
		os.Exit(2)
	}
	var err error
	work, err = os.MkdirTemp(filepath.Join(root, "build"), "e2.")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	code := 2
	func() {
		defer os.RemoveAll(work)
		if os.Args[1] == "replay" {
			code = replayFile(os.Args[2])
		} else {
			code = run(os.Args[2])
		}
	}()
	os.Exit(code)
}

func run(id string) int {
	t0 := time.Now()
	c, ok := checks[id]
	if !ok {
		fmt.Fprintln(os.Stderr, "no check for", id)
		return 2
	}
	r := &Report{ID: id, Title: c.title}
	var e *sx.Engine
	func() {
		defer func() {
			if x := recover(); x != nil {
				if os.Getenv("TRACE") != "" {
					panic(x)
				}
				r.undecided(fmt.Sprint("the harness failed: ", x))
			}
		}()
		e = c.run(r)
	}()
	if e != nil {
		for _, k := range []string{"path limit", "time limit"} {
			if n := e.Aborted[k]; n > 0 {
				r.undecided(fmt.Sprintf("%s reached in %d explorations", k, n))
			}
		}
	}
	var known []finding
	if b, err := os.ReadFile(filepath.Join(root, "known_findings.json")); err == nil {
		json.Unmarshal(b, &known)
	}
	bad, groups := 0, map[string]bool{}
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	for _, v := range r.Violations {
		hit := false
		for _, k := range known {
			if k.Status == "known" && k.Property == id && k.Key != "" && k.Key == v.Key {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.What)
				hit = true
			}
		}
		if hit {
			continue
		}
		if bad >= 5 || bad > 0 && time.Since(started) > 300*time.Second && !thorough() {
			break
		}
		r.Replays++
		if bad > 0 && v.Group != "" && groups[v.Group] {
			continue
		}
		shown, what := v.Replay()
		if shown {
			groups[v.Group] = true
		}
		if !shown {
			r.undecided("a candidate counterexample did not reproduce on the real code: " + v.What + " (" + what + ")")
			continue
		}
		bad++
		path := filepath.Join(root, "evidence", fmt.Sprintf("%s.e2violation%d.json", id, bad))
		b, _ := json.MarshalIndent(map[string]any{"property": id, "what": v.What, "inputs": v.Inputs, "observed": what, "files": v.Files, "cmd": v.Cmd,
			"replay": "bash /verif/run.sh replay " + path}, "", " ")
		os.WriteFile(path, b, 0o644)
		fmt.Printf("%s: %s: %s\n", id, v.What, what)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
	}
	wall := time.Since(t0).Seconds()
	ev := map[string]any{}
	if b, err := os.ReadFile(filepath.Join(root, "evidence", id+".e1.json")); err == nil {
		json.Unmarshal(b, &ev)
	}
	cov := map[string]any{"engine": "symbolic execution of the Go SSA form of the real functions; z3 decides branch feasibility and every obligation",
		"bounds": r.Bounds, "entry_points": r.Entries, "components": r.Rows, "obligations": r.Oblig, "undecided": r.Undecided, "concrete_replays": r.Replays}
	if e != nil {
		cov["functions"] = sx.Keys(e.Funcs)
		cov["paths"] = e.Paths
		cov["paths_given_up"] = e.Aborted
		cov["approximations"] = e.Approx
		cov["smt"] = map[string]any{"solver": "z3-new (cvc5 second for strings)", "queries": e.S.Queries, "unsat": e.S.Unsat, "sat": e.S.Sat, "unknown": e.S.Unknown, "solver_time_s": e.S.Time.Seconds()}
		e.S.Close()
	}
	if len(ev) > 0 { // the circuit part of the same property ran before
		old, _ := ev["coverage"].(map[string]any)
		cov = map[string]any{"circuit_part": old, "code_part": cov}
		if w, ok := ev["wall_s"].(float64); ok {
			wall += w
		}
		if v, ok := ev["violations"].(float64); ok {
			bad += int(v)
		}
		if a, ok := ev["assumptions"].([]any); ok {
			for _, x := range a {
				r.Assume = append(r.Assume, fmt.Sprint(x))
			}
		}
	}
	ev = map[string]any{"property": id, "tier": tier, "seed": 1, "level": "other", "wall_s": wall, "violations": bad, "assumptions": r.Assume, "coverage": cov}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(root, "evidence", id+".json"), b, 0o644)
	q, st, paths := 0, 0.0, 0
	if e != nil {
		q, st, paths = e.S.Queries, e.S.Time.Seconds(), e.Paths
	}
	fmt.Printf("%s: %d obligations decided, %d undecided, %d violated; %d paths, %d queries, solver %.1fs, wall %.1fs\n", id, r.Oblig, len(r.Undecided), bad, paths, q, st, wall)
	for _, u := range r.Undecided {
		fmt.Println("  undecided:", u)
	}
	if bad > 0 {
		return 1
	}
	return 0
}

// goTest runs a test file laid over a package of the repository with the repository's own Go version.
// It reports the combined output.
func goTest(pkg string, files map[string]string, extraEnv []string, args ...string) (string, error) {
	d, err := os.MkdirTemp(work, "replay.")
	if err != nil {
		return "", err
	}
	ov := map[string]string{}
	for n, src := range files {
		f := filepath.Join(d, filepath.Base(n))
		if err := os.WriteFile(f, []byte(src), 0o644); err != nil {
			return "", err
		}
		if strings.HasSuffix(n, ".go") {
			ov[filepath.Join(repo, pkg, n)] = f
		}
	}
	b, _ := json.Marshal(map[string]any{"Replace": ov})
	of := filepath.Join(d, "overlay.json")
	os.WriteFile(of, b, 0o644)
	a := append([]string{"test", "-count=1", "-vet=off", "-run", "TestVerif", "-v", "-overlay", of}, args...)
	a = append(a, "./"+pkg)
	c := exec.Command(goBin, a...)
	c.Dir = repo
	c.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOTOOLCHAIN=local", "GOPROXY=off", "VERIF_DIR="+d, "USE_BIT_DECOMPOSITION_RANGE_CHECK=true")
	c.Env = append(c.Env, extraEnv...)
	t := time.AfterFunc(240*time.Second, func() { c.Process.Kill() })
	o, err := c.CombinedOutput()
	t.Stop()
	return string(o), err
}

func replayFile(f string) int {
	b, err := os.ReadFile(f)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var v struct {
		Property, What, Cmd string
		Files               map[string]string
	}
	json.Unmarshal(b, &v)
	if v.Cmd == "trusted_setup:stub" {
		bad, what := setupReplay(v.Files)
		fmt.Println(what)
		if bad {
			fmt.Printf("VIOLATION property=%s replay=%s\n", v.Property, f)
			return 1
		}
		return 0
	}
	o, _ := goTest(v.Cmd, v.Files, nil)
	fmt.Println(o)
	if strings.Contains(o, "VERIF-VIOLATED") {
		fmt.Printf("VIOLATION property=%s replay=%s\n", v.Property, f)
		return 1
	}
	return 0
}

// judge: a replay test prints VERIF-VIOLATED or VERIF-OK lines.
func judged(o string) (bool, string) {
	for _, l := range strings.Split(o, "\n") {
		if i := strings.Index(l, "VERIF-VIOLATED"); i >= 0 {
			return true, strings.TrimSpace(l[i+len("VERIF-VIOLATED"):])
		}
	}
	if strings.Contains(o, "VERIF-OK") {
		return false, "the real code behaves as specified"
	}
	if len(o) > 600 {
		o = o[len(o)-600:]
	}
	return false, "replay did not run: " + o
}

func testViolation(key, what, pkg string, inputs map[string]string, files map[string]string) *Violation {
	return &Violation{Key: key, What: what, Inputs: inputs, Files: files, Cmd: pkg, Replay: func() (bool, string) {
		o, _ := goTest(pkg, files, nil)
		return judged(o)
	}}
}

func showModel(m map[string]*big.Int) map[string]string {
	r := map[string]string{}
	for k, v := range m {
		r[k] = v.String()
	}
	return r
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
