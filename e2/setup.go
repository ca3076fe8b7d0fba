package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"verif/e2/sx"
)

func init() {
	checks["C24"] = check{"A trusted setup is saved only if every contribution chains", runSetup}
}

const (
	ignPkg = "github.com/consensys/gnark-ignition-verifier/ignition"
	kzgPkg = "github.com/consensys/gnark-crypto/ecc/bn254/kzg"
	g2Tag  = 777000001
	few    = 30
	many   = 64
)

// leaf is the first number inside a value.
func leaf(v sx.Value) *sx.Value {
	switch x := v.(type) {
	case sx.Struct:
		for _, c := range x {
			if t, ok := (*c).(*sx.Term); ok && t != nil {
				return c
			}
			if l := leaf(*c); l != nil {
				return l
			}
		}
	case sx.Array:
		for _, c := range x {
			if t, ok := (*c).(*sx.Term); ok && t != nil {
				return c
			}
			if l := leaf(*c); l != nil {
				return l
			}
		}
	}
	return nil
}

func tagOf(v sx.Value) int64 {
	l := leaf(v)
	if l == nil {
		return -1
	}
	n, ok := (*l).(*sx.Term).Int()
	if !ok {
		return -1
	}
	return n
}

func setTag(v sx.Value, n int64) {
	if l := leaf(v); l != nil {
		*l = sx.N(n)
	}
}

// the tag of point k of contribution i
func g1Tag(i, k int64) int64 { return 1000*(i+1) + k }
func g2OfTag(i, k int64) int64 {
	return 1000*(i+1) + 500 + k
}

type setupScenario struct {
	N       int
	Start   int
	Missing []int    // contributions that cannot be fetched
	Follows [][2]int // pairs that follow
	Points  int
	Bad     bool // the points of the contributions are not powers of one secret
}

func runSetup(r *Report) *sx.Engine {
	maxN := int64(6)
	if thorough() {
		maxN = 12
	}
	r.Bounds = fmt.Sprintf("0 to %d participants, every start index from -1 to the number of participants, 30 or 64 points per contribution, every pattern of failing downloads, of contributions that do not follow, and of failing directory creation, commitments, openings, proof checks, file creation and writing", maxN)
	r.Assume = []string{"the ignition package fetches a contribution or reports an error, and its Follows compares the first point and the second G2 point of a contribution with the first point of another one",
		"gnark-crypto's kzg and bn254 packages are replaced by arbitrary answers; log.Fatal ends the process"}
	e, err := load("./trusted_setup")
	if err != nil {
		r.undecided("loading: " + err.Error())
		return nil
	}
	e.MaxPaths = 4000
	fn := e.Func("trusted_setup", "DownloadAndSaveAztecIgnitionSrs")
	ip := e.Pkgs[ignPkg]
	if fn == nil || ip == nil || e.Pkgs[kzgPkg] == nil {
		r.undecided("no function DownloadAndSaveAztecIgnitionSrs, or it no longer uses the ignition and kzg packages")
		return e
	}
	r.Entries = []string{fn.String()}
	e.Interp = append(e.Interp, ignPkg)
	part := ip.Type("Participant").Type()
	man := ip.Type("Manifest").Type()
	con := ip.Type("Contribution").Type()
	bool0 := func(p *sx.Path, n string) bool { return p.Branch(sx.BoolVar(n)) }
	fail := func(p *sx.Path, n string) sx.Value {
		if bool0(p, n) {
			return p.Err(n)
		}
		return sx.NoErr
	}
	nPart := sx.Var("participants", sx.BI(0), sx.BI(maxN))
	e.Intr[ignPkg+".NewManifest"] = func(p *sx.Path, c *sx.Call) sx.Value {
		m := p.Zero(man)
		if bool0(p, "no manifest") {
			return sx.Tuple{m, p.Err("no manifest")}
		}
		n := p.Concrete(nPart)
		var ps []sx.Value
		for i := int64(0); i < n; i++ {
			x := p.Zero(part)
			setField(x, part, "Position", sx.N(i))
			setField(x, part, "Address", sx.Lit(fmt.Sprintf("0x%d", i)))
			ps = append(ps, x)
		}
		setField(m, man, "Participants", sx.MkSlice(ps))
		k := int64(many)
		if bool0(p, "few points") {
			k = few
		}
		p.User["points"] = k
		setField(m, man, "NumG1Points", sx.N(k))
		return sx.Tuple{m, sx.NoErr}
	}
	e.Intr["(*"+ignPkg+".Contribution).Get"] = func(p *sx.Path, c *sx.Call) sx.Value {
		pos, _, ok := p.Field(c.Args[1], part, "Position")
		t, ok2 := pos.(*sx.Term)
		if !ok || !ok2 {
			p.Abort("participant")
		}
		i := p.Concrete(t)
		bad := bool0(p, fmt.Sprintf("fetch %d fails", i))
		g1, _, _ := p.Field(c.Args[0], types.NewPointer(con), "G1")
		g2, _, _ := p.Field(c.Args[0], types.NewPointer(con), "G2")
		s, ok := g1.(sx.Slice)
		if !ok {
			p.Abort("G1")
		}
		n, _ := s.Len().Int()
		for k := 0; k < int(n); k++ {
			setTag(*s.At(k), g1Tag(i, int64(k))) // an error may come late, after plausible data
		}
		for k, x := range g2.(sx.Array) {
			setTag(*x, g2OfTag(i, int64(k)))
		}
		if bad {
			return p.Err("fetch")
		}
		p.User[fmt.Sprintf("got %d", i)] = true
		return sx.NoErr
	}
	first := func(p *sx.Path, v sx.Value) int64 {
		g1, _, _ := p.Field(v, types.NewPointer(con), "G1")
		s, ok := g1.(sx.Slice)
		if !ok {
			p.Abort("G1")
		}
		if n, _ := s.Len().Int(); n == 0 {
			p.Panic("index out of range")
		}
		return tagOf(*s.At(0))
	}
	e.Intr["(*"+ignPkg+".Contribution).Follows"] = func(p *sx.Path, c *sx.Call) sx.Value {
		g2, _, _ := p.Field(c.Args[0], types.NewPointer(con), "G2")
		a, b, d := first(p, c.Args[0]), tagOf(*g2.(sx.Array)[1]), first(p, c.Args[1])
		i, j := a/1000-1, d/1000-1
		if a%1000 == 0 && b == g2OfTag(i, 1) && d%1000 == 0 && i >= 0 && j >= 0 {
			p.User[fmt.Sprintf("follows %d %d", i, j)] = true
			return sx.BoolVar(fmt.Sprintf("follows %d %d", i, j))
		}
		return sx.BoolVar(fmt.Sprintf("mixed follows %d %d %d", a, b, d))
	}
	e.Intr["(*github.com/consensys/gnark-crypto/ecc/bn254/fr.Element).SetRandom"] = func(p *sx.Path, c *sx.Call) sx.Value {
		if q, ok := c.Args[0].(*sx.Value); ok {
			if l := leaf(*q); l != nil {
				*l = p.Havoc(types.Typ[types.Uint64], "random")
			}
		}
		return sx.Tuple{c.Args[0], sx.NoErr}
	}
	e.Intr["github.com/consensys/gnark-crypto/ecc/bn254.Generators"] = func(p *sx.Path, c *sx.Call) sx.Value {
		var r sx.Tuple
		t := c.Res.(*types.Tuple)
		for i := 0; i < t.Len(); i++ {
			x := p.Zero(t.At(i).Type())
			setTag(x, g2Tag-3+int64(i))
			r = append(r, x)
		}
		return r
	}
	// what identifies a proving key
	pkOf := func(p *sx.Path, v sx.Value, t types.Type) string {
		g1, _, ok := p.Field(v, t, "G1")
		s, ok2 := g1.(sx.Slice)
		if !ok || !ok2 {
			return "?"
		}
		n, _ := s.Len().Int()
		o := ""
		for k := 0; k < int(n); k++ {
			o += fmt.Sprint(tagOf(*s.At(k)), " ")
		}
		return o
	}
	vkOf := func(p *sx.Path, v sx.Value, t types.Type) string {
		g1, _, ok := p.Field(v, t, "G1")
		g2, _, ok2 := p.Field(v, t, "G2")
		a, ok3 := g2.(sx.Array)
		if !ok || !ok2 || !ok3 {
			return "?"
		}
		o := fmt.Sprint(tagOf(g1))
		for _, x := range a {
			o += fmt.Sprint(" ", tagOf(*x))
		}
		return o
	}
	kp := e.Pkgs[kzgPkg]
	pkT, vkT, srsT := kp.Type("ProvingKey").Type(), kp.Type("VerifyingKey").Type(), kp.Type("SRS").Type()
	record := func(what string, f, pk int) func(p *sx.Path, c *sx.Call) sx.Value {
		return func(p *sx.Path, c *sx.Call) sx.Value {
			var out sx.Tuple
			tt := c.Res.(*types.Tuple)
			x := p.Havoc(tt.At(0).Type(), what)
			n := 0
			if s, ok := c.Args[f].(sx.Slice); ok {
				for k, v := range p.Elems(s) {
					if l := leaf(v); l != nil && k > 0 && !(*l).(*sx.Term).IsConst() {
						n++
					}
				}
			}
			if n >= 2 {
				cnt, _ := p.User["kzg"].(int64)
				cnt++
				p.User["kzg"] = cnt
				p.User[fmt.Sprintf("kzg %d", 888000000+cnt)] = what + " " + pkOf(p, c.Args[pk], pkT)
				if what == "commit" {
					setTag(x, 888000000+cnt)
				} else if h, _, ok := p.Field(x, tt.At(0).Type(), "H"); ok {
					setTag(h, 888000000+cnt)
				}
			}
			out = append(out, x)
			if p.User["points"] == int64(few) && bool0(p, "the points are too few") { // both Commit and Open fail then
				return append(out, p.Err(what))
			}
			return append(out, sx.NoErr)
		}
	}
	e.Intr[kzgPkg+".Commit"] = record("commit", 0, 1)
	e.Intr[kzgPkg+".Open"] = record("open", 0, 2)
	e.Intr[kzgPkg+".Verify"] = func(p *sx.Path, c *sx.Call) sx.Value {
		d, _ := c.Args[0].(*sx.Value)
		pr, _ := c.Args[1].(*sx.Value)
		if d == nil || pr == nil {
			return fail(p, "other proof check fails")
		}
		h, _, _ := p.Field(*pr, c.Fn.Signature.Params().At(1).Type().Underlying().(*types.Pointer).Elem(), "H")
		a, _ := p.User[fmt.Sprintf("kzg %d", tagOf(*d))].(string)
		b, _ := p.User[fmt.Sprintf("kzg %d", tagOf(h))].(string)
		a, ok1 := strings.CutPrefix(a, "commit ")
		b, ok2 := strings.CutPrefix(b, "open ")
		if !ok1 || !ok2 || a != b {
			return fail(p, "other proof check fails")
		}
		if bool0(p, "the points are inconsistent") {
			return p.Err("proof")
		}
		p.User["sane "+a+"/"+vkOf(p, c.Args[3], vkT)] = true
		return sx.NoErr
	}
	write := func(p *sx.Path, c *sx.Call) sx.Value {
		if _, ok := p.User["written"]; !ok {
			q, _ := c.Args[0].(*sx.Value)
			if q == nil {
				p.Panic("nil SRS")
			}
			pk, _, _ := p.Field(*q, srsT, "Pk")
			vk, _, _ := p.Field(*q, srsT, "Vk")
			p.User["pk"], p.User["vk"] = pkOf(p, pk, pkT), vkOf(p, vk, vkT)
			done := map[string]bool{}
			for k := range p.User {
				done[k] = true
			}
			p.User["written"] = done
		}
		return sx.Tuple{sx.N(0), fail(p, "writing fails")}
	}
	for _, n := range []string{"WriteTo", "WriteRawTo", "WriteDump"} {
		e.Intr["(*"+kzgPkg+".SRS)."+n] = write
	}
	e.Intr["os.MkdirAll"] = func(p *sx.Path, c *sx.Call) sx.Value { return fail(p, "creating a directory fails") }
	e.Intr["os.Mkdir"] = e.Intr["os.MkdirAll"]
	create := func(p *sx.Path, c *sx.Call) sx.Value {
		x := p.Zero(c.Res.(*types.Tuple).At(0).Type())
		if bool0(p, "creating a file fails") {
			return sx.Tuple{x, p.Err("create")}
		}
		n := "?"
		if t, ok := c.Args[0].(sx.Str); ok {
			n, _ = t.Concrete()
		}
		if w, ok := p.User["file"].(string); !ok || w == "srs.bin" { // any other file counts
			p.User["file"] = n
		}
		return sx.Tuple{p.Opaque(c.Res.(*types.Tuple).At(0).Type(), "file"), sx.NoErr}
	}
	e.Intr["os.Create"], e.Intr["os.OpenFile"] = create, create
	start := sx.Var("start", sx.BI(-1), sx.BI(maxN))
	// nothing went wrong from start on
	good := func(n, s int64) *sx.Term {
		g := []*sx.Term{sx.Eq(nPart, sx.N(n)), sx.Eq(start, sx.N(s))}
		for _, v := range []string{"no manifest", "few points", "the points are too few", "the points are inconsistent", "other proof check fails", "creating a directory fails",
			"creating a file fails", "writing fails"} {
			g = append(g, sx.Not(sx.BoolVar(v)))
		}
		for i := int64(0); i < n; i++ {
			g = append(g, sx.Not(sx.BoolVar(fmt.Sprintf("fetch %d fails", i))))
			if i > 0 {
				g = append(g, sx.BoolVar(fmt.Sprintf("follows %d %d", i, i-1)))
			}
		}
		return sx.And(g...)
	}
	saved := map[[2]int64]bool{}
	honest := 0
	unsaved := func(n, s int64, why string) {
		if honest++; honest > 3 {
			return
		}
		sc := setupScenario{N: int(n), Start: int(s), Points: many}
		for i := 1; i < int(n); i++ {
			sc.Follows = append(sc.Follows, [2]int{i, i - 1})
		}
		b, _ := json.Marshal(sc)
		files := map[string]string{"verif_setup_test.go": setupTest, "scenario.json": string(b)}
		r.violate(&Violation{Group: "honest", Key: fmt.Sprint("honest", honest), What: why, Inputs: map[string]string{"ceremony": string(b)}, Files: files, Cmd: "trusted_setup:stub", Replay: func() (bool, string) {
			return setupReplay(files)
		}})
	}
	written, paths, ok := 0, 0, true
	replayed := 0
	e.Explore(nil, func(p *sx.Path) sx.Value {
		p.Init(e.Pkgs[e.Module+"/trusted_setup"])
		return p.Call(fn, start, sx.Lit("srs.bin"))
	}, func(o sx.Outcome) bool {
		paths++
		p := o.P
		if o.Kind == "abort" {
			ok = false
			r.undecided("path: " + o.Msg)
			return true
		}
		done, is := p.User["written"].(map[string]bool)
		if !is {
			r.Oblig++
			if sx.Known(p.PC, func(n string) bool { return !strings.Contains(n, "!") && !strings.HasPrefix(n, "mixed") }) {
				for n := int64(2); n <= maxN; n++ {
					for s := int64(0); s <= n-2; s++ {
						if sx.And(append([]*sx.Term{good(n, s)}, p.PC...)...) == sx.False {
							continue
						}
						if res, _ := e.S.Check(append(append([]*sx.Term{}, p.PC...), good(n, s)), false); res == "sat" {
							ok = false
							unsaved(n, s, "nothing is saved although every contribution chains: "+o.Kind+" "+o.Msg)
							return true
						}
					}
				}
			}
			return true
		}
		written++
		// the number of participants and the start are concrete on a path that wrote something, up to equivalence
		res, m := e.S.Check(p.PC, true)
		if res != "sat" {
			ok = false
			r.undecided("a path that writes: " + res)
			return true
		}
		n, s := m["participants"].Int64(), m["start"].Int64()
		here := append(append([]*sx.Term{}, p.PC...), sx.Eq(nPart, sx.N(n)), sx.Eq(start, sx.N(s)))
		if rr, _ := e.S.Check(append(append([]*sx.Term{}, p.PC...), sx.Not(sx.And(sx.Eq(nPart, sx.N(n)), sx.Eq(start, sx.N(s))))), false); rr != "unsat" {
			ok = false
			r.undecided("the range of contributions is not determined on a path that writes")
			return true
		}
		if o.Kind == "return" && !saved[[2]int64{n, s}] {
			res, _ := e.S.Check(append(append([]*sx.Term{}, here...), good(n, s)), false)
			saved[[2]int64{n, s}] = res == "sat"
		}
		type req struct {
			what string
			bad  *sx.Term // nil: violated outright
			link [2]int64
			kind string
		}
		var reqs []req
		last := n - 1
		pk, vk := p.User["pk"].(string), p.User["vk"].(string)
		wantPk := ""
		for k := int64(0); k < p.User["points"].(int64); k++ {
			wantPk += fmt.Sprint(g1Tag(last, k), " ")
		}
		wantVk := fmt.Sprint(g1Tag(last, 0), " ", g2Tag, " ", g2OfTag(last, 0))
		if pk != wantPk || vk != wantVk {
			reqs = append(reqs, req{what: "the string written is not built from the last contribution", kind: "source"})
		}
		for i := s; i <= last && s >= 0; i++ {
			if !done[fmt.Sprintf("got %d", i)] {
				reqs = append(reqs, req{what: fmt.Sprintf("contribution %d was never fetched (or its fetch failed)", i), kind: "fetch", link: [2]int64{i, i}})
			}
			if i == s {
				continue
			}
			nm := fmt.Sprintf("follows %d %d", i, i-1)
			if !done[nm] {
				reqs = append(reqs, req{what: fmt.Sprintf("contribution %d was never checked to follow contribution %d", i, i-1), kind: "link", link: [2]int64{i, i - 1}})
			} else {
				reqs = append(reqs, req{what: fmt.Sprintf("contribution %d does not follow contribution %d", i, i-1), bad: sx.Not(sx.BoolVar(nm)), kind: "link", link: [2]int64{i, i - 1}})
			}
		}
		if w, ok := p.User["file"].(string); ok && w != "srs.bin" {
			reqs = append(reqs, req{what: "another file was named: " + w, kind: "name"})
		}
		if !done["sane "+pk+"/"+vk] {
			reqs = append(reqs, req{what: "the commitment sanity check was not passed with the string that is written", kind: "sanity"})
		}
		for _, q := range reqs {
			conds := here
			if q.bad != nil {
				res, _ := e.S.Check(append(append([]*sx.Term{}, here...), q.bad), false)
				if res == "unsat" {
					r.Oblig++
					continue
				}
				conds = append(append([]*sx.Term{}, here...), q.bad)
			}
			res, m := e.S.Check(conds, true)
			if res == "unsat" {
				r.Oblig++
				continue
			}
			ok = false
			if res != "sat" {
				r.undecided("no answer whether " + q.what)
				continue
			}
			if replayed++; replayed > 8 {
				continue
			}
			// a concrete ceremony: pairs follow as the model says, neighbours by default, the questioned link does not
			for variant := 0; variant < 3; variant++ {
				sc := setupScenario{N: int(n), Start: int(s), Points: int(p.User["points"].(int64))}
				for i := int64(0); i < n; i++ {
					if v := m[fmt.Sprintf("fetch %d fails", i)]; v != nil && v.Sign() != 0 || q.kind == "fetch" && q.link[0] == i {
						sc.Missing = append(sc.Missing, int(i))
					}
					for j := int64(0); j < n; j++ {
						v := m[fmt.Sprintf("follows %d %d", i, j)]
						yes := j == i-1
						if v != nil {
							yes = v.Sign() != 0
						}
						if q.kind == "link" && q.link == [2]int64{i, j} {
							yes = false
						}
						if yes {
							sc.Follows = append(sc.Follows, [2]int{int(i), int(j)})
						}
					}
				}
				yes := func(n string) bool { v := m[n]; return v != nil && v.Sign() != 0 }
				sc.Bad = yes("the points are inconsistent")
				if q.kind == "sanity" {
					switch variant {
					case 0:
						sc.Bad = true
					case 1:
						sc.Points = few
					}
				} else if variant == 0 {
					sc.Points = many
				} else if variant > 1 || sc.Points == many {
					break
				}
				what, kind := q.what, q.kind
				b, _ := json.Marshal(sc)
				key := fmt.Sprint(kind, variant, replayed, kind)
				files := map[string]string{"verif_setup_test.go": setupTest, "scenario.json": string(b)}
				in := map[string]string{"ceremony": string(b)}
				r.violate(&Violation{Group: kind, Key: key, What: "the string is written although " + what, Inputs: in, Files: files, Cmd: "trusted_setup:stub", Replay: func() (bool, string) {
					return setupReplay(files)
				}})
			}
		}
		return true
	})
	for n := int64(2); n <= maxN; n++ {
		for s := int64(0); s <= n-2; s++ {
			if saved[[2]int64{n, s}] {
				r.Oblig++
				continue
			}
			ok = false
			if len(saved) > 0 || written > 0 || paths > 0 {
				unsaved(n, s, fmt.Sprintf("nothing is saved although all of the %d contributions chain from %d on", n, s))
			}
		}
	}
	if written == 0 {
		ok = false
		r.undecided("no path writes a string: nothing was decided")
	}
	r.row("every ceremony", "paths", paths, "paths that write", written, "decided", ok)
	return e
}

// setupReplay runs the real function with the ignition package replaced by one that plays a scripted ceremony.
func setupReplay(files map[string]string) (bool, string) {
	d, err := os.MkdirTemp(work, "setup.")
	if err != nil {
		return false, err.Error()
	}
	stub := filepath.Join(d, "stub")
	os.MkdirAll(filepath.Join(stub, "ignition"), 0o755)
	mod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return false, err.Error()
	}
	sum, _ := os.ReadFile(filepath.Join(repo, "go.sum"))
	os.WriteFile(filepath.Join(d, "go.mod"), append(mod, []byte("\nreplace github.com/consensys/gnark-ignition-verifier => "+stub+"\n")...), 0o644)
	os.WriteFile(filepath.Join(d, "go.sum"), sum, 0o644)
	ver := ""
	for _, l := range strings.Split(string(mod), "\n") {
		if f := strings.Fields(strings.TrimPrefix(strings.TrimSpace(l), "require ")); len(f) >= 2 && f[0] == "github.com/consensys/gnark-crypto" {
			ver = f[1]
		}
	}
	os.WriteFile(filepath.Join(stub, "go.mod"), []byte("module github.com/consensys/gnark-ignition-verifier\n\ngo 1.20\n\nrequire github.com/consensys/gnark-crypto "+ver+"\n"), 0o644)
	os.WriteFile(filepath.Join(stub, "ignition", "ignition.go"), []byte(stubIgnition), 0o644)
	ov := map[string]string{}
	for n, src := range files {
		f := filepath.Join(d, n)
		os.WriteFile(f, []byte(src), 0o644)
		if strings.HasSuffix(n, ".go") {
			ov[filepath.Join(repo, "trusted_setup", n)] = f
		}
	}
	b, _ := json.Marshal(map[string]any{"Replace": ov})
	os.WriteFile(filepath.Join(d, "overlay.json"), b, 0o644)
	run := filepath.Join(d, "run")
	os.MkdirAll(run, 0o755)
	c := exec.Command(goBin, "test", "-count=1", "-vet=off", "-v", "-run", "TestVerifSetup", "-modfile", filepath.Join(d, "go.mod"), "-overlay", filepath.Join(d, "overlay.json"), "./trusted_setup")
	c.Dir = repo
	c.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOTOOLCHAIN=local", "GOPROXY=off", "VERIF_DIR="+d, "VERIF_RUN="+run)
	t := time.AfterFunc(240*time.Second, func() { c.Process.Kill() })
	o, _ := c.CombinedOutput()
	t.Stop()
	return judged(string(o))
}

// stubIgnition plays the ceremony described in scenario.json.
const stubIgnition = `package ignition

import (
	"encoding/json"
	"errors"
	"math/big"
	"os"

	"github.com/consensys/gnark-crypto/ecc/bn254"
)

type Config struct{ BaseURL, Ceremony, CacheDir string }

type Manifest struct {
	NumG1Points  int
	Participants []Participant
}

type Participant struct {
	Address  string
	Position int
}

type Scenario struct {
	N, Start int
	Missing  []int
	Follows  [][2]int
	Points   int
	Bad      bool
}

func Plan() (s Scenario) {
	b, err := os.ReadFile(os.Getenv("VERIF_DIR") + "/scenario.json")
	if err == nil {
		err = json.Unmarshal(b, &s)
	}
	if err != nil {
		panic(err)
	}
	return
}

func NewManifest(config Config) (Manifest, error) {
	s := Plan()
	m := Manifest{NumG1Points: s.Points}
	for i := 0; i < s.N; i++ {
		m.Participants = append(m.Participants, Participant{Position: i})
	}
	return m, nil
}

type Contribution struct {
	G1 []bn254.G1Affine
	G2 [2]bn254.G2Affine
}

func NewContribution(n int) Contribution { return Contribution{G1: make([]bn254.G1Affine, n)} }

// Of is contribution i: powers of the secret 1000003+i, and the secret and the contribution number in G2.
func Of(i, n int, bad bool) Contribution {
	c := NewContribution(n)
	c.fill(i, bad)
	return c
}

func (c *Contribution) fill(i int, bad bool) {
	_, _, g1, g2 := bn254.Generators()
	t := big.NewInt(int64(1000003 + i))
	x := new(big.Int).Set(t)
	for k := range c.G1 {
		y := x
		if bad && k > 0 {
			y = new(big.Int).Add(x, big.NewInt(int64(k)))
		}
		c.G1[k].ScalarMultiplication(&g1, y)
		x = new(big.Int).Mul(x, t)
	}
	c.G2[0].ScalarMultiplication(&g2, t)
	c.G2[1].ScalarMultiplication(&g2, big.NewInt(int64(7000+i)))
}

func (c *Contribution) Get(p Participant, config Config) error {
	s := Plan()
	for _, i := range s.Missing {
		if i == p.Position {
			c.fill(p.Position, s.Bad)
			return errors.New("cannot fetch")
		}
	}
	c.fill(p.Position, s.Bad)
	return nil
}

func who(p bn254.G1Affine) int {
	_, _, g1, _ := bn254.Generators()
	for i := 0; i < 100; i++ {
		var q bn254.G1Affine
		if q.ScalarMultiplication(&g1, big.NewInt(int64(1000003+i))).Equal(&p) {
			return i
		}
	}
	return -1
}

func (c *Contribution) Follows(q *Contribution) bool {
	i, j := who(c.G1[0]), who(q.G1[0])
	for _, f := range Plan().Follows {
		if f == [2]int{i, j} {
			return true
		}
	}
	return false
}

func (c *Contribution) IsValid() bool { return !Plan().Bad }
`

const setupTest = `package trusted_setup

import (
	"fmt"
	"os"
	"os/exec"
	"testing"

	"github.com/consensys/gnark-crypto/ecc/bn254"
	kzg "github.com/consensys/gnark-crypto/ecc/bn254/kzg"
	"github.com/consensys/gnark-ignition-verifier/ignition"
)

func TestVerifSetup(t *testing.T) {
	run := os.Getenv("VERIF_RUN")
	if err := os.Chdir(run); err != nil {
		t.Fatal(err)
	}
	s := ignition.Plan()
	if os.Getenv("VERIF_CHILD") != "" {
		DownloadAndSaveAztecIgnitionSrs(s.Start, run+"/srs.bin")
		return
	}
	os.Remove(run + "/srs.bin")
	c := exec.Command(os.Args[0], "-test.run", "TestVerifSetup")
	c.Env = append(os.Environ(), "VERIF_CHILD=1")
	o, err := c.CombinedOutput()
	good := !s.Bad && s.Points >= 60 && s.Start >= 0 && s.Start <= s.N-2
	for i := s.Start; i < s.N; i++ {
		follows := i == s.Start
		for _, p := range s.Follows {
			follows = follows || p == [2]int{i, i - 1}
		}
		good = good && follows
		for _, m := range s.Missing {
			good = good && m != i
		}
	}
	f, ferr := os.Open(run + "/srs.bin")
	if ferr == nil {
		defer f.Close()
	}
	empty := ferr != nil
	if st, e := os.Stat(run + "/srs.bin"); e != nil || st.Size() == 0 {
		empty = true
	}
	if empty && good {
		fmt.Println("VERIF-VIOLATED nothing was saved although every contribution chains:", err, string(o))
		return
	}
	if empty {
		fmt.Println("VERIF-OK nothing saved", err, len(o))
		return
	}
	// something was saved: was it right to?
	for i := s.Start; i < s.N; i++ {
		for _, m := range s.Missing {
			if m == i {
				fmt.Println("VERIF-VIOLATED saved although contribution", i, "could not be fetched")
				return
			}
		}
		follows := i == s.Start
		for _, p := range s.Follows {
			follows = follows || p == [2]int{i, i - 1}
		}
		if !follows {
			fmt.Println("VERIF-VIOLATED saved although contribution", i, "does not follow", i-1)
			return
		}
	}
	if s.Bad || s.Points < 60 {
		fmt.Println("VERIF-VIOLATED saved although the sanity check has to fail")
		return
	}
	var srs kzg.SRS
	if _, err := srs.ReadFrom(f); err != nil {
		fmt.Println("VERIF-VIOLATED what was saved cannot be read:", err)
		return
	}
	_, _, _, g2 := bn254.Generators()
	want := ignition.Of(s.N-1, s.Points, false)
	ok := len(srs.Pk.G1) == len(want.G1) && srs.Vk.G1.Equal(&want.G1[0]) && srs.Vk.G2[0].Equal(&g2) && srs.Vk.G2[1].Equal(&want.G2[0])
	for k := range want.G1 {
		ok = ok && srs.Pk.G1[k].Equal(&want.G1[k])
	}
	if !ok {
		fmt.Println("VERIF-VIOLATED what was saved is not the last contribution")
		return
	}
	fmt.Println("VERIF-OK")
}
`
