package main

import (
	"bytes"
	"context"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// The check of one property: every unit of the property and, transitively, every contract the
// units rely on is verified against the current tree; units run in parallel processes.

type task struct {
	unit string
	full bool
}

func (t task) key() string { return fmt.Sprintf("%s|%v", t.unit, t.full) }

// Hint remembers which candidate invariants a unit needs; it only saves time: whatever is
// listed is still proved on every run, and a failed unit is tried again without it.
type Hint struct {
	Kept []string `json:"kept"`
	Wall float64  `json:"wall_s"`
	// how the slower obligations were discharged: tried first the next time
	How map[string]string `json:"how,omitempty"`
}

var hintDir string

func hintFile(unit string, full bool) string {
	s := "light"
	if full {
		s = "full"
	}
	return filepath.Join(hintDir, unit+"."+s+".json")
}

func loadHint(unit string, full bool) *Hint {
	b, err := os.ReadFile(hintFile(unit, full))
	if err != nil {
		return nil
	}
	h := &Hint{}
	if json.Unmarshal(b, h) != nil {
		return nil
	}
	return h
}

// slot limits the number of solver processes over all worker processes.
func slot() func() {
	dir := os.Getenv("GOVER_SLOTS")
	if dir == "" {
		sem <- struct{}{}
		return func() { <-sem }
	}
	n := 9
	for i := os.Getpid(); ; i++ {
		f, err := os.OpenFile(filepath.Join(dir, "slot"+strconv.Itoa(i%n)), os.O_CREATE|os.O_RDWR, 0o644)
		if err == nil {
			if syscall.Flock(int(f.Fd()), syscall.LOCK_EX|syscall.LOCK_NB) == nil {
				return func() { f.Close() }
			}
			f.Close()
		}
		if (i-os.Getpid())%n == n-1 {
			time.Sleep(8 * time.Millisecond)
		}
	}
}

func runUnitProcess(ctx context.Context, t task, repo, proofs, tier, slots string) *UnitResult {
	args := []string{"-repo", repo, "-proofs", proofs, "-tier", tier, "-hints", hintDir}
	if !t.full {
		args = append(args, "-light")
	}
	args = append(args, "one", t.unit)
	cmd := exec.CommandContext(ctx, os.Args[0], args...)
	cmd.Env = append(os.Environ(), "GOVER_SLOTS="+slots, "GOMEMLIMIT=6GiB", "GOMAXPROCS=4")
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	var out, errb bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &errb
	err := cmd.Run()
	r := &UnitResult{}
	b := out.Bytes()
	if i := bytes.LastIndex(b, []byte("\nRESULT ")); i >= 0 && json.Unmarshal(b[i+8:], r) == nil {
		return r
	}
	msg := "verifier process failed"
	if ctx.Err() != nil {
		msg = "not decided within the time of the check"
	} else if err != nil {
		msg += ": " + err.Error() + " " + tail(errb.String(), 800)
	}
	return &UnitResult{Unit: t.unit, Status: "undecided", Msg: msg}
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

type knownFinding struct {
	Property   string `json:"property"`
	Unit       string `json:"unit"`
	Obligation string `json:"obligation"`
	What       string `json:"what"`
	Fixed      string `json:"fixed,omitempty"`
}

func runTasks(e *Engine, start []task, repo, proofs, tier string, deadline time.Time, progress bool) map[string]*UnitResult {
	slots, _ := os.MkdirTemp("", "gover-slots")
	defer os.RemoveAll(slots)
	ctx, cancel := context.WithDeadline(context.Background(), deadline)
	defer cancel()
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	results := map[string]*UnitResult{}
	seen := map[string]bool{}
	var queue []task
	running := 0
	wall := func(t task) float64 {
		if h := loadHint(t.unit, t.full); h != nil {
			return h.Wall
		}
		return 20
	}
	push := func(t task) {
		if seen[t.key()] || (!t.full && seen[task{t.unit, true}.key()]) {
			return
		}
		seen[t.key()] = true
		queue = append(queue, t)
		sort.SliceStable(queue, func(i, j int) bool { return wall(queue[i]) > wall(queue[j]) })
	}
	for _, t := range start {
		push(t)
	}
	var wg sync.WaitGroup
	for w := 0; w < 7; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			mu.Lock()
			defer mu.Unlock()
			for {
				for len(queue) == 0 && running > 0 {
					cond.Wait()
				}
				if len(queue) == 0 {
					return
				}
				t := queue[0]
				queue = queue[1:]
				running++
				mu.Unlock()
				r := runUnitProcess(ctx, t, repo, proofs, tier, slots)
				mu.Lock()
				running--
				results[t.key()] = r
				if progress {
					fmt.Printf("  %-62s full=%-5v %-11s obl %d/%d solver %.1fs wall %.1fs %s\n", r.Unit, t.full, r.Status, r.Discharged, r.Obligations, r.SolverS, r.WallS, r.Msg)
				}
				u := e.units[t.unit]
				for _, us := range r.Used {
					push(task{us, u != nil && u.full && t.full})
				}
				cond.Broadcast()
			}
		}()
	}
	wg.Wait()
	// a unit that misses a few obligations is tried again with nothing else running: solvers work against time limits
	var ks []string
	for k, r := range results {
		if n := r.Obligations - r.Discharged; r.Status == "failed" && n > 0 && n <= 3 {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for i, k := range ks {
		if i == 3 || time.Until(deadline) < 200*time.Second {
			break
		}
		unit, full, _ := strings.Cut(k, "|")
		c, cancel := context.WithTimeout(ctx, 150*time.Second)
		r := runUnitProcess(c, task{unit, full == "true"}, repo, proofs, tier, slots)
		cancel()
		if progress {
			fmt.Printf("  %-62s again      %-11s obl %d/%d solver %.1fs wall %.1fs\n", unit, r.Status, r.Discharged, r.Obligations, r.SolverS, r.WallS)
		}
		if r.Status == "proved" {
			results[k] = r
		}
	}
	return results
}

func unitsOf(e *Engine, prop, tier string) []task {
	var out []task
	for _, n := range e.unitOrder {
		u := e.units[n]
		for _, p := range u.props {
			if p == prop && (!u.thorough || tier == "thorough") {
				out = append(out, task{n, true})
			}
		}
	}
	return out
}

func checkProperty(e *Engine, prop, tier, repo, proofs, verif string) int {
	t0 := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	limit := 640 * time.Second
	if tier == "thorough" {
		limit = 4 * time.Hour
	}
	start := unitsOf(e, prop, tier)
	if len(start) == 0 {
		fmt.Println("no units for property", prop)
		return 2
	}
	results := runTasks(e, start, repo, proofs, tier, t0.Add(limit), true)
	keys := make([]string, 0, len(results))
	for k := range results {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var known []knownFinding
	if b, err := os.ReadFile(filepath.Join(verif, "known-findings.json")); err == nil {
		if err := json.Unmarshal(b, &known); err != nil {
			fmt.Println("known-findings.json:", err)
			return 2
		}
	}
	isKnown := func(unit string, f FailedObl) *knownFinding {
		for i, k := range known {
			if k.Fixed == "" && k.Property == prop && k.Unit == unit && k.Obligation == f.Name {
				return &known[i]
			}
		}
		return nil
	}
	var bad []*UnitResult
	obl, dis := 0, 0
	var solver float64
	backends := map[string]int{}
	trusted := map[string]bool{}
	under := map[string]bool{}
	inlined := map[string]bool{}
	bounded := map[string]string{}
	var table []map[string]any
	reported := map[string]bool{}
	for _, k := range keys {
		r := results[k]
		obl += r.Obligations
		dis += r.Discharged
		solver += r.SolverS
		for b, n := range r.Backends {
			backends[b] += n
		}
		for _, x := range r.Trusted {
			if !strings.Contains(x, "internal/vf.") {
				trusted[x] = true
			}
		}
		for _, x := range r.Inlined {
			if !strings.Contains(x, ".VF") {
				inlined[x] = true
			}
		}
		if r.Target != "" {
			under[r.Target] = true
		}
		if r.Bounded != "" {
			bounded[r.Unit] = r.Bounded
		}
		row := map[string]any{"unit": r.Unit, "kind": r.Kind, "status": r.Status, "obligations": r.Obligations, "discharged": r.Discharged, "loops": r.Loops,
			"inferred_invariants": r.Kept, "solver_s": round1(r.SolverS), "wall_s": round1(r.WallS), "end_reachable": r.Covers, "contracts_used": r.Used}
		if strings.HasSuffix(k, "|false") {
			row["mode"] = "postconditions relied upon only"
		}
		if r.Bounded != "" {
			row["bounded"] = r.Bounded
		}
		table = append(table, row)
		if r.Status == "proved" {
			continue
		}
		if r.Status == "failed" {
			var rest []FailedObl
			for _, f := range r.Failed {
				if kf := isKnown(r.Unit, f); kf != nil {
					if !reported[kf.What] {
						reported[kf.What] = true
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, kf.What)
					}
					continue
				}
				rest = append(rest, f)
			}
			if len(rest) == 0 {
				continue
			}
			r.Failed = rest
		}
		bad = append(bad, r)
	}
	viol := 0
	if len(bad) > 0 {
		viol = reportViolations(e, bad, prop, tier, repo, proofs, verif, int64(seed), t0)
	}
	assumptions := []string{
		"no slice or string has 2^40 elements or more",
		"package-level tables that are never assigned in the source are not modified through aliases, and arguments do not alias them",
		"floating-point operations are uninterpreted; unsafe, reflection and goroutines are outside the verified subset (their use makes a unit unsupported, which is reported)",
		"error values of other packages are non-nil; the text of error messages is not modelled",
		"the Go compiler and runtime implement the language specification; golang.org/x/tools/go/ssa translates it faithfully",
		"termination is shown for every loop of a unit, stack depth and memory exhaustion are not modelled (allocations above 2^44 elements are obligations)",
	}
	tb := []string{"gover (symbolic execution of go/ssa into SMT, /verif/gover)", "golang.org/x/tools/go/ssa v0.52.0", "z3 (z3-new, z3 4.8.12)", "cvc5 1.1.2"}
	for x := range trusted {
		tb = append(tb, "model of "+x)
	}
	sort.Strings(tb[4:])
	level := "proof"
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": level,
		"coverage": map[string]any{
			"obligations": obl, "discharged": dis,
			"checker_cmd":                    fmt.Sprintf("bin/gover check -prop %s -tier %s", prop, tier),
			"trusted_base":                   tb,
			"units":                          table,
			"functions_under_contract":       sortedSet(under),
			"functions_verified_by_inlining": sortedSet(inlined),
			"discharged_by":                  backends,
			"solver_s":                       round1(solver),
			"bounded_units":                  bounded,
			"explanation":                    "obligations generated on this run from the current source of /repo by symbolic execution of its SSA form against the contracts of /verif/proofs; every one was discharged by the named back ends unless listed as failed",
		},
		"assumptions": assumptions,
		"wall_s":      round1(time.Since(t0).Seconds()),
		"violations":  viol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0o644)
	fmt.Printf("property %s: %d units, %d obligations, %d discharged, solver %.1fs, wall %.1fs\n", prop, len(results), obl, dis, solver, time.Since(t0).Seconds())
	if viol > 0 {
		return 1
	}
	return 0
}

func round1(x float64) float64 { return float64(int(x*10+0.5)) / 10 }

func sortedSet(m map[string]bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// ---- violations and replay

type outcome struct {
	Name    string  `json:"name"`
	Status  string  `json:"status"`
	Message string  `json:"message,omitempty"`
	From    string  `json:"from,omitempty"`
	Args    []*Node `json:"args,omitempty"`
	Seed    int64   `json:"seed,omitempty"`
	Runs    int     `json:"runs"`
	Valid   int     `json:"valid"`
}

type replaySpec struct {
	Name   string  `json:"name"`
	Safe   bool    `json:"safe"`
	Args   []*Node `json:"args,omitempty"`
	Seed   int64   `json:"seed,omitempty"`
	Budget int     `json:"budget_ms"`
	Recv   bool    `json:"recv"`
}

type replayFile struct {
	Property string      `json:"property"`
	Unit     string      `json:"unit"`
	Function string      `json:"function"`
	Status   string      `json:"status"`
	Message  string      `json:"message,omitempty"`
	Failed   []FailedObl `json:"failed_obligations,omitempty"`
	Concrete *outcome    `json:"failing_input,omitempty"`
	Searched *outcome    `json:"search,omitempty"`
	Command  string      `json:"command,omitempty"`
}

func (e *Engine) unitDir(u *Unit) string {
	if u == nil || u.fn == nil || u.fn.Pkg == nil {
		return ""
	}
	return strings.TrimPrefix(strings.TrimPrefix(u.fn.Pkg.Pkg.Path(), modPath), "/")
}

func reportViolations(e *Engine, bad []*UnitResult, prop, tier, repo, proofs, verif string, seed int64, t0 time.Time) int {
	dir := filepath.Join(verif, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	groups := map[string][]*replaySpec{}
	for _, r := range bad {
		u := e.units[r.Unit]
		d := e.unitDir(u)
		if d == "" {
			continue
		}
		sp := &replaySpec{Name: r.Unit, Safe: u.kind == "safe", Recv: u.fn.Signature.Recv() != nil}
		for _, f := range r.Failed {
			if f.Args != nil {
				sp.Args = f.Args
				break
			}
		}
		groups[d] = append(groups[d], sp)
	}
	outs := map[string]*outcome{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	for d, sps := range groups {
		n := len(sps)
		for _, s := range sps {
			s.Budget = 60000 / max(n, 2)
			if s.Budget > 30000 {
				s.Budget = 30000
			}
		}
		wg.Add(1)
		go func(d string, sps []*replaySpec) {
			defer wg.Done()
			os_ := e.runReplay(d, sps, repo, verif, seed)
			mu.Lock()
			for _, o := range os_ {
				outs[o.Name] = o
			}
			mu.Unlock()
		}(d, sps)
	}
	wg.Wait()
	for _, r := range bad {
		rf := &replayFile{Property: prop, Unit: r.Unit, Function: r.Target, Status: r.Status, Message: r.Msg, Failed: r.Failed}
		path := filepath.Join(dir, prop+"-"+r.Unit+".json")
		suffix := " no-failing-input-found"
		if o := outs[r.Unit]; o != nil {
			if o.Status == "fail" {
				rf.Concrete = o
				rf.Command = "bin/gover replay " + path
				suffix = ""
			} else {
				rf.Searched = o
			}
		}
		b, _ := json.MarshalIndent(rf, "", " ")
		os.WriteFile(path, append(b, '\n'), 0o644)
		what := r.Status + " " + r.Msg
		if len(r.Failed) > 0 {
			what = r.Failed[0].Name + " at " + r.Failed[0].Pos
		}
		if rf.Concrete != nil {
			what += "; on a concrete input: " + rf.Concrete.Message
		}
		fmt.Printf("unit %s (%s): %s\n", r.Unit, r.Target, what)
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", prop, path, suffix)
	}
	return len(bad)
}

// runReplay compiles the package with the contracts and runs units on concrete inputs.
func (e *Engine) runReplay(dir string, sps []*replaySpec, repo, verif string, seed int64) []*outcome {
	tmp, err := os.MkdirTemp("", "gover-replay")
	if err != nil {
		return nil
	}
	defer os.RemoveAll(tmp)
	rep := map[string]string{}
	n := 0
	put := func(dst string, b []byte) {
		n++
		f := filepath.Join(tmp, fmt.Sprintf("f%d_%s", n, filepath.Base(dst)))
		os.WriteFile(f, b, 0o644)
		rep[dst] = f
	}
	for dst, b := range e.overlay {
		put(dst, b)
	}
	rt, err := os.ReadFile(filepath.Join(verif, "replayrt", "rt.go"))
	if err != nil {
		return nil
	}
	put(filepath.Join(repo, "internal/vfrt/rt.go"), rt)
	pkgDir := filepath.Join(repo, dir)
	pkgName := ""
	var body strings.Builder
	for _, s := range sps {
		u := e.units[s.Name]
		pkgName = u.fn.Pkg.Pkg.Name()
		fmt.Fprintf(&body, "\t\t%q: %s,\n", s.Name, goName(u.fn))
	}
	src := fmt.Sprintf("package %s\n\nimport (\n\t\"testing\"\n\n\t\"%s/internal/vfrt\"\n)\n\nfunc TestVFReplay(t *testing.T) {\n\tvfrt.Run(map[string]any{\n%s\t})\n}\n", pkgName, modPath, body.String())
	put(filepath.Join(pkgDir, "zz_vf_replay_test.go"), []byte(src))
	ov, _ := json.Marshal(map[string]any{"Replace": rep})
	ovf := filepath.Join(tmp, "overlay.json")
	os.WriteFile(ovf, ov, 0o644)
	bin := filepath.Join(tmp, "t.test")
	env := append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local")
	cmd := exec.Command("go", "test", "-c", "-vet=off", "-overlay", ovf, "-o", bin, "./"+dir)
	cmd.Dir = repo
	cmd.Env = env
	if out, err := cmd.CombinedOutput(); err != nil {
		fmt.Println("replay: build failed:", tail(string(out), 1500))
		return nil
	}
	corpus := seedCorpus(pkgDir)
	var res []*outcome
	todo := sps
	log := ""
	for try := 0; try < 2*len(sps)+1 && len(todo) > 0; try++ {
		specf, outf := filepath.Join(tmp, "spec.json"), filepath.Join(tmp, "out.json")
		os.Remove(outf)
		b, _ := json.Marshal(map[string]any{"units": todo, "corpus": corpus, "seed": seed, "out": outf, "log": log})
		os.WriteFile(specf, b, 0o644)
		total := 60 * time.Second
		for _, s := range todo {
			total += time.Duration(s.Budget) * time.Millisecond
		}
		ctx, cancel := context.WithTimeout(context.Background(), total)
		c := exec.CommandContext(ctx, "bash", "-c", "ulimit -v 16000000; exec \"$0\" -test.run '^TestVFReplay$' -test.timeout 0", bin)
		c.Dir = tmp
		c.Env = append(env, "VF_REPLAY="+specf, "GOMEMLIMIT=2GiB")
		out, rerr := c.CombinedOutput()
		cancel()
		var os_ []*outcome
		if b, err := os.ReadFile(outf); err == nil {
			json.Unmarshal(b, &os_)
		}
		done := map[string]bool{}
		for _, o := range os_ {
			res = append(res, o)
			done[o.Name] = true
		}
		var rest []*replaySpec
		for _, s := range todo {
			if !done[s.Name] {
				rest = append(rest, s)
			}
		}
		if rerr != nil && len(rest) > 0 {
			// the process died on rest[0]: once more with every input written down first
			if log == "" {
				log = filepath.Join(tmp, "last.json")
				rest[0].Budget = min(rest[0].Budget*3, 40000)
			} else {
				o := &outcome{}
				if b, err := os.ReadFile(log); err == nil && json.Unmarshal(b, o) == nil && o.Name == rest[0].Name {
					o.Message += ": " + firstLine(string(out))
					res = append(res, o)
				}
				rest = rest[1:]
				log = ""
			}
		}
		todo = rest
	}
	return res
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.TrimSpace(l) != "" {
			return l
		}
	}
	return ""
}

// seedCorpus collects the byte strings of a package's tests.
func seedCorpus(dir string) []string {
	seen := map[string]bool{}
	var out []string
	add := func(b []byte) {
		if len(b) == 0 || len(b) > 8192 || seen[string(b)] || len(out) > 600 {
			return
		}
		seen[string(b)] = true
		out = append(out, hex.EncodeToString(b))
	}
	files, _ := filepath.Glob(filepath.Join(dir, "*_test.go"))
	sort.Strings(files)
	for _, f := range files {
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, f, nil, 0)
		if err != nil {
			continue
		}
		ast.Inspect(af, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.CompositeLit:
				var b []byte
				for _, el := range x.Elts {
					l, ok := el.(*ast.BasicLit)
					if !ok || (l.Kind != token.INT && l.Kind != token.CHAR) {
						return true
					}
					v, err := strconv.ParseUint(l.Value, 0, 16)
					if err != nil || v > 255 {
						return true
					}
					b = append(b, byte(v))
				}
				add(b)
			case *ast.CallExpr:
				for _, a := range x.Args {
					if l, ok := a.(*ast.BasicLit); ok && l.Kind == token.STRING {
						if s, err := strconv.Unquote(l.Value); err == nil && len(s) > 3 {
							add([]byte(s))
						}
					}
				}
			}
			return true
		})
	}
	fz, _ := filepath.Glob(filepath.Join(dir, "testdata/fuzz/*/*"))
	sort.Strings(fz)
	for _, f := range fz {
		b, _ := os.ReadFile(f)
		for _, ln := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(ln, "[]byte(") {
				if s, err := strconv.Unquote(strings.TrimSuffix(strings.TrimPrefix(ln, "[]byte("), ")")); err == nil {
					add([]byte(s))
				}
			}
		}
	}
	return out
}

// replayCmd runs a recorded failing input again.
func replayCmd(e *Engine, file, repo, verif string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	rf := &replayFile{}
	if err := json.Unmarshal(b, rf); err != nil {
		fmt.Println(err)
		return 2
	}
	if rf.Concrete == nil {
		fmt.Println("no failing input recorded; failed obligations:")
		for _, f := range rf.Failed {
			fmt.Println(" ", f.Name, f.Pos, f.Status)
		}
		return 1
	}
	u := e.units[rf.Unit]
	d := e.unitDir(u)
	if d == "" {
		fmt.Println("unit no longer exists")
		return 2
	}
	os_ := e.runReplay(d, []*replaySpec{{Name: rf.Unit, Safe: u.kind == "safe", Args: rf.Concrete.Args, Seed: rf.Concrete.Seed}}, repo, verif, 1)
	for _, o := range os_ {
		if o.Status == "fail" {
			fmt.Println("reproduced:", o.Message)
			return 1
		}
	}
	fmt.Println("not reproduced")
	return 0
}

// searchAll runs every unit on concrete inputs: on the unchanged tree none may fail.
func searchAll(e *Engine, filter, repo, verif string, budget int) int {
	groups := map[string][]*replaySpec{}
	for _, n := range e.unitOrder {
		u := e.units[n]
		d := e.unitDir(u)
		if d == "" || !strings.Contains(n, filter) {
			continue
		}
		groups[d] = append(groups[d], &replaySpec{Name: n, Safe: u.kind == "safe", Recv: u.fn.Signature.Recv() != nil, Budget: budget})
	}
	rc := 0
	var ds []string
	for d := range groups {
		ds = append(ds, d)
	}
	sort.Strings(ds)
	for _, d := range ds {
		for _, o := range e.runReplay(d, groups[d], repo, verif, 1) {
			fmt.Printf("%-60s %-5s runs %d valid %d %s\n", o.Name, o.Status, o.Runs, o.Valid, o.Message)
			if o.Status == "fail" {
				rc = 1
				b, _ := json.Marshal(o.Args)
				fmt.Println("   ", tail(string(b), 600), "seed", o.Seed)
			}
		}
	}
	return rc
}
