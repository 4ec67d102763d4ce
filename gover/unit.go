package main

import (
	"context"
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// FailedObl describes an obligation that was not discharged.
type FailedObl struct {
	Name   string            `json:"name"`
	Kind   string            `json:"kind"`
	Pos    string            `json:"pos"`
	Status string            `json:"status"` // sat, unknown
	Model  map[string]string `json:"model,omitempty"`
	Args   []*Node           `json:"args,omitempty"`
	Note   string            `json:"note,omitempty"`
}

// UnitResult is the outcome of one verification unit.
type UnitResult struct {
	Unit        string            `json:"unit"`
	Kind        string            `json:"kind"`
	Status      string            `json:"status"` // proved, failed, unsupported, missing, vacuous
	Msg         string            `json:"msg,omitempty"`
	Obligations int               `json:"obligations"`
	Discharged  int               `json:"discharged"`
	Backends    map[string]int    `json:"backends"`
	Failed      []FailedObl       `json:"failed,omitempty"`
	Inlined     []string          `json:"inlined"`
	Used        []string          `json:"contracts_used"`
	Trusted     []string          `json:"trusted_models"`
	Loops       map[string]string `json:"loops"`
	Kept        int               `json:"inferred_invariants"`
	Bounded     string            `json:"bounded,omitempty"`
	SolverS     float64           `json:"solver_s"`
	WallS       float64           `json:"wall_s"`
	Rounds      int               `json:"rounds"`
	Covers      int               `json:"covers"`
	Writes      int               `json:"frame_writes"`
	LostInv     []string          `json:"lost_invariants,omitempty"`
	Queries     int64             `json:"queries"`
	Target      string            `json:"target"`
	SlowMax     float64           `json:"slowest_query_s"`
	keptNames   []string
}

var termMu sync.Mutex

func (e *Engine) posStr(o *Obl) string {
	if !o.pos.IsValid() {
		return ""
	}
	p := e.fset.Position(o.pos)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(p.Filename, e.repoDir+"/"), p.Line)
}

// execute runs the unit symbolically once.
func (e *Engine) execute(u *Unit, marks map[string]*loopMark, dropped map[string]bool) (c *Ctx, params []Val, ret *State, err error) {
	c = newCtx(e, u)
	c.marks = marks
	c.dropped = dropped
	c.keep = e.keep
	defer func() {
		if r := recover(); r != nil {
			if us, ok := r.(unsupported); ok {
				err = fmt.Errorf("%s (at %s)", us.msg, e.fset.Position(c.lastPos))
				return
			}
			panic(r)
		}
	}()
	st := &State{pc: tTrue, heaps: map[string]*Heap{}, next: BV(32, initialNext)}
	bound := BV(32, initialNext)
	for i, p := range u.fn.Params {
		v := c.freshVal(p.Type(), p.Name(), bound)
		c.paramWF(st, v, p.Type(), u.kind == "safe" || (i == 0 && u.fn.Signature.Recv() != nil))
		params = append(params, v)
	}
	if u.kind == "contract" {
		c.bodyOf = u.target
	}
	ret, _ = c.callFn(u.fn, params, nil, st)
	if u.kind == "contract" {
		if !c.bodyDone {
			return c, params, ret, fmt.Errorf("the wrapper does not call the function it specifies")
		}
		c.checkFrame(c.bodyEntry, c.bodyMods)
	}
	return c, params, ret, nil
}

func (c *Ctx) paramWF(st *State, v Val, t types.Type, nonNil bool) {
	c.wfVal(st, v, t)
	switch x := v.(type) {
	case *Ptr:
		c.assume(tTrue, Ult(x.obj, BV(32, initialNext)))
		c.assume(tTrue, Ult(x.idx, BV(64, maxLen)))
		if nonNil {
			c.assume(tTrue, Not(Eq(x.obj, BV(32, 0))))
		}
	case *Slice:
		c.assume(tTrue, Ult(x.obj, BV(32, initialNext)))
	case *Struct:
		u := under(t).(*types.Struct)
		for i, f := range x.f {
			c.paramWF(st, f, u.Field(i).Type(), false)
		}
	}
}

type query struct {
	obls []*Obl
	base int
}

// badTerm: assumptions between n0 and the obligation's own point, its path condition and its negation.
func (c *Ctx) badTerm(o *Obl, n0 int) *Term {
	r := And(o.pc, Not(o.cond))
	if r == tFalse {
		return tFalse
	}
	for i := o.nass - 1; i >= n0; i-- {
		r = mk(OAnd, 0, 0, "", c.ass[i], r)
	}
	return r
}

type solveStats struct {
	mu       sync.Mutex
	backends map[string]int
	slowest  float64
}

var inSlowSec = 60

// decide returns for each obligation: "" when discharged, else sat/unknown.
func (c *Ctx) decide(obls []*Obl, sec int, stats *solveStats, stopEarly bool) map[*Obl]result {
	out := map[*Obl]result{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	var work []*Obl
	for _, o := range obls {
		if And(o.pc, Not(o.cond)) == tFalse {
			stats.mu.Lock()
			stats.backends["simplifier"]++
			stats.mu.Unlock()
			o.proof = "simplifier"
			out[o] = result{status: "unsat", solver: "simplifier"}
			continue
		}
		work = append(work, o)
	}
	var solve func(g []*Obl, sec int, again bool)
	solve = func(g []*Obl, sec int, again bool) {
		defer wg.Done()
		termMu.Lock()
		n0 := g[0].nass
		for _, o := range g {
			if o.nass < n0 {
				n0 = o.nass
			}
		}
		bads := make([]*Term, len(g))
		or := tFalse
		for i, o := range g {
			bads[i] = c.badTerm(o, n0)
			or = mk(OOr, 0, 0, "", or, bads[i])
		}
		if len(g) == 1 {
			or = bads[0]
		}
		fs := append([]*Term(nil), relevant(c.ass[:n0], []*Term{or})...)
		fs = append(fs, or)
		var want []*Term
		if len(g) > 1 {
			want = bads
		}
		anyQ := false
		for _, f := range fs {
			if hasQuant(f) {
				anyQ = true
				break
			}
		}
		if anyQ {
			fs = propagate(fs)
		}
		// without quantified facts first, then with more and more instances
		rounds := []int{0}
		if anyQ {
			rounds = []int{0, 1, 3}
			if hasQuant(or) {
				rounds = []int{1, 3}
			}
			if stopEarly {
				rounds = rounds[:1]
			}
		}
		split := anyQ && len(g) == 1 && g[0].cand == "" && !stopEarly
		if split {
			rounds = rounds[:len(rounds)-1]
		}
		termMu.Unlock()
		s := sec
		if len(g) > 1 && s > 10 {
			s = 10
		}
		var r result
		late := again
		won := ""
		how := ""
		if len(g) == 1 && !stopEarly {
			how = howHint[g[0].name]
		}
		if rd, name, ok := strings.Cut(how, " "); ok {
			n, _ := strconv.Atoi(rd)
			base, ints := strings.CutSuffix(name, " (integers)")
			termMu.Lock()
			fs2 := fs
			if n > 0 {
				fs2 = append(fs[:len(fs):len(fs)], instantiate(fs, n)...)
			}
			q := ""
			if ints {
				q = writeLIA(fs2)
			} else {
				q = writeSMT(fs2, want, true)
			}
			termMu.Unlock()
			if q != "" && solvers[base].args != nil {
				if r = runSolver(context.Background(), base, q, s); r.status == "unsat" {
					r.solver = name
					rounds, split = nil, false
				}
			}
		} else if how == "cases" && split {
			rounds = nil
		}
		for k, n := range rounds {
			termMu.Lock()
			fs2 := fs
			if n > 0 {
				fs2 = append(fs[:len(fs):len(fs)], instantiate(fs, n)...)
			}
			smt := writeSMT(fs2, want, true)
			lia := writeLIA(fs2)
			termMu.Unlock()
			lim := s
			if (k < len(rounds)-1 || split) && lim > 4 {
				lim = 4
			}
			r = checkBoth(context.Background(), smt, lia, lim, anyQ)
			if r.status == "unsat" {
				won = fmt.Sprintf("%d %s", n, r.solver)
				late = late || k > 0
				break
			}
			if d := os.Getenv("GOVER_KEEPDIR"); d != "" && len(g) == 1 && g[0].cand == "" {
				nm := strings.NewReplacer("/", "_", " ", "_", ":", "_").Replace(g[0].name)
				_ = os.WriteFile(fmt.Sprintf("%s/%s.r%d.smt2", d, nm, n), []byte(smt), 0o644)
			}
		}
		if split && r.status != "unsat" {
			r = splitSolve(context.Background(), fs, or, 4, s, true)
			won, late = "cases", true
		}
		if r.status == "unsat" && won != "" && howWon != nil && !stopEarly && (r.dur.Seconds() > 0.7 || late) {
			mu.Lock()
			for _, o := range g {
				howWon[o.name] = won
			}
			mu.Unlock()
		}
		stats.mu.Lock()
		if d := r.dur.Seconds(); d > stats.slowest {
			stats.slowest = d
		}
		stats.mu.Unlock()
		if d := r.dur.Seconds(); debug && d > 5 {
			fmt.Printf("SLOW %5.1fs %s %s %s\n", d, r.status, r.solver, g[0].name)
		}
		if r.status == "unsat" {
			mu.Lock()
			stats.mu.Lock()
			for _, o := range g {
				o.proof = r.solver
				out[o] = r
				stats.backends[r.solver]++
			}
			stats.mu.Unlock()
			mu.Unlock()
			return
		}
		if len(g) == 1 {
			mu.Lock()
			out[g[0]] = r
			mu.Unlock()
			return
		}
		if r.status == "sat" {
			// obligations falsified by this model fail; the rest are tried again
			vals := parseBools(r.out, len(g))
			var rest, bad []*Obl
			for i, o := range g {
				if vals != nil && vals[i] {
					bad = append(bad, o)
				} else {
					rest = append(rest, o)
				}
			}
			if len(bad) > 0 {
				if stopEarly {
					mu.Lock()
					for _, o := range bad {
						out[o] = result{status: "sat", solver: r.solver}
					}
					mu.Unlock()
				} else {
					for _, o := range bad {
						wg.Add(1)
						go solve([]*Obl{o}, sec, true)
					}
				}
				if len(rest) > 0 {
					wg.Add(1)
					go solve(rest, sec, true)
				}
				return
			}
		}
		h := len(g) / 2
		wg.Add(2)
		go solve(g[:h], sec, true)
		go solve(g[h:], sec, true)
	}
	chunk := 12
	if n := len(work)/8 + 1; n < chunk {
		chunk = n
	}
	var cur []*Obl
	flush := func() {
		if len(cur) > 0 {
			wg.Add(1)
			go solve(cur, sec, false)
			cur = nil
		}
	}
	for _, o := range work {
		termMu.Lock()
		hq := hasQuant(o.cond) || hasQuant(o.pc)
		termMu.Unlock()
		if hq || !stopEarly && howHint[o.name] != "" {
			wg.Add(1)
			go solve([]*Obl{o}, sec, false)
			continue
		}
		cur = append(cur, o)
		if len(cur) >= chunk {
			flush()
		}
	}
	flush()
	wg.Wait()
	return out
}

var quantMemo = map[*Term]bool{}

func hasQuant(t *Term) bool {
	if v, ok := quantMemo[t]; ok {
		return v
	}
	r := false
	if t.op == OVar && t.w == 0 {
		_, r = quants[t]
	}
	if t.op == OApp && !r {
		_, r = counts[t.name]
	}
	if t.op == OApp && !r {
		_, r = fixes[t.name]
	}
	for _, a := range t.args {
		if r {
			break
		}
		r = hasQuant(a)
	}
	quantMemo[t] = r
	return r
}

// parseBools reads the values printed by get-value, in order.
func parseBools(out string, n int) []bool {
	i := strings.IndexByte(out, '(')
	if i < 0 {
		return nil
	}
	var vals []bool
	for _, tok := range strings.FieldsFunc(out[i:], func(r rune) bool { return r == ' ' || r == '(' || r == ')' || r == '\n' }) {
		switch tok {
		case "true":
			vals = append(vals, true)
		case "false":
			vals = append(vals, false)
		}
	}
	// constants in the request also echo as true/false: only accept exact counts
	if len(vals) != n {
		return nil
	}
	return vals
}

// howHint says how obligations were discharged before ("ROUNDS SOLVER" or "cases"); howWon records it.
var howHint, howWon map[string]string

var (
	lightMode bool
	useHints  bool
)

func verifyUnit(e *Engine, u *Unit, tier string) *UnitResult {
	if u.missing == "" && useHints && os.Getenv("GOVER_SAVEHINTS") == "" {
		if h := loadHint(u.name, !lightMode); h != nil {
			keep := map[string]bool{}
			for _, k := range h.Kept {
				keep[k] = true
			}
			t0 := time.Now()
			howHint = h.How
			r := verifyUnit1(e, u, tier, keep)
			if r.Status == "proved" || u.noCand && len(h.Kept) == 0 {
				return r
			}
			r = verifyUnit1(e, u, tier, nil)
			r.WallS = time.Since(t0).Seconds()
			return r
		}
	}
	save := os.Getenv("GOVER_SAVEHINTS") != ""
	if h := loadHint(u.name, !lightMode); u.missing == "" && save && h != nil && !u.noCand {
		keep := map[string]bool{}
		for _, k := range h.Kept {
			keep[k] = true
		}
		howWon = map[string]string{}
		if r := verifyUnit1(e, u, tier, keep); r.Status == "proved" {
			h.How, h.Wall = howWon, round1(r.WallS)
			b, _ := json.MarshalIndent(h, "", " ")
			os.WriteFile(hintFile(u.name, !lightMode), append(b, '\n'), 0o644)
			return r
		}
	}
	howWon = map[string]string{}
	if save && u.noCand {
		if h := loadHint(u.name, !lightMode); h != nil {
			howHint = h.How // nothing is inferred, so the obligations are the same every time
		}
	}
	r := verifyUnit1(e, u, tier, nil)
	if save && (r.Status == "proved" || u.noCand) {
		if len(r.keptNames) > 0 {
			// are the inferred invariants needed at all?
			howWon = map[string]string{}
			if r2 := verifyUnit1(e, u, tier, map[string]bool{}); r2.Status == "proved" {
				r = r2
			} else {
				k := map[string]bool{}
				for _, n := range r.keptNames {
					k[n] = true
				}
				howWon = map[string]string{}
				if r2 := verifyUnit1(e, u, tier, k); r2.Status == "proved" {
					r.WallS = r2.WallS
				}
			}
		}
		for k, v := range howHint {
			if howWon[k] == "" {
				howWon[k] = v
			}
		}
		h := Hint{Kept: r.keptNames, Wall: round1(r.WallS), How: howWon}
		if len(h.Kept) == 0 {
			h.Kept = []string{}
		}
		b, _ := json.MarshalIndent(h, "", " ")
		os.WriteFile(hintFile(u.name, !lightMode), append(b, '\n'), 0o644)
	}
	return r
}

func verifyUnit1(e *Engine, u *Unit, tier string, keep map[string]bool) (res *UnitResult) {
	t0 := time.Now()
	res = &UnitResult{Unit: u.name, Kind: u.kind, Backends: map[string]int{}, Bounded: u.bounded}
	if u.target != nil {
		res.Target = shortName(u.target.String())
	}
	s0, q0 := solverTime, queryN
	defer func() {
		res.WallS = time.Since(t0).Seconds()
		res.SolverS = float64(solverTime-s0) / 1e9
		res.Queries = queryN - q0
	}()
	if u.missing != "" {
		res.Status = "missing"
		res.Msg = u.missing
		return
	}
	sec := 30
	if tier == "thorough" {
		sec = 120
	}
	if v := os.Getenv("GOVER_SEC"); v != "" {
		fmt.Sscan(v, &sec)
	}
	e.keep = keep
	marks := map[string]*loopMark{}
	dropped := map[string]bool{}
	var c *Ctx
	var params []Val
	var ret *State
	var err error
	stats := &solveStats{backends: map[string]int{}}
	for round := 1; ; round++ {
		res.Rounds = round
		if round > 80 {
			res.Status, res.Msg = "unsupported", "no fixpoint of loop effects"
			return
		}
		c, params, ret, err = e.execute(u, marks, dropped)
		if err != nil {
			// an execution that already asks for another round may fail for lack of marks
			if c != nil && c.restart && round < 40 {
				continue
			}
			res.Status, res.Msg = "unsupported", err.Error()
			return
		}
		if debug {
			fmt.Printf("round %d: restart=%v obls=%d ass=%d dropped=%d (%.1fs)\n", round, c.restart, len(c.obls), len(c.ass), len(dropped), time.Since(t0).Seconds())
		}
		if c.restart {
			continue
		}
		var cs []*Obl
		for _, o := range c.obls {
			if o.cand != "" && o.group == "" && !dropped[o.cand] {
				cs = append(cs, o)
			}
		}
		n := len(dropped)
		for len(cs) > 0 {
			r := c.decide(cs, 4, &solveStats{backends: map[string]int{}}, true)
			for o, x := range r {
				if x.status != "unsat" {
					dropped[o.cand] = true
					if debug {
						fmt.Println("   drop", o.name, x.status, x.solver)
					}
				}
			}
			break
		}
		if debug {
			fmt.Printf("  candidates %d dropped %d (%.1fs)\n", len(cs), len(dropped)-n, time.Since(t0).Seconds())
		}
		if len(dropped) == n {
			break
		}
	}
	kept := map[string]bool{}
	for _, o := range c.obls {
		if o.cand != "" && o.group == "" {
			kept[o.cand] = true
		}
	}
	res.Kept = len(kept)
	for k := range kept {
		res.keptNames = append(res.keptNames, k)
	}
	sort.Strings(res.keptNames)
	res.LostInv = c.lostInv
	res.Writes = len(c.writeLog)
	for k := range c.inlined {
		res.Inlined = append(res.Inlined, k)
	}
	sort.Strings(res.Inlined)
	for k := range c.used {
		res.Used = append(res.Used, k)
	}
	sort.Strings(res.Used)
	for k := range c.trusted {
		res.Trusted = append(res.Trusted, shortName(k))
	}
	sort.Strings(res.Trusted)
	res.Loops = c.loopKinds
	// mandatory obligations
	var ms []*Obl
	groups := map[string][]*Obl{}
	for _, o := range c.obls {
		switch {
		case o.group != "":
			groups[o.group] = append(groups[o.group], o)
		default:
			ms = append(ms, o)
		}
	}
	r := c.decide(ms, sec, stats, false)
	var failed []*Obl
	for _, o := range ms {
		if r[o].status != "unsat" {
			failed = append(failed, o)
		}
	}
	res.Obligations = len(ms)
	res.Discharged = len(ms) - len(failed)
	// termination: one measure per loop that works on all its back edges
	if !u.noTerm {
		byLoop := map[string]map[string][]*Obl{}
		loops := []string{}
		for _, g := range groups {
			for _, o := range g {
				lp := o.cand[2:strings.LastIndexByte(o.cand, '|')]
				if byLoop[lp] == nil {
					byLoop[lp] = map[string][]*Obl{}
					loops = append(loops, lp)
				}
				byLoop[lp][o.cand] = append(byLoop[lp][o.cand], o)
			}
		}
		sort.Strings(loops)
		for _, lp := range loops {
			var all []*Obl
			for _, os := range byLoop[lp] {
				all = append(all, os...)
			}
			sort.Slice(all, func(i, j int) bool { return all[i].name < all[j].name })
			st2 := &solveStats{backends: map[string]int{}}
			rr := c.decide(all, 5, st2, true)
			ok := ""
			for cn, os := range byLoop[lp] {
				good := true
				for _, o := range os {
					if rr[o].status != "unsat" {
						good = false
					}
				}
				if good && (ok == "" || cn < ok) {
					ok = cn
				}
			}
			if ok == "" {
				// retry with more time, one measure at a time
				for cn, os := range byLoop[lp] {
					good := true
					r2 := c.decide(os, sec, st2, false)
					for _, o := range os {
						if r2[o].status != "unsat" {
							good = false
							break
						}
					}
					if good {
						ok = cn
						break
					}
				}
			}
			res.Obligations++
			if ok != "" {
				res.Discharged++
				res.Backends["termination"]++
				c.loopKinds[lp] += ", decreases " + ok[strings.LastIndexByte(ok, '|')+1:]
			} else {
				o := *all[0]
				o.name = lp + ":decreases"
				failed = append(failed, &o)
				r[&o] = result{status: "unknown", out: "no termination measure found"}
			}
		}
	}
	for k, v := range stats.backends {
		res.Backends[k] += v
	}
	res.SlowMax = stats.slowest
	// vacuity: the end of the unit must be reachable under its assumptions
	if len(failed) == 0 {
		g := ret.pc
		vac := false
		if g == tFalse {
			vac = true
		} else {
			fs := append(append([]*Term(nil), c.ass...), g)
			fs = append(fs, instantiate(fs, 1)...)
			cr := check(fs, nil, 5)
			if cr.status == "unsat" {
				vac = true
			}
			if cr.status == "sat" {
				res.Covers = 1
			}
		}
		if vac && !neverReturns(u.fn) {
			res.Status, res.Msg = "vacuous", "no execution reaches the end of the unit under its assumptions"
			return
		}
		if res.Obligations == 0 && u.kind != "safe" {
			res.Status, res.Msg = "vacuous", "no obligations were generated"
			return
		}
		res.Status = "proved"
		return
	}
	res.Status = "failed"
	for i, o := range failed {
		if v := os.Getenv("GOVER_SHOW"); v != "" && strings.Contains(o.name, v) {
			fmt.Println("OBL", o.name, "\n  pc", o.pc, "\n  cond", o.cond.str(9))
			for _, d := range counts {
				fmt.Println("  count", d.name)
			}
			if os.Getenv("GOVER_SHOWASS") != "" {
				for _, a := range c.ass {
					fmt.Println("  ass", a)
				}
			}
		}
		fo := FailedObl{Name: o.name, Kind: o.kind, Pos: e.posStr(o), Status: r[o].status}
		if i < 4 && o.group == "" && r[o].status == "sat" {
			args, note := e.modelArgs(c, u, params, o)
			fo.Args, fo.Note = args, note
		}
		res.Failed = append(res.Failed, fo)
	}
	return
}

func neverReturns(fn *ssa.Function) bool { return false }
