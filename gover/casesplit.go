package main

import (
	"context"
	"fmt"
	"os"
	"sort"
	"sync/atomic"
)

// rewriter replaces known boolean terms by their value everywhere, quantified bodies included.
type rewriter struct {
	memo map[*Term]*Term
}

func newRewriter(lit *Term) *rewriter {
	r := &rewriter{map[*Term]*Term{}}
	var know func(t *Term)
	know = func(t *Term) {
		r.memo[t] = tTrue
		r.memo[Not(t)] = tFalse
		if t.op == OAnd {
			know(t.args[0])
			know(t.args[1])
		}
	}
	know(lit)
	return r
}

func (r *rewriter) do(t *Term) *Term {
	if v, ok := r.memo[t]; ok {
		return v
	}
	var v *Term
	if q, ok := quants[t]; ok {
		lo, hi, body := r.do(q.lo), r.do(q.hi), r.do(q.body)
		if lo == q.lo && hi == q.hi && body == q.body {
			v = t
		} else {
			v = mkForall(lo, hi, body, q.bv)
		}
	} else if len(t.args) == 0 {
		v = t
	} else {
		as := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			as[i] = r.do(a)
			ch = ch || as[i] != a
		}
		v = t
		if d, ok := counts[t.name]; ok && t.op == OApp {
			if body := r.do(d.body); body != d.body || ch {
				v = mkCount(as[0], body, d.bv, d.sum)
			}
		} else if ch {
			v = rebuildTerm(t, as)
		}
	}
	r.memo[t] = v
	return v
}

// splitAtom chooses the condition whose value settles most conditional terms of the goal.
func splitAtom(fs []*Term, goal *Term, avoid map[*Term]bool) *Term {
	score := map[*Term]int{}
	var atom func(t *Term, w int)
	atom = func(t *Term, w int) {
		switch t.op {
		case OAnd, OOr, ONot:
			for _, a := range t.args {
				atom(a, w)
			}
		case OConst:
		default:
			if t.w == 0 && !t.free && !avoid[t] && quants[t] == nil {
				score[t] += w
			}
		}
	}
	collect := func(f *Term, w int) {
		seen := map[*Term]bool{}
		var rec func(t *Term)
		rec = func(t *Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			if t.op == OIte {
				atom(t.args[0], w)
			}
			if q, ok := quants[t]; ok {
				rec(q.lo)
				rec(q.hi)
				rec(q.body)
			}
			for _, a := range t.args {
				rec(a)
			}
		}
		rec(f)
	}
	collect(goal, 1)
	if len(score) == 0 {
		for _, f := range fs {
			collect(f, 1)
		}
	}
	var ts []*Term
	for t := range score {
		ts = append(ts, t)
	}
	if len(ts) == 0 {
		return nil
	}
	sort.Slice(ts, func(i, j int) bool {
		if score[ts[i]] != score[ts[j]] {
			return score[ts[i]] > score[ts[j]]
		}
		return ts[i].id < ts[j].id
	})
	return ts[0]
}

// splitSolve decides the conjunction of fs by cases on the conditions of the goal .
func splitSolve(ctx context.Context, fs []*Term, goal *Term, depth, sec int, root bool) result {
	if ctx.Err() != nil {
		return result{status: "unknown"}
	}
	termMu.Lock()
	for _, f := range fs {
		if f == tFalse {
			termMu.Unlock()
			return result{status: "unsat", solver: "simplifier"}
		}
	}
	var smts, lias []string
	leaf := depth == 0
	at := splitAtom(fs, goal, map[*Term]bool{})
	if at == nil {
		leaf = true
	}
	rounds := []int{1}
	if leaf {
		rounds = []int{1, 3}
	}
	for _, n := range rounds {
		fs2 := append(fs[:len(fs):len(fs)], instantiate(fs, n)...)
		smts = append(smts, writeSMT(fs2, nil, true))
		lias = append(lias, writeLIA(fs2))
	}
	var cases [2][]*Term
	var goals [2]*Term
	if !leaf {
		for i, lit := range []*Term{at, Not(at)} {
			rw := newRewriter(lit)
			goals[i] = rw.do(goal)
			out := []*Term{lit}
			for _, f := range fs {
				out = append(out, rw.do(f))
			}
			cases[i] = propagate(out)
		}
	}
	termMu.Unlock()
	lim := sec
	if !leaf {
		lim = 2
	}
	var r result
	for i, smt := range smts {
		if root && !leaf {
			break
		}
		l := lim
		if i < len(smts)-1 && l > 6 {
			l = 6
		}
		r = checkBoth(ctx, smt, lias[i], l, true)
		if r.status == "unsat" {
			return r
		}
	}
	if leaf {
		if d := os.Getenv("GOVER_KEEPDIR"); d != "" {
			n := atomic.AddInt64(&queryN, 1)
			for i, smt := range smts {
				_ = os.WriteFile(fmt.Sprintf("%s/leaf%d.%d.lia.smt2", d, n, i), []byte(lias[i]), 0o644)
				_ = os.WriteFile(fmt.Sprintf("%s/leaf%d.%d.smt2", d, n, i), []byte(smt), 0o644)
			}
			termMu.Lock()
			s := ""
			for _, f := range fs {
				s += f.str(16) + "\n"
			}
			_ = os.WriteFile(fmt.Sprintf("%s/leaf%d.txt", d, n), []byte(s), 0o644)
			termMu.Unlock()
		}
		return r
	}
	ch := make(chan result, 2)
	ctx, cancel := context.WithCancel(ctx)
	defer cancel()
	for i := range cases {
		go func() { ch <- splitSolve(ctx, cases[i], goals[i], depth-1, sec, false) }()
	}
	a := <-ch
	if a.status != "unsat" {
		return a // the other half cannot make up for it
	}
	b := <-ch
	if b.status == "unsat" {
		b.solver += " (cases)"
		b.dur += a.dur
	}
	return b
}

// nnf pushes negations of a formula's boolean structure down.
func nnf(t *Term, memo map[*Term]*Term) *Term {
	if v, ok := memo[t]; ok {
		return v
	}
	v := t
	switch t.op {
	case OAnd:
		v = And(nnf(t.args[0], memo), nnf(t.args[1], memo))
	case OOr:
		v = Or(nnf(t.args[0], memo), nnf(t.args[1], memo))
	case ONot:
		switch x := t.args[0]; x.op {
		case OAnd:
			v = Or(nnf(Not(x.args[0]), memo), nnf(Not(x.args[1]), memo))
		case OOr:
			v = And(nnf(Not(x.args[0]), memo), nnf(Not(x.args[1]), memo))
		}
	}
	memo[t] = v
	return v
}

// propagate simplifies formulas with the literals that the others assert. The result follows from fs.
func propagate(fs []*Term) []*Term {
	memo := map[*Term]*Term{}
	for round := 0; round < 6; round++ {
		var units, rest []*Term
		isUnit := map[*Term]bool{}
		for _, f := range fs {
			for _, x := range splitConj(nnf(f, memo)) {
				switch {
				case x == tTrue:
				case x == tFalse:
					return []*Term{tFalse}
				case x.op == OOr || x.op == OIte || x.op == OAnd:
					rest = append(rest, x)
				case isUnit[Not(x)]:
					return []*Term{tFalse}
				case !isUnit[x]:
					isUnit[x] = true
					units = append(units, x)
				}
			}
		}
		rw := &rewriter{map[*Term]*Term{}}
		for _, u := range units {
			rw.memo[u] = tTrue
			rw.memo[Not(u)] = tFalse
		}
		var out []*Term
		ch := false
		seen := map[*Term]bool{}
		push := func(v, old *Term) bool {
			if v != old {
				ch = true
			}
			if v != tTrue && !seen[v] {
				seen[v] = true
				out = append(out, v)
			}
			return v != tFalse
		}
		for _, u := range units {
			at, n := u, false
			if u.op == ONot {
				at, n = u.args[0], true
			}
			v := at
			if q, ok := quants[at]; ok {
				lo, hi, body := rw.do(q.lo), rw.do(q.hi), rw.do(q.body)
				if lo != q.lo || hi != q.hi || body != q.body {
					v = mkForall(lo, hi, body, q.bv)
				}
			} else if len(at.args) > 0 {
				as := make([]*Term, len(at.args))
				for i, a := range at.args {
					as[i] = rw.do(a)
				}
				v = rebuildTerm(at, as)
			}
			if n {
				v = Not(v)
			}
			if !push(v, u) {
				return []*Term{tFalse}
			}
		}
		for _, f := range rest {
			if !push(rw.do(f), f) {
				return []*Term{tFalse}
			}
		}
		fs = out
		if !ch {
			break
		}
	}
	return fs
}
