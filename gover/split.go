package main

import "fmt"

// splitConj flattens a condition into conjuncts; every conjunct may be simplified under the previous ones
// (so that the conjunction of the result is equivalent to the input).
func splitConj(t *Term) []*Term {
	var flat []*Term
	var walk func(x *Term)
	walk = func(x *Term) {
		if x.op == OAnd {
			walk(x.args[0])
			walk(x.args[1])
			return
		}
		flat = append(flat, x)
	}
	walk(t)
	if len(flat) > 24 {
		return []*Term{t}
	}
	known := map[*Term]bool{}
	var out []*Term
	for len(flat) > 0 {
		x := simpUnder(flat[0], known)
		flat = flat[1:]
		if x == tTrue {
			continue
		}
		if x.op == OAnd && len(flat) < 24 {
			flat = append([]*Term{x.args[0], x.args[1]}, flat...)
			continue
		}
		known[x] = true
		out = append(out, x)
	}
	return out
}

// simpUnder simplifies t assuming the known terms are true.
func simpUnder(t *Term, known map[*Term]bool) *Term {
	return simpUnder0(t, known, 12)
}

func simpUnder0(t *Term, known map[*Term]bool, d int) *Term {
	if known[t] {
		return tTrue
	}
	if known[Not(t)] {
		return tFalse
	}
	if d == 0 {
		return t
	}
	switch t.op {
	case ONot:
		return Not(simpUnder0(t.args[0], known, d-1))
	case OAnd:
		return And(simpUnder0(t.args[0], known, d-1), simpUnder0(t.args[1], known, d-1))
	case OOr:
		return Or(simpUnder0(t.args[0], known, d-1), simpUnder0(t.args[1], known, d-1))
	case OIte:
		if t.w == 0 {
			return Ite(simpUnder0(t.args[0], known, d-1), simpUnder0(t.args[1], known, d-1), simpUnder0(t.args[2], known, d-1))
		}
	}
	return t
}

func conjName(name string, i, n int) string {
	if n == 1 {
		return name
	}
	return fmt.Sprintf("%s.%d", name, i+1)
}

// tidy simplifies a boolean term.
func tidy(t *Term) *Term {
	switch t.op {
	case OAnd:
		return And(splitConj(t)...)
	case OOr:
		var flat []*Term
		var walk func(x *Term)
		walk = func(x *Term) {
			if x.op == OOr {
				walk(x.args[0])
				walk(x.args[1])
				return
			}
			flat = append(flat, x)
		}
		walk(t)
		if len(flat) > 24 {
			return t
		}
		known := map[*Term]bool{}
		r := tFalse
		for _, x := range flat {
			x = tidy(simpUnder(x, known))
			r = Or(r, x)
			known[Not(x)] = true
		}
		return r
	case ONot:
		if t.args[0].op == OAnd || t.args[0].op == OOr {
			return Not(tidy(t.args[0]))
		}
	}
	return t
}
