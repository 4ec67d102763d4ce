package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// ---- quantified atoms

var quants = map[*Term]*quantDef{}

func mkForall(lo, hi, body, bv *Term) *Term {
	if !body.free {
		// independent of the bound variable
		return Or(Not(Slt(lo, hi)), body)
	}
	if body == tTrue {
		return tTrue
	}
	if lo.free || hi.free || hasOtherFree(body, bv) {
		// inside another quantifier: an application to the outer variables, which becomes an
		// ordinary quantifier when they are instantiated
		vs := otherFree(bv, lo, hi, body)
		name := fmt.Sprintf("QN!%d!%d!%d", lo.id, hi.id, body.id)
		nested[name] = &nestedDef{vs: vs, q: &quantDef{lo: lo, hi: hi, body: body, bv: bv}}
		return App(name, 0, vs...)
	}
	if bv != qv0 {
		body = subst(body, bv, qv0, map[*Term]*Term{})
		bv = qv0
	}
	a := Var(fmt.Sprintf("Q!%d!%d!%d", lo.id, hi.id, body.id), 0)
	quants[a] = &quantDef{atom: a, lo: lo, hi: hi, body: body, bv: bv}
	return a
}

var qv0 = Var("?q0", 64)

// nestedDef is a quantifier that mentions variables of enclosing quantifiers.
type nestedDef struct {
	vs []*Term
	q  *quantDef
}

var nested = map[string]*nestedDef{}

func (d *nestedDef) at(as []*Term) *Term {
	lo, hi, body := d.q.lo, d.q.hi, d.q.body
	for i, v := range d.vs {
		if v == as[i] {
			continue
		}
		lo, hi = subst(lo, v, as[i], map[*Term]*Term{}), subst(hi, v, as[i], map[*Term]*Term{})
		body = subst(body, v, as[i], map[*Term]*Term{})
	}
	return mkForall(lo, hi, body, d.q.bv)
}

// otherFree lists the quantified variables of ts other than bv.
func otherFree(bv *Term, ts ...*Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if !t.free || t == bv || seen[t] {
			return
		}
		seen[t] = true
		if t.op == OVar {
			out = append(out, t)
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	for _, t := range ts {
		rec(t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

// fixDef is a recursive function: f(x) = body, where body mentions f.
type fixDef struct {
	body *Term
	bv   *Term
}

var fixes = map[string]*fixDef{}

const fixSelf = "F!self"

// mkFix names the function whose body (with calls to fixSelf) is given.
func mkFix(x, body, bv *Term) *Term {
	if hasOtherFree(body, bv) {
		unsup("vf.Fix depends on a quantified variable")
	}
	name := fmt.Sprintf("F!%d", body.id)
	if fixes[name] == nil {
		d := &fixDef{bv: bv}
		fixes[name] = d
		d.body = renameApp(body, fixSelf, name, map[*Term]*Term{})
	}
	return App(name, 64, x)
}

func renameApp(t *Term, from, to string, memo map[*Term]*Term) *Term {
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	as := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		as[i] = renameApp(a, from, to, memo)
		ch = ch || as[i] != a
	}
	r := t
	switch {
	case t.op == OApp && t.name == from:
		r = App(to, t.w, as...)
	case ch:
		r = rebuildTerm(t, as)
	}
	memo[t] = r
	return r
}

// countDef is the sum of body over [0, n): of 0 or 1 per index for vf.Count, of a clamped
// value per index for vf.Sum.
type countDef struct {
	name string
	body *Term // 64-bit, with bound variable; within the clamp
	bv   *Term
	sum  bool
}

var counts = map[string]*countDef{}

const (
	sumLimit  = uint64(1) << 20 // indices beyond contribute nothing to vf.Sum
	sumClamp  = uint64(1) << 41 // values outside [0, sumClamp] count as 0
	countLim  = uint64(1) << 60
	maxGround = 40
)

func mkCount(n, body, bv *Term, sum bool) *Term {
	if hasOtherFree(body, bv) {
		unsup("vf.Count depends on a quantified variable")
	}
	if n.isConst() && int64(n.val) <= 0 {
		return BV(64, 0)
	}
	name := fmt.Sprintf("C!%d!%v", body.id, sum)
	counts[name] = &countDef{name, body, bv, sum}
	return App(name, 64, n)
}

// instCounts states the defining facts of the counting terms over the arguments that occur.
func instCounts(apps map[string][]*Term, done map[string]bool, extra []*Term) []*Term {
	names := make([]string, 0)
	for n := range apps {
		names = append(names, n)
	}
	sort.Strings(names)
	zero := BV(64, 0)
	for _, n := range names {
		d := counts[n]
		C := func(t *Term) *Term {
			if t == zero {
				return zero
			}
			return App(n, 64, t)
		}
		at := func(t *Term) *Term { return subst(d.body, d.bv, t, map[*Term]*Term{}) }
		lim := BV(64, countLim)
		if d.sum {
			lim = BV(64, sumLimit)
		}
		var ts []*Term
		var leaf func(t *Term)
		leaf = func(t *Term) {
			ts = append(ts, t)
			if len(ts) > maxGround {
				return
			}
			if t.op == OIte {
				leaf(t.args[1])
				leaf(t.args[2])
			}
			if t.op == OAdd {
				for _, a := range t.args {
					if a.op == OIte {
						r := Sub(t, a)
						leaf(Add(r, a.args[1]))
						leaf(Add(r, a.args[2]))
						break
					}
				}
			}
		}
		for _, a := range apps[n] {
			leaf(a.args[0])
		}
		ts = append(ts, zero)
		// steps in between arguments that are a small constant apart
		for i := range ts {
			for j := range ts {
				if df := Sub(ts[j], ts[i]); df.isConst() && df.val > 1 && df.val <= 4 {
					for s := uint64(1); s < df.val; s++ {
						ts = append(ts, Add(ts[i], BV(64, s)))
					}
				}
			}
		}
		ts = append([]*Term{zero}, ts...)
		if len(names) > 1 {
			ts = append(ts, BV(64, 1))
			for _, n2 := range names {
				if n2 == n || len(apps[n2]) > 8 {
					continue
				}
				for _, a := range apps[n2] {
					ts = append(ts, a.args[0])
				}
			}
		}
		uniq := ts[:0:0]
		seen := map[*Term]bool{}
		for _, t := range ts {
			if !seen[t] {
				seen[t] = true
				uniq = append(uniq, t)
			}
		}
		ts = uniq
		if len(ts) > maxGround {
			ts = ts[:maxGround]
		}
		add := func(key string, e *Term) {
			if done[key] {
				return
			}
			done[key] = true
			if e != tTrue {
				extra = append(extra, e)
			}
		}
		for _, t := range ts {
			if t == zero {
				continue
			}
			b := Sle(C(t), t)
			if d.sum {
				b = Ule(C(t), BV(64, sumLimit*sumClamp))
			}
			add(fmt.Sprintf("%s|%d", n, t.id), And(Or(Not(Sle(t, zero)), Eq(C(t), zero)), Sle(zero, C(t)), Or(Not(Sle(zero, t)), b)))
		}
		for _, t := range ts {
			for _, u := range ts {
				if t == u || u == zero {
					continue
				}
				g := And(Sle(zero, t), Slt(t, u), Sle(u, lim))
				if g == tFalse {
					continue
				}
				f := at(t)
				e := And(Sle(Add(C(t), f), C(u)), Or(Not(Eq(u, Add(t, BV(64, 1)))), Eq(C(u), Add(C(t), f))))
				if !d.sum {
					e = And(e, Sle(Sub(C(u), C(t)), Add(Sub(u, t), Add(f, I64(-1)))))
				}
				add(fmt.Sprintf("%s|%d|%d", n, t.id, u.id), Or(Not(g), e))
			}
		}
	}
	// two counts over the same number of indices, from the first or the second one on, agree or
	// have a witness
	for i, n1 := range names {
		for _, n2 := range names[i+1:] {
			d1, d2 := counts[n1], counts[n2]
			if d1.sum != d2.sum || len(apps[n1]) > 8 || len(apps[n2]) > 8 {
				continue
			}
			lim := BV(64, countLim)
			if d1.sum {
				lim = BV(64, sumLimit)
			}
			val := func(n string, t *Term) *Term {
				if t == zero {
					return zero
				}
				return App(n, 64, t)
			}
			seenT := map[*Term]bool{}
			var us []*Term
			for _, x := range append(append([]*Term(nil), apps[n1]...), apps[n2]...) {
				if !seenT[x.args[0]] {
					seenT[x.args[0]] = true
					us = append(us, x.args[0])
				}
			}
			for _, t := range us {
				for ab := uint64(0); ab < 4; ab++ {
					a, b := BV(64, ab&1), BV(64, ab>>1)
					u := Sub(Add(t, b), a)
					if a != b && !seenT[u] {
						continue
					}
					key := fmt.Sprintf("%s|%s|x|%d|%d", n1, n2, t.id, ab)
					if done[key] {
						continue
					}
					done[key] = true
					g := And(Sle(a, t), Sle(b, u), Sle(t, lim), Sle(u, lim))
					sk := Var(fmt.Sprintf("wit!%d", len(done)), 64)
					b1 := subst(d1.body, d1.bv, Add(sk, a), map[*Term]*Term{})
					b2 := subst(d2.body, d2.bv, Add(sk, b), map[*Term]*Term{})
					eq := Eq(Sub(val(n1, t), val(n1, a)), Sub(val(n2, u), val(n2, b)))
					if b1 != b2 {
						eq = Or(eq, And(Sle(zero, sk), Slt(sk, Sub(t, a)), Not(Eq(b1, b2))))
					}
					if e := Or(Not(g), eq); e != tTrue {
						extra = append(extra, e)
					}
				}
			}
		}
	}
	// an increase has a witness
	for _, n := range names {
		d := counts[n]
		type cv struct{ arg, val *Term }
		vs := []cv{{zero, zero}}
		for _, a := range apps[n] {
			vs = append(vs, cv{a.args[0], a})
		}
		if len(vs) > 9 {
			continue
		}
		for _, x := range vs {
			for _, y := range vs {
				t, u := x.arg, y.arg
				if df := Sub(u, t); df.isConst() && (df.val <= 4 || int64(df.val) < 0) || u == zero {
					continue
				}
				key := fmt.Sprintf("%s|w|%d|%d", n, t.id, u.id)
				if done[key] {
					continue
				}
				done[key] = true
				sk := Var(fmt.Sprintf("wit!%d", len(done)), 64)
				g := And(Sle(zero, t), Sle(u, BV(64, countLim)), Slt(x.val, y.val))
				extra = append(extra, Or(Not(g), And(Sle(t, sk), Slt(sk, u), Slt(zero, subst(d.body, d.bv, sk, map[*Term]*Term{})))))
			}
		}
	}
	return extra
}

func hasOtherFree(t, bv *Term) bool {
	memo := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if !t.free || t == bv {
			return false
		}
		if t.op == OVar {
			return true
		}
		if v, ok := memo[t]; ok {
			return v
		}
		memo[t] = false
		for _, a := range t.args {
			if rec(a) {
				memo[t] = true
				return true
			}
		}
		return false
	}
	return rec(t)
}

func subst(t, v, by *Term, memo map[*Term]*Term) *Term {
	if !t.free {
		return t
	}
	if t == v {
		return by
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	as := make([]*Term, len(t.args))
	for i, a := range t.args {
		as[i] = subst(a, v, by, memo)
	}
	r := rebuildTerm(t, as)
	memo[t] = r
	return r
}

func rebuildTerm(t *Term, as []*Term) *Term {
	switch t.op {
	case OApp:
		if d, ok := nested[t.name]; ok {
			for i, a := range as {
				if a != t.args[i] {
					return d.at(as)
				}
			}
			return t
		}
		if counts[t.name] != nil && as[0].isConst() && as[0].val == 0 {
			return as[0]
		}
		r := App(t.name, t.w, as...)
		if u, ok := objUpper[t]; ok {
			objUpper[r] = u
		}
		return r
	case ONot:
		return Not(as[0])
	case OAnd:
		return And(as[0], as[1])
	case OOr:
		return Or(as[0], as[1])
	case OEq:
		if as[0].w == 32 {
			return objEq(as[0], as[1])
		}
		return Eq(as[0], as[1])
	case OIte:
		return Ite(as[0], as[1], as[2])
	case OAdd:
		r := BV(t.w, t.val)
		for _, a := range as {
			r = Add(r, a)
		}
		return r
	case OMulC:
		return Mul(as[0], BV(t.w, t.val))
	case OMul:
		return Mul(as[0], as[1])
	case OUDiv:
		return UDiv(as[0], as[1])
	case OURem:
		return URem(as[0], as[1])
	case OSDiv:
		return SDiv(as[0], as[1])
	case OSRem:
		return SRem(as[0], as[1])
	case OBAnd:
		return BAnd(as[0], as[1])
	case OBOr:
		return BOr(as[0], as[1])
	case OBXor:
		return BXor(as[0], as[1])
	case OBNot:
		return BNot(as[0])
	case OShl:
		return Shl(as[0], as[1])
	case OLshr:
		return Lshr(as[0], as[1])
	case OAshr:
		return Ashr(as[0], as[1])
	case OUlt:
		return Ult(as[0], as[1])
	case OSlt:
		return Slt(as[0], as[1])
	case OConcat:
		return Concat(as...)
	case OExtract:
		return Extract(as[0], int(t.val>>8), int(t.val&0xff))
	case OSext:
		return Sext(as[0], t.w)
	}
	panic("rebuild")
}

// collectApps gathers ground applications and quantifier atoms reachable from terms.
type collector struct {
	seen  map[*Term]bool
	apps  map[string][]*Term
	atoms []*Term
	terms []*Term
}

func newCollector() *collector {
	return &collector{seen: map[*Term]bool{}, apps: map[string][]*Term{}}
}

func (k *collector) add(t *Term) {
	if k.seen[t] {
		return
	}
	k.seen[t] = true
	for _, a := range t.args {
		k.add(a)
	}
	if t.op == OApp && !t.free {
		k.apps[t.name] = append(k.apps[t.name], t)
	}
	if t.op == OVar && t.w == 0 {
		if _, ok := quants[t]; ok {
			k.atoms = append(k.atoms, t)
		}
	}
}

// patterns: applications of the body whose last argument mentions the bound variable
type pattern struct {
	name string
	obj  *Term
	k    uint64
	off  *Term
}

func patterns(q *quantDef) []pattern {
	var out []pattern
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if !t.free || seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			rec(a)
		}
		if d, ok := nested[t.name]; ok && t.op == OApp && len(t.args) == 1 && t.args[0] == q.bv && len(d.vs) == 1 && d.vs[0] == q.bv {
			rec(d.q.body)
		}
		if n := len(t.args); t.op == OApp && (n == 2 && !t.args[0].free || n == 1 && counts[t.name] != nil) {
			ix := t.args[n-1]
			l := &lin{ms: map[*Term]uint64{}}
			linAdd(l, ix, 1)
			k := l.ms[q.bv]
			delete(l.ms, q.bv)
			for x := range l.ms {
				if x.free {
					return
				}
			}
			if k == 0 {
				return
			}
			var obj *Term
			if n == 2 {
				obj = t.args[0]
			}
			out = append(out, pattern{t.name, obj, k, linTerm(l, 64)})
		}
	}
	rec(q.body)
	return out
}

func matchIdx(p pattern, idx *Term) *Term {
	d := Sub(idx, p.off)
	if p.k == 1 {
		return d
	}
	if p.k == ^uint64(0) {
		return Neg(d)
	}
	l := &lin{ms: map[*Term]uint64{}}
	linAdd(l, d, 1)
	if int64(l.c)%int64(p.k) != 0 {
		return nil
	}
	l.c = uint64(int64(l.c) / int64(p.k))
	for t, c := range l.ms {
		if int64(c)%int64(p.k) != 0 {
			return nil
		}
		l.ms[t] = uint64(int64(c) / int64(p.k))
	}
	return linTerm(l, 64)
}

// polarity records whether boolean terms occur positively (1) or negatively (2).
func polarity(fs []*Term) map[*Term]int {
	pol := map[*Term]int{}
	polarityInto(pol, fs...)
	return pol
}

func polarityInto(pol map[*Term]int, fs ...*Term) {
	var rec func(t *Term, p int)
	rec = func(t *Term, p int) {
		if pol[t]&p == p {
			return
		}
		pol[t] |= p
		if t.w != 0 {
			for _, a := range t.args {
				rec(a, 3)
			}
			return
		}
		switch t.op {
		case OAnd, OOr:
			for _, a := range t.args {
				rec(a, p)
			}
		case ONot:
			rec(t.args[0], p>>1&1|p<<1&2)
		case OIte:
			rec(t.args[0], 3)
			rec(t.args[1], p)
			rec(t.args[2], p)
		default:
			for _, a := range t.args {
				rec(a, 3)
			}
		}
	}
	for _, f := range fs {
		rec(f, 1)
	}
}

// instantiate returns extra formulas for the quantified atoms in fs: a witness for each atom
// that may be false, instances for each that may be true.
func instantiate(fs []*Term, rounds int) []*Term {
	k := newCollector()
	for _, f := range fs {
		k.add(f)
	}
	hasC := false
	for n := range k.apps {
		if _, ok := counts[n]; ok {
			hasC = true
		}
	}
	hasF := false
	for n := range k.apps {
		if _, ok := fixes[n]; ok {
			hasF = true
		}
	}
	if len(k.atoms) == 0 && !hasC && !hasF {
		return nil
	}
	pol := polarity(fs)
	var extra []*Term
	done := map[string]bool{}
	pats := map[*Term][]pattern{}
	bounds := map[*Term]bool{}
	var insts []*Term
	inst := func(a, g *Term) {
		q := quants[a]
		key := fmt.Sprintf("%d|%d", a.id, g.id)
		if done[key] {
			return
		}
		done[key] = true
		b := subst(q.body, q.bv, g, map[*Term]*Term{})
		e := Or(Not(a), Not(Sle(q.lo, g)), Not(Slt(g, q.hi)), b)
		if e != tTrue {
			extra = append(extra, e)
			insts = append(insts, b)
		}
	}
	// witnesses, also of the quantifiers inside quantifiers
	var sks []*Term
	witnessed := map[*Term]bool{}
	witnesses := func() {
		for again := true; again; {
			again = false
			for _, a := range append([]*Term(nil), k.atoms...) {
				if pol[a]&2 == 0 || witnessed[a] {
					continue
				}
				witnessed[a], again = true, true
				q := quants[a]
				s := Var("sk!"+a.name, 64)
				sks = append(sks, s)
				b := subst(q.body, q.bv, s, map[*Term]*Term{})
				e := Or(a, And(Sle(q.lo, s), Slt(s, q.hi), Not(b)))
				extra = append(extra, e)
				polarityInto(pol, Not(b))
				k.add(e)
			}
		}
	}
	witnesses()
	// definitions of recursive functions, for the arguments at hand
	fixDone := map[*Term]bool{}
	unfold := func() {
		var names []string
		for n := range k.apps {
			if _, ok := fixes[n]; ok {
				names = append(names, n)
			}
		}
		sort.Strings(names)
		var es []*Term
		for _, n := range names {
			d := fixes[n]
			for _, a := range k.apps[n] {
				if fixDone[a] || len(fixDone) > 60 {
					continue
				}
				fixDone[a] = true
				es = append(es, Eq(a, subst(d.body, d.bv, a.args[0], map[*Term]*Term{})))
			}
		}
		for _, e := range es {
			extra = append(extra, e)
			polarityInto(pol, e)
			k.add(e)
		}
	}
	if hasF {
		unfold()
		if rounds > 1 || len(fixDone) <= 8 {
			unfold()
		}
	}
	prim := map[string][]*Term{}
	for n := range k.apps {
		if _, ok := counts[n]; ok {
			prim[n] = append([]*Term(nil), k.apps[n]...)
		}
	}
	n0 := len(extra)
	for n := range k.apps {
		if nested[n] != nil {
			rounds++
			break
		}
	}
	for r := 0; r < rounds; r++ {
		for _, a := range append([]*Term(nil), k.atoms...) {
			if p, ok := pol[a]; ok && p&1 == 0 {
				continue
			}
			q := quants[a]
			if !bounds[a] {
				bounds[a] = true
				inst(a, q.lo)
				inst(a, Sub(q.hi, BV(64, 1)))
				// the reads of the goal may be in conditional places that
				// the patterns do not match
				if len(sks) <= 4 && len(k.atoms) <= 16 {
					for _, s := range sks {
						inst(a, s)
					}
				}
			}
			ps, ok := pats[a]
			if !ok {
				ps = patterns(q)
				pats[a] = ps
			}
			for _, p := range ps {
				if p.obj == nil {
					for _, g := range prim[p.name] {
						if m := matchIdx(p, g.args[0]); m != nil && len(extra) <= 6000 {
							inst(a, m)
						}
					}
					continue
				}
				for _, g := range k.apps[p.name] {
					if len(g.args) != 2 || objEq(g.args[0], p.obj) == tFalse {
						continue
					}
					if len(extra) > 6000 {
						break
					}
					if m := matchIdx(p, g.args[1]); m != nil {
						inst(a, m)
					}
				}
			}
		}
		if len(extra) == n0 {
			break
		}
		for _, e := range extra[n0:] {
			k.add(e)
		}
		n0 = len(extra)
		polarityInto(pol, insts...)
		insts = nil
		witnesses()
	}
	if hasC {
		extra = instCounts(prim, done, extra)
	}
	return extra
}

// ---- SMT-LIB output

func smtSort(w int) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func smtName(s string) string {
	return "|" + strings.ReplaceAll(strings.ReplaceAll(s, "|", "!"), "\\", "!") + "|"
}

func smtConst(t *Term) string {
	if t.w == 0 {
		if t.val == 1 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("(_ bv%d %d)", t.val, t.w)
}

func writeSMT(fs []*Term, wantModel []*Term, models bool) string {
	var b bytes.Buffer
	b.WriteString("(set-logic QF_UFBV)\n")
	if models {
		b.WriteString("(set-option :produce-models true)\n")
	}
	decl := map[string]bool{}
	var order []*Term
	seen := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			visit(a)
		}
		order = append(order, t)
	}
	for _, f := range fs {
		visit(f)
	}
	for _, f := range wantModel {
		visit(f)
	}
	ref := func(t *Term) string {
		switch t.op {
		case OConst:
			return smtConst(t)
		case OVar:
			return smtName(t.name)
		}
		return fmt.Sprintf("t%d", t.id)
	}
	for _, t := range order {
		if t.op == OVar {
			if !decl[t.name] {
				decl[t.name] = true
				fmt.Fprintf(&b, "(declare-const %s %s)\n", smtName(t.name), smtSort(t.w))
			}
			continue
		}
		if t.op == OApp && !decl["f"+t.name] {
			decl["f"+t.name] = true
			var ss []string
			for _, a := range t.args {
				ss = append(ss, smtSort(a.w))
			}
			fmt.Fprintf(&b, "(declare-fun %s (%s) %s)\n", smtName(t.name), strings.Join(ss, " "), smtSort(t.w))
		}
	}
	for _, t := range order {
		if t.op == OConst || t.op == OVar {
			continue
		}
		var e string
		as := make([]string, len(t.args))
		for i, a := range t.args {
			as[i] = ref(a)
		}
		bin := func(op string) string {
			r := as[0]
			for _, a := range as[1:] {
				r = "(" + op + " " + r + " " + a + ")"
			}
			return r
		}
		switch t.op {
		case OApp:
			if len(as) == 0 {
				e = smtName(t.name)
			} else {
				e = "(" + smtName(t.name) + " " + strings.Join(as, " ") + ")"
			}
		case ONot:
			e = "(not " + as[0] + ")"
		case OAnd:
			e = bin("and")
		case OOr:
			e = bin("or")
		case OEq:
			e = bin("=")
		case OIte:
			e = "(ite " + strings.Join(as, " ") + ")"
		case OAdd:
			if t.val != 0 {
				as = append(as, fmt.Sprintf("(_ bv%d %d)", t.val, t.w))
			}
			e = bin("bvadd")
		case OMulC:
			if t.val == mask(t.w) {
				e = "(bvneg " + as[0] + ")"
			} else {
				e = fmt.Sprintf("(bvmul (_ bv%d %d) %s)", t.val, t.w, as[0])
			}
		case OMul:
			e = bin("bvmul")
		case OUDiv:
			e = bin("bvudiv")
		case OURem:
			e = bin("bvurem")
		case OSDiv:
			e = bin("bvsdiv")
		case OSRem:
			e = bin("bvsrem")
		case OBAnd:
			e = bin("bvand")
		case OBOr:
			e = bin("bvor")
		case OBXor:
			e = bin("bvxor")
		case OBNot:
			e = "(bvnot " + as[0] + ")"
		case OShl:
			e = bin("bvshl")
		case OLshr:
			e = bin("bvlshr")
		case OAshr:
			e = bin("bvashr")
		case OUlt:
			e = bin("bvult")
		case OSlt:
			e = bin("bvslt")
		case OConcat:
			e = bin("concat")
		case OExtract:
			e = fmt.Sprintf("((_ extract %d %d) %s)", t.val>>8, t.val&0xff, as[0])
		case OSext:
			e = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.args[0].w, as[0])
		}
		fmt.Fprintf(&b, "(define-fun t%d () %s %s)\n", t.id, smtSort(t.w), e)
	}
	for _, f := range fs {
		fmt.Fprintf(&b, "(assert %s)\n", ref(f))
	}
	b.WriteString("(check-sat)\n")
	if models && len(wantModel) > 0 {
		b.WriteString("(get-value (")
		for _, t := range wantModel {
			b.WriteString(ref(t) + " ")
		}
		b.WriteString("))\n")
	}
	return b.String()
}

// ---- solver processes

type solverSpec struct {
	name string
	args func(file string, sec int) []string
}

var solvers = map[string]solverSpec{
	"z3":     {"z3", func(f string, s int) []string { return []string{"z3", fmt.Sprintf("-T:%d", s), f} }},
	"z3-new": {"z3-new", func(f string, s int) []string { return []string{"z3-new", fmt.Sprintf("-T:%d", s), f} }},
	"cvc5": {"cvc5", func(f string, s int) []string {
		return []string{"cvc5", "--tlimit=" + strconv.Itoa(s*1000), "--produce-models", f}
	}},
}

var (
	tmpDir     string
	queryN     int64
	solverTime int64 // ns, accumulated
	solverUse  sync.Map
	sem        = make(chan struct{}, 8)
)

type result struct {
	status string // unsat sat unknown
	solver string
	out    string
	dur    time.Duration
}

func runSolver(ctx context.Context, name, smt string, sec int) result {
	n := atomic.AddInt64(&queryN, 1)
	file := filepath.Join(tmpDir, fmt.Sprintf("q%d.smt2", n))
	if err := os.WriteFile(file, []byte(smt), 0o644); err != nil {
		return result{status: "unknown", out: err.Error()}
	}
	defer func() {
		if os.Getenv("GOVER_KEEP") == "" {
			os.Remove(file)
		}
	}()
	release := slot()
	defer release()
	if ctx.Err() != nil {
		return result{status: "unknown"}
	}
	t0 := time.Now()
	cctx, cancel := context.WithTimeout(ctx, time.Duration(sec+2)*time.Second)
	defer cancel()
	a := solvers[name].args(file, sec)
	cmd := exec.CommandContext(cctx, a[0], a[1:]...)
	out, _ := cmd.Output()
	d := time.Since(t0)
	atomic.AddInt64(&solverTime, int64(d))
	s := string(out)
	st := "unknown"
	first := s
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		first = s[:i]
	}
	switch strings.TrimSpace(first) {
	case "unsat":
		st = "unsat"
	case "sat":
		st = "sat"
	default:
		if strings.Contains(s, "error") && debug {
			fmt.Println("SOLVER ERROR", name, file, s[:min(len(s), 300)])
		}
	}
	return result{st, name, s, d}
}

// check decides satisfiability of the conjunction, with a portfolio.
func check(fs []*Term, want []*Term, sec int) result {
	for _, f := range fs {
		if f == tFalse {
			return result{status: "unsat", solver: "simplifier"}
		}
	}
	smt := writeSMT(fs, want, true)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	quick := min(sec, 3)
	r := runSolver(ctx, "z3-new", smt, quick)
	if r.status != "unknown" || sec <= quick {
		return r
	}
	names := []string{"z3-new", "cvc5", "z3"}
	ch := make(chan result, len(names))
	for _, n := range names {
		go func(n string) { ch <- runSolver(ctx, n, smt, sec) }(n)
	}
	var last result
	for range names {
		r := <-ch
		if r.status != "unknown" {
			return r
		}
		last = r
	}
	return last
}

// relevant keeps the assumptions connected with the goals.
func relevant(ass []*Term, goals []*Term) []*Term {
	if len(ass) < 20 {
		return ass
	}
	symsOf := func(t *Term) []int { return termSyms(t) }
	have := map[int]bool{}
	for _, g := range goals {
		for _, s := range symsOf(g) {
			have[s] = true
		}
	}
	used := make([]bool, len(ass))
	for {
		ch := false
		for i, a := range ass {
			if used[i] {
				continue
			}
			ss := symsOf(a)
			hit := len(ss) == 0
			for _, s := range ss {
				if have[s] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				ch = true
				for _, s := range ss {
					have[s] = true
				}
			}
		}
		if !ch {
			break
		}
	}
	var out []*Term
	for i, a := range ass {
		if used[i] {
			out = append(out, a)
		}
	}
	return out
}

var symMemo = map[*Term][]int{}
var symMu sync.Mutex

// termSyms: ids of variables and application terms (quantified atoms pull in everything they mention by name).
func termSyms(t *Term) []int {
	symMu.Lock()
	defer symMu.Unlock()
	if s, ok := symMemo[t]; ok {
		return s
	}
	set := map[int]bool{}
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OVar || t.op == OApp {
			set[t.id] = true
			if q, ok := quants[t]; ok {
				rec(q.body)
				rec(q.lo)
				rec(q.hi)
			}
			if d, ok := counts[t.name]; ok && t.op == OApp {
				rec(d.body)
			}
			if d, ok := fixes[t.name]; ok && t.op == OApp {
				rec(d.body)
			}
			if d, ok := nested[t.name]; ok && t.op == OApp {
				rec(d.q.lo)
				rec(d.q.hi)
				rec(d.q.body)
			}
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(t)
	var out []int
	for i := range set {
		out = append(out, i)
	}
	sort.Ints(out)
	symMemo[t] = out
	return out
}

func sortStrings(s []string) { sort.Strings(s) }

// checkSMT runs the portfolio on a prepared query.
func checkSMT(smt string, sec int) result {
	return checkBoth(context.Background(), smt, "", sec, false)
}

// checkBoth decides a query with a portfolio; lia, unless empty, is its statement over the integers,
// of which only "unsat" counts.
func checkBoth(ctx context.Context, smt, lia string, sec int, liaFirst bool) result {
	ctx, cancel := context.WithCancel(ctx)
	defer cancel()
	quick := min(sec, 3)
	runLIA := func(name string, sec int) result {
		r := runSolver(ctx, name, lia, sec)
		r.solver += " (integers)"
		if r.status != "unsat" {
			r.status = "unknown"
		} else if liaCheck {
			if b := runSolver(context.Background(), "z3-new", smt, 20); b.status == "sat" {
				f := fmt.Sprintf("%s/liabug%d", os.Getenv("GOVER_LIACHECK"), atomic.AddInt64(&queryN, 1))
				_ = os.WriteFile(f+".bv.smt2", []byte(smt), 0o644)
				_ = os.WriteFile(f+".lia.smt2", []byte(lia), 0o644)
				fmt.Println("LIA MISMATCH", f)
			}
		}
		return r
	}
	var ra result
	pre := make(chan result, 2)
	np := 1
	go func() { pre <- runSolver(ctx, "z3-new", smt, quick) }()
	if lia != "" && (liaFirst || sec > quick) {
		np++
		go func() { pre <- runLIA("z3-new", quick) }()
	}
	for i := 0; i < np; i++ {
		r := <-pre
		if r.status != "unknown" {
			return r
		}
		ra = r
	}
	if sec <= quick {
		return ra
	}
	names := []string{"z3-new", "cvc5", "z3"}
	ch := make(chan result, 8)
	total := len(names)
	for _, n := range names {
		go func(n string) { ch <- runSolver(ctx, n, smt, sec) }(n)
	}
	if lia != "" {
		total += 2
		go func() { ch <- runLIA("z3-new", sec) }()
		go func() { ch <- runLIA("cvc5", sec) }()
	}
	var last result
	for i := 0; i < total; i++ {
		r := <-ch
		if r.status != "unknown" {
			return r
		}
		last = r
	}
	return last
}

var liaCheck = os.Getenv("GOVER_LIACHECK") != ""
