package main

import (
	"bytes"
	"fmt"
	"math/big"
	"strings"
)

// A query over fixed-width arithmetic is also stated over the integers: 64-bit values as their signed
// value, narrower ones as their unsigned value; sums carry an explicit multiple of 2^w unless the
// ranges asserted by the query exclude it, and operations without an integer counterpart are replaced
// by unconstrained values. Every model of the original is a model of the translation: "unsat"
// carries over, other answers are not used.

type ival struct{ lo, hi *big.Int }

func bi(v int64) *big.Int { return big.NewInt(v) }

func pow2(n int) *big.Int { return new(big.Int).Lsh(bi(1), uint(n)) }

func typeRange(w int) ival {
	if w == 64 {
		return ival{new(big.Int).Neg(pow2(63)), new(big.Int).Sub(pow2(63), bi(1))}
	}
	return ival{bi(0), new(big.Int).Sub(pow2(w), bi(1))}
}

func constInt(v uint64, w int) *big.Int {
	if w == 64 {
		return bi(int64(v))
	}
	return new(big.Int).SetUint64(v)
}

func bmin(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}

func bmax(a, b *big.Int) *big.Int {
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

func (v ival) within(o ival) bool { return v.lo.Cmp(o.lo) >= 0 && v.hi.Cmp(o.hi) <= 0 }
func (v ival) empty() bool        { return v.lo.Cmp(v.hi) > 0 }

type liaGen struct {
	b     bytes.Buffer
	body  bytes.Buffer
	bound map[*Term]ival
	memo  map[*Term]ival
	done  map[*Term]string
	decl  map[string]bool
	n     int
}

func (g *liaGen) meet(t *Term, v ival) bool {
	o, ok := g.bound[t]
	if !ok {
		o = typeRange(t.w)
	}
	n := ival{bmax(o.lo, v.lo), bmin(o.hi, v.hi)}
	if n.empty() {
		return false // contradictory query; leave it to the solver
	}
	if ok && n.lo.Cmp(o.lo) == 0 && n.hi.Cmp(o.hi) == 0 {
		return false
	}
	g.bound[t] = n
	return true
}

// iv is a range of the value of t, from its structure and the ranges the query asserts.
func (g *liaGen) iv(t *Term) ival {
	if v, ok := g.memo[t]; ok {
		return v
	}
	v := g.iv0(t)
	if b, ok := g.bound[t]; ok {
		n := ival{bmax(v.lo, b.lo), bmin(v.hi, b.hi)}
		if !n.empty() {
			v = n
		}
	}
	g.memo[t] = v
	return v
}

func mulc(c *big.Int, v ival) ival {
	a, b := new(big.Int).Mul(c, v.lo), new(big.Int).Mul(c, v.hi)
	return ival{bmin(a, b), bmax(a, b)}
}

// sum is the range of a sum computed without wrapping.
func (g *liaGen) sum(t *Term) ival {
	c := constInt(t.val, t.w)
	if t.w < 64 && t.val >= uint64(1)<<(t.w-1) {
		c = new(big.Int).Sub(c, pow2(t.w))
	}
	r := ival{c, c}
	for _, a := range t.args {
		v := g.iv(a)
		if a.op == OMulC {
			v = g.mulcIv(a)
		}
		r = ival{new(big.Int).Add(r.lo, v.lo), new(big.Int).Add(r.hi, v.hi)}
	}
	return r
}

// mulcIv is the range of a constant multiple, not reduced to the width.
func (g *liaGen) mulcIv(t *Term) ival {
	return mulc(mulConst(t), g.iv(t.args[0]))
}

func mulConst(t *Term) *big.Int {
	c := constInt(t.val, t.w)
	if t.w < 64 && t.val >= uint64(1)<<(t.w-1) {
		c = new(big.Int).Sub(c, pow2(t.w))
	}
	return c
}

func (g *liaGen) iv0(t *Term) ival {
	full := typeRange(t.w)
	fit := func(v ival) ival {
		if v.within(full) {
			return v
		}
		return full
	}
	switch t.op {
	case OConst:
		c := constInt(t.val, t.w)
		return ival{c, c}
	case OIte:
		a, b := g.iv(t.args[1]), g.iv(t.args[2])
		return ival{bmin(a.lo, b.lo), bmax(a.hi, b.hi)}
	case OAdd:
		return fit(g.sum(t))
	case OMulC:
		return fit(g.mulcIv(t))
	case OConcat:
		return fit(g.concatIv(t))
	case OExtract:
		hi, lo := int(t.val>>8), int(t.val&0xff)
		x := g.iv(t.args[0])
		if lo == 0 && x.lo.Sign() >= 0 && x.hi.Cmp(pow2(hi+1)) < 0 && hi < 63 {
			return fit(x)
		}
		if x.lo.Sign() >= 0 && hi == t.args[0].w-1 && t.w < 64 {
			return fit(ival{new(big.Int).Rsh(x.lo, uint(lo)), new(big.Int).Rsh(x.hi, uint(lo))})
		}
	case OSext:
		w0 := t.args[0].w
		x := g.iv(t.args[0])
		if x.hi.Cmp(pow2(w0-1)) < 0 {
			return fit(x)
		}
		if t.w == 64 {
			return ival{new(big.Int).Neg(pow2(w0 - 1)), new(big.Int).Sub(pow2(w0-1), bi(1))}
		}
	case OUDiv, OSDiv:
		x := g.iv(t.args[0])
		if x.lo.Sign() >= 0 && t.args[1].isConst() && g.iv(t.args[1]).lo.Sign() > 0 && (t.op == OUDiv || t.w == 64) {
			c := g.iv(t.args[1]).lo
			return ival{new(big.Int).Quo(x.lo, c), new(big.Int).Quo(x.hi, c)}
		}
	case OURem, OSRem:
		x := g.iv(t.args[0])
		if x.lo.Sign() >= 0 && t.args[1].isConst() && g.iv(t.args[1]).lo.Sign() > 0 && (t.op == OURem || t.w == 64) {
			c := g.iv(t.args[1]).lo
			return ival{bi(0), bmin(x.hi, new(big.Int).Sub(c, bi(1)))}
		}
	case OBAnd:
		for i := 0; i < 2; i++ {
			if x := g.iv(t.args[i]); x.lo.Sign() >= 0 {
				return ival{bi(0), x.hi}
			}
		}
	case OLshr:
		if x := g.iv(t.args[0]); x.lo.Sign() >= 0 {
			return ival{bi(0), x.hi}
		}
	}
	return full
}

func (g *liaGen) concatIv(t *Term) ival {
	r := ival{bi(0), bi(0)}
	for _, a := range t.args {
		v := g.iv(a)
		if a.w == 64 || v.lo.Sign() < 0 {
			return typeRange(t.w)
		}
		r = ival{new(big.Int).Add(new(big.Int).Lsh(r.lo, uint(a.w)), v.lo), new(big.Int).Add(new(big.Int).Lsh(r.hi, uint(a.w)), v.hi)}
	}
	return r
}

// learn collects the ranges that the literals of the query assert.
func (g *liaGen) learn(fs []*Term) {
	var lits []*Term
	var add func(t *Term)
	add = func(t *Term) {
		switch {
		case t.op == OAnd:
			add(t.args[0])
			add(t.args[1])
		case t.op == ONot && t.args[0].op == OOr:
			add(Not(t.args[0].args[0]))
			add(Not(t.args[0].args[1]))
		default:
			lits = append(lits, t)
		}
	}
	for _, f := range fs {
		add(f)
	}
	one := bi(1)
	for it := 0; it < 5; it++ {
		ch := false
		g.memo = map[*Term]ival{}
		for _, l := range lits {
			n := l.op == ONot
			x := l
			if n {
				x = l.args[0]
			}
			if len(x.args) != 2 || x.args[0].w == 0 {
				continue
			}
			a, b := x.args[0], x.args[1]
			va, vb := g.iv(a), g.iv(b)
			full := typeRange(a.w)
			sub1 := func(v *big.Int) *big.Int { return new(big.Int).Sub(v, one) }
			add1 := func(v *big.Int) *big.Int { return new(big.Int).Add(v, one) }
			switch {
			case x.op == OEq && !n:
				ch = g.meet(a, vb) || ch
				ch = g.meet(b, va) || ch
			case x.op == OSlt && a.w == 64 && !n:
				ch = g.meet(a, ival{full.lo, sub1(vb.hi)}) || ch
				ch = g.meet(b, ival{add1(va.lo), full.hi}) || ch
			case x.op == OSlt && a.w == 64 && n: // b <= a
				ch = g.meet(b, ival{full.lo, va.hi}) || ch
				ch = g.meet(a, ival{vb.lo, full.hi}) || ch
			case x.op == OUlt && !n && vb.lo.Sign() >= 0:
				ch = g.meet(a, ival{bi(0), sub1(vb.hi)}) || ch
				if va.lo.Sign() >= 0 {
					ch = g.meet(b, ival{add1(va.lo), full.hi}) || ch
				}
			case x.op == OUlt && n && va.lo.Sign() >= 0: // b <= a
				ch = g.meet(b, ival{bi(0), va.hi}) || ch
				if vb.lo.Sign() >= 0 {
					ch = g.meet(a, ival{vb.lo, full.hi}) || ch
				}
			}
		}
		if !ch {
			break
		}
	}
	g.memo = map[*Term]ival{}
}

func num(v *big.Int) string {
	if v.Sign() < 0 {
		return "(- " + new(big.Int).Neg(v).String() + ")"
	}
	return v.String()
}

func (g *liaGen) assert(f string, a ...any) {
	fmt.Fprintf(&g.body, "(assert "+f+")\n", a...)
}

func (g *liaGen) fresh(w int, iv ival) string {
	g.n++
	n := fmt.Sprintf("x%d", g.n)
	fmt.Fprintf(&g.body, "(declare-const %s Int)\n", n)
	g.assert("(and (<= %s %s) (<= %s %s))", num(iv.lo), n, n, num(iv.hi))
	return n
}

// reduce brings the integer expression e, within v, into the range of the width.
func (g *liaGen) reduce(e string, v ival, w int) string {
	full := typeRange(w)
	if v.within(full) {
		return e
	}
	r := g.fresh(w, full)
	m := pow2(w)
	lo := new(big.Int).Sub(new(big.Int).Div(new(big.Int).Sub(v.lo, full.lo), m), bi(1))
	hi := new(big.Int).Add(new(big.Int).Div(new(big.Int).Sub(v.hi, full.lo), m), bi(1))
	k := g.fresh(64, ival{lo, hi})
	g.assert("(= %s (+ %s (* %s %s)))", e, r, m, k)
	return r
}

func (g *liaGen) ref(t *Term) string {
	if s, ok := g.done[t]; ok {
		return s
	}
	s := g.ref0(t)
	if t.op != OConst && t.op != OVar && len(s) > 24 {
		g.n++
		n := fmt.Sprintf("t%d", g.n)
		so := "Int"
		if t.w == 0 {
			so = "Bool"
		}
		fmt.Fprintf(&g.body, "(define-fun %s () %s %s)\n", n, so, s)
		s = n
	}
	g.done[t] = s
	return s
}

func (g *liaGen) signed(t *Term) string {
	s := g.ref(t)
	if t.w == 64 || g.iv(t).hi.Cmp(pow2(t.w-1)) < 0 {
		return s
	}
	return fmt.Sprintf("(ite (< %s %s) %s (- %s %s))", s, pow2(t.w-1), s, s, pow2(t.w))
}

func (g *liaGen) ref0(t *Term) string {
	if t.w == 0 {
		switch t.op {
		case OConst:
			if t.val == 1 {
				return "true"
			}
			return "false"
		case OVar:
			n := smtName(t.name)
			if !g.decl[n] {
				g.decl[n] = true
				fmt.Fprintf(&g.body, "(declare-const %s Bool)\n", n)
			}
			return n
		case ONot:
			return "(not " + g.ref(t.args[0]) + ")"
		case OAnd:
			return "(and " + g.ref(t.args[0]) + " " + g.ref(t.args[1]) + ")"
		case OOr:
			return "(or " + g.ref(t.args[0]) + " " + g.ref(t.args[1]) + ")"
		case OEq:
			return "(= " + g.ref(t.args[0]) + " " + g.ref(t.args[1]) + ")"
		case OIte:
			return "(ite " + g.ref(t.args[0]) + " " + g.ref(t.args[1]) + " " + g.ref(t.args[2]) + ")"
		case OSlt:
			return "(< " + g.signed(t.args[0]) + " " + g.signed(t.args[1]) + ")"
		case OUlt:
			a, b := t.args[0], t.args[1]
			x, y := g.ref(a), g.ref(b)
			if a.w < 64 {
				return "(< " + x + " " + y + ")"
			}
			an, bn := g.iv(a).lo.Sign() >= 0, g.iv(b).lo.Sign() >= 0
			switch {
			case an && bn:
				return "(< " + x + " " + y + ")"
			case bn: // a negative a is above everything
				return fmt.Sprintf("(and (<= 0 %s) (< %s %s))", x, x, y)
			case an:
				return fmt.Sprintf("(or (< %s 0) (< %s %s))", y, x, y)
			}
			return fmt.Sprintf("(ite (= (< %s 0) (< %s 0)) (< %s %s) (< %s 0))", x, y, x, y, y)
		case OApp:
			return g.app(t, "Bool")
		}
		g.n++
		n := fmt.Sprintf("b%d", g.n)
		fmt.Fprintf(&g.body, "(declare-const %s Bool)\n", n)
		return n
	}
	switch t.op {
	case OConst:
		return num(constInt(t.val, t.w))
	case OVar:
		n := smtName(t.name)
		if !g.decl[n] {
			g.decl[n] = true
			r := typeRange(t.w)
			fmt.Fprintf(&g.body, "(declare-const %s Int)\n", n)
			g.assert("(and (<= %s %s) (<= %s %s))", num(r.lo), n, n, num(r.hi))
		}
		return n
	case OApp:
		s := g.app(t, "Int")
		r := typeRange(t.w)
		g.assert("(and (<= %s %s) (<= %s %s))", num(r.lo), s, s, num(r.hi))
		return s
	case OIte:
		return "(ite " + g.ref(t.args[0]) + " " + g.ref(t.args[1]) + " " + g.ref(t.args[2]) + ")"
	case OAdd:
		c := new(big.Int).Set(mulConst(t))
		ss := []string{}
		if c.Sign() != 0 {
			ss = append(ss, num(c))
		}
		for _, a := range t.args {
			if a.op == OMulC {
				ss = append(ss, fmt.Sprintf("(* %s %s)", num(mulConst(a)), g.ref(a.args[0])))
			} else {
				ss = append(ss, g.ref(a))
			}
		}
		e := ss[0]
		if len(ss) > 1 {
			e = "(+ " + strings.Join(ss, " ") + ")"
		}
		return g.reduce(e, g.sum(t), t.w)
	case OMulC:
		return g.reduce(fmt.Sprintf("(* %s %s)", num(mulConst(t)), g.ref(t.args[0])), g.mulcIv(t), t.w)
	case OConcat:
		v := ival{bi(0), bi(0)}
		e := "0"
		for _, a := range t.args {
			x := g.iv(a)
			if a.w == 64 || x.lo.Sign() < 0 {
				return g.fresh(t.w, typeRange(t.w))
			}
			v = ival{new(big.Int).Add(new(big.Int).Lsh(v.lo, uint(a.w)), x.lo), new(big.Int).Add(new(big.Int).Lsh(v.hi, uint(a.w)), x.hi)}
			if e == "0" {
				e = g.ref(a)
			} else {
				e = fmt.Sprintf("(+ (* %s %s) %s)", pow2(a.w), e, g.ref(a))
			}
		}
		return g.reduce(e, v, t.w)
	case OExtract:
		hi, lo := int(t.val>>8), int(t.val&0xff)
		a := t.args[0]
		x := g.iv(a)
		if lo == 0 && hi < 63 && x.lo.Sign() >= 0 && x.hi.Cmp(pow2(hi+1)) < 0 {
			return g.ref(a)
		}
		if t.w >= 64 {
			break
		}
		y := g.fresh(t.w, typeRange(t.w))
		q := g.fresh(64, ival{new(big.Int).Sub(new(big.Int).Div(x.lo, pow2(hi+1)), bi(1)), new(big.Int).Add(new(big.Int).Div(x.hi, pow2(hi+1)), bi(1))})
		e := fmt.Sprintf("(+ (* %s %s) (* %s %s)", pow2(hi+1), q, pow2(lo), y)
		if lo > 0 {
			e += " " + g.fresh(64, ival{bi(0), new(big.Int).Sub(pow2(lo), bi(1))})
		}
		g.assert("(= %s %s))", g.ref(a), e)
		return y
	case OSext:
		if t.w == 64 || g.iv(t.args[0]).hi.Cmp(pow2(t.args[0].w-1)) < 0 {
			return g.signed(t.args[0])
		}
	case OUDiv, OURem, OSDiv, OSRem:
		x := g.iv(t.args[0])
		if t.args[1].isConst() && x.lo.Sign() >= 0 && ((t.op == OUDiv || t.op == OURem) || t.w == 64) {
			c := g.iv(t.args[1]).lo
			if c.Sign() > 0 {
				q := g.fresh(64, ival{bi(0), new(big.Int).Quo(x.hi, c)})
				r := g.fresh(64, ival{bi(0), new(big.Int).Sub(c, bi(1))})
				g.assert("(= %s (+ (* %s %s) %s))", g.ref(t.args[0]), c, q, r)
				if t.op == OUDiv || t.op == OSDiv {
					return q
				}
				return r
			}
		}
	}
	for _, a := range t.args {
		g.ref(a)
	}
	return g.fresh(t.w, g.iv(t))
}

func (g *liaGen) app(t *Term, so string) string {
	n := smtName(t.name)
	as := make([]string, len(t.args))
	for i, a := range t.args {
		as[i] = g.ref(a)
	}
	if !g.decl[n] {
		g.decl[n] = true
		ss := make([]string, len(t.args))
		for i, a := range t.args {
			ss[i] = "Int"
			if a.w == 0 {
				ss[i] = "Bool"
			}
		}
		fmt.Fprintf(&g.body, "(declare-fun %s (%s) %s)\n", n, strings.Join(ss, " "), so)
	}
	if len(as) == 0 {
		return n
	}
	return "(" + n + " " + strings.Join(as, " ") + ")"
}

// writeLIA states fs over the integers.
func writeLIA(fs []*Term) string {
	g := &liaGen{bound: map[*Term]ival{}, memo: map[*Term]ival{}, done: map[*Term]string{}, decl: map[string]bool{}}
	g.learn(fs)
	for _, f := range fs {
		s := g.ref(f)
		g.assert("%s", s)
	}
	g.body.WriteString("(check-sat)\n")
	return "(set-logic QF_UFLIA)\n" + g.body.String()
}
