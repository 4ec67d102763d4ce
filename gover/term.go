package main

import (
	"encoding/binary"
	"fmt"
	"math/bits"
	"sort"
)

// Hash-consed bit-vector terms. Width 0 is Bool; widths above 64 only occur for
// non-constant concatenations.

type Op uint8

const (
	OConst Op = iota
	OVar
	OApp // uninterpreted function application
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd  // val + sum of args (monomials)
	OMulC // val * args[0]
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	OShl
	OLshr
	OAshr
	OUlt
	OSlt
	OConcat  // args from most significant
	OExtract // val = hi<<8|lo
	OSext
	OQuant // quantified boolean atom, see quant.go
)

type Term struct {
	op   Op
	w    int
	val  uint64
	name string
	args []*Term
	id   int
	// cached facts
	umaxOK bool
	umaxV  uint64
	free   bool // contains a bound variable
}

var (
	termTab  = map[string]*Term{}
	termList []*Term
	keybuf   []byte
)

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func mk(op Op, w int, val uint64, name string, args ...*Term) *Term {
	b := keybuf[:0]
	b = append(b, byte(op), byte(w))
	if op == OConst || op == OAdd || op == OMulC || op == OExtract || val != 0 {
		b = binary.LittleEndian.AppendUint64(b, val)
	}
	for _, a := range args {
		b = binary.LittleEndian.AppendUint32(b, uint32(a.id))
	}
	if name != "" {
		b = append(b, 0xff)
		b = append(b, name...)
	}
	keybuf = b
	if t, ok := termTab[string(b)]; ok {
		return t
	}
	t := &Term{op: op, w: w, val: val, name: name, args: append([]*Term(nil), args...), id: len(termList)}
	if op == OVar && len(name) > 0 && name[0] == '?' {
		t.free = true
	}
	for _, a := range args {
		if a.free {
			t.free = true
		}
	}
	termTab[string(b)] = t
	termList = append(termList, t)
	return t
}

var (
	tTrue  = mk(OConst, 0, 1, "")
	tFalse = mk(OConst, 0, 0, "")
)

func BV(w int, v uint64) *Term { return mk(OConst, w, v&mask(w), "") }
func I64(v int64) *Term        { return BV(64, uint64(v)) }
func Bool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

var freshN = map[string]int{}

func Fresh(prefix string, w int) *Term {
	freshN[prefix]++
	return mk(OVar, w, 0, fmt.Sprintf("%s!%d", prefix, freshN[prefix]))
}

func Var(name string, w int) *Term { return mk(OVar, w, 0, name) }

func (t *Term) isConst() bool { return t.op == OConst }

func sx(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := uint(64 - w)
	return int64(v<<s) >> s
}

// ---- booleans

func Not(a *Term) *Term {
	switch a.op {
	case OConst:
		return Bool(a.val == 0)
	case ONot:
		return a.args[0]
	}
	return mk(ONot, 0, 0, "", a)
}

func neg(a, b *Term) bool {
	return (a.op == ONot && a.args[0] == b) || (b.op == ONot && b.args[0] == a)
}

// And is binary and left-associated on purpose: path conditions share prefixes.
func And(ts ...*Term) *Term {
	r := tTrue
	for _, t := range ts {
		r = and2(r, t)
	}
	return r
}

func and2(a, b *Term) *Term {
	if a == tFalse || b == tFalse {
		return tFalse
	}
	if a == tTrue || a == b {
		return b
	}
	if b == tTrue {
		return a
	}
	if neg(a, b) {
		return tFalse
	}
	// walk the left spine of a for b or not b (bounded)
	x := a
	for i := 0; i < 64 && x.op == OAnd; i++ {
		if x.args[1] == b || x.args[0] == b {
			return a
		}
		if neg(x.args[1], b) || neg(x.args[0], b) {
			return tFalse
		}
		x = x.args[0]
	}
	if b.op == OAnd && (b.args[0] == a || b.args[1] == a) {
		return b
	}
	return mk(OAnd, 0, 0, "", a, b)
}

func Or(ts ...*Term) *Term {
	r := tFalse
	for _, t := range ts {
		r = or2(r, t)
	}
	return r
}

func or2(a, b *Term) *Term {
	if a == tTrue || b == tTrue {
		return tTrue
	}
	if a == tFalse || a == b {
		return b
	}
	if b == tFalse {
		return a
	}
	if neg(a, b) {
		return tTrue
	}
	if a.op == OAnd && b.op == OAnd {
		if a.args[0] == b.args[0] {
			return and2(a.args[0], or2(a.args[1], b.args[1]))
		}
		if a.args[1] == b.args[1] {
			return and2(or2(a.args[0], b.args[0]), a.args[1])
		}
	}
	if a.op == OAnd && (a.args[0] == b || a.args[1] == b) {
		return b
	}
	if b.op == OAnd && (b.args[0] == a || b.args[1] == a) {
		return a
	}
	if a.op == OAnd {
		if neg(a.args[0], b) {
			return or2(b, a.args[1])
		}
		if neg(a.args[1], b) {
			return or2(a.args[0], b)
		}
	}
	if b.op == OAnd {
		if neg(b.args[0], a) {
			return or2(a, b.args[1])
		}
		if neg(b.args[1], a) {
			return or2(a, b.args[0])
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OOr, 0, 0, "", a, b)
}

func Implies(a, b *Term) *Term { return or2(Not(a), b) }

// orList merges path conditions, exploiting complementary pairs.
func orList(ts []*Term) *Term {
	l := append([]*Term(nil), ts...)
	for {
		changed := false
		for i := len(l) - 1; i > 0 && !changed; i-- {
			for j := i - 1; j >= 0; j-- {
				a, b := l[j], l[i]
				if a == tFalse {
					l = append(l[:j:j], l[j+1:]...)
					changed = true
					break
				}
				if b == tFalse {
					l = append(l[:i:i], l[i+1:]...)
					changed = true
					break
				}
				o := or2(a, b)
				if o.op != OOr {
					// useful simplification only if it collapses to a prefix
					if (a.op == OAnd && o == a.args[0]) || (b.op == OAnd && o == b.args[0]) || o == a || o == b || o == tTrue {
						l[j] = o
						l = append(l[:i:i], l[i+1:]...)
						changed = true
						break
					}
				}
			}
		}
		if !changed {
			break
		}
	}
	return Or(l...)
}

func Eq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d: %s %s", a.w, b.w, a, b))
	}
	if a.w == 0 {
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFalse {
			return Not(b)
		}
		if b == tFalse {
			return Not(a)
		}
		if neg(a, b) {
			return tFalse
		}
	} else {
		if a.op == OConst && b.op == OConst {
			return Bool(a.val == b.val)
		}
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.val > umax(a) && a.w <= 64 {
				return tFalse
			}
			switch a.op {
			case OIte:
				x, y := Eq(a.args[1], b), Eq(a.args[2], b)
				if x.isConst() || y.isConst() {
					return iteB(a.args[0], x, y)
				}
			case OConcat:
				if a.w <= 64 {
					var cs []*Term
					lo := a.w
					for _, s := range a.args {
						lo -= s.w
						cs = append(cs, Eq(s, BV(s.w, b.val>>uint(lo))))
					}
					return And(cs...)
				}
			case OSext:
				s := a.args[0]
				v := b.val & mask(s.w)
				if uint64(sx(v, s.w))&mask(a.w) == b.val {
					return Eq(s, BV(s.w, v))
				}
				return tFalse
			case OBXor:
				if a.args[1].op == OConst {
					return Eq(a.args[0], BV(a.w, a.args[1].val^b.val))
				}
			case OBNot:
				return Eq(a.args[0], BV(a.w, ^b.val))
			}
		}
		if a.w <= 64 && (a.op == OAdd || b.op == OAdd || a.op == OMulC || b.op == OMulC) {
			d := Sub(a, b)
			if d.op == OConst {
				return Bool(d.val == 0)
			}
			if d.op == OAdd && len(d.args) == 1 {
				// c + k*x == 0
				x := d.args[0]
				if x.op != OMulC {
					return eqRaw(x, BV(a.w, -d.val))
				}
				if x.val == mask(a.w) { // -x
					return eqRaw(x.args[0], BV(a.w, d.val))
				}
			}
			if d.op == OAdd && d.val == 0 && len(d.args) == 2 {
				x, y := d.args[0], d.args[1]
				if x.op == OMulC && x.val == mask(a.w) && y.op != OMulC {
					return eqRaw(x.args[0], y)
				}
				if y.op == OMulC && y.val == mask(a.w) && x.op != OMulC {
					return eqRaw(y.args[0], x)
				}
			}
			// canonical orientation: atoms with positive coefficient left
			return eqRaw(d, BV(a.w, 0))
		}
		if a.op == OConcat && b.op == OConcat && len(a.args) == len(b.args) {
			ok := true
			for i := range a.args {
				if a.args[i].w != b.args[i].w {
					ok = false
				}
			}
			if ok {
				var cs []*Term
				for i := range a.args {
					cs = append(cs, Eq(a.args[i], b.args[i]))
				}
				return And(cs...)
			}
		}
		if a.op == OIte && b.op == OIte && a.args[0] == b.args[0] {
			return iteB(a.args[0], Eq(a.args[1], b.args[1]), Eq(a.args[2], b.args[2]))
		}
		if a.op == OIte && (a.args[1] == b || a.args[2] == b) {
			return iteB(a.args[0], Eq(a.args[1], b), Eq(a.args[2], b))
		}
		if b.op == OIte && (b.args[1] == a || b.args[2] == a) {
			return iteB(b.args[0], Eq(b.args[1], a), Eq(b.args[2], a))
		}
	}
	return eqRaw(a, b)
}

func eqRaw(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.op == OConst && b.op == OConst {
		return Bool(a.val == b.val)
	}
	if b.op == OConst && a.op != OAdd && a.op != OMulC {
		// re-simplify without the linear step
		if b.val > umax(a) && a.w <= 64 {
			return tFalse
		}
		if a.op == OIte || a.op == OConcat || a.op == OSext {
			if a.op != OIte || a.args[1].isConst() || a.args[2].isConst() {
				return Eq(a, b)
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OEq, 0, 0, "", a, b)
}

func iteB(c, a, b *Term) *Term {
	switch {
	case c == tTrue:
		return a
	case c == tFalse:
		return b
	case a == b:
		return a
	case a == tTrue:
		return or2(c, b)
	case a == tFalse:
		return and2(Not(c), b)
	case b == tTrue:
		return or2(Not(c), a)
	case b == tFalse:
		return and2(c, a)
	}
	if c == a {
		return or2(c, b)
	}
	if c == b {
		return and2(c, a)
	}
	if c.op == ONot {
		return mk(OIte, 0, 0, "", c.args[0], b, a)
	}
	return mk(OIte, 0, 0, "", c, a, b)
}

func Ite(c, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("Ite width mismatch %d %d", a.w, b.w))
	}
	if a.w == 0 {
		return iteB(c, a, b)
	}
	if c == tTrue || a == b {
		return a
	}
	if c == tFalse {
		return b
	}
	if c.op == ONot {
		return Ite(c.args[0], b, a)
	}
	if a.op == OIte && a.args[0] == c {
		return Ite(c, a.args[1], b)
	}
	if b.op == OIte && b.args[0] == c {
		return Ite(c, a, b.args[2])
	}
	if b.op == OIte && b.args[1] == a {
		return Ite(or2(c, b.args[0]), a, b.args[2])
	}
	if a.op == OIte && a.args[2] == b {
		return Ite(and2(c, a.args[0]), a.args[1], b)
	}
	return mk(OIte, a.w, 0, "", c, a, b)
}

// ---- linear arithmetic normal form

type lin struct {
	c  uint64
	ms map[*Term]uint64
}

func linAdd(l *lin, t *Term, k uint64) {
	switch t.op {
	case OConst:
		l.c += k * t.val
	case OAdd:
		l.c += k * t.val
		for _, a := range t.args {
			linAdd(l, a, k)
		}
	case OMulC:
		linAdd(l, t.args[0], k*t.val)
	default:
		l.ms[t] += k
	}
}

func linTerm(l *lin, w int) *Term {
	m := mask(w)
	var args []*Term
	for t, k := range l.ms {
		k &= m
		if k == 0 {
			continue
		}
		if k == 1 {
			args = append(args, t)
		} else {
			args = append(args, mk(OMulC, w, k, "", t))
		}
	}
	c := l.c & m
	if len(args) == 0 {
		return BV(w, c)
	}
	if len(args) == 1 && c == 0 {
		return args[0]
	}
	sort.Slice(args, func(i, j int) bool {
		a, b := args[i], args[j]
		if a.op == OMulC {
			a = a.args[0]
		}
		if b.op == OMulC {
			b = b.args[0]
		}
		return a.id < b.id
	})
	return mk(OAdd, w, c, "", args...)
}

func Add(a, b *Term) *Term {
	if a.w != b.w {
		panic("Add width")
	}
	if a.op == OConst && a.val == 0 {
		return b
	}
	if b.op == OConst && b.val == 0 {
		return a
	}
	l := &lin{ms: map[*Term]uint64{}}
	linAdd(l, a, 1)
	linAdd(l, b, 1)
	return linTerm(l, a.w)
}

func Sub(a, b *Term) *Term {
	l := &lin{ms: map[*Term]uint64{}}
	linAdd(l, a, 1)
	linAdd(l, b, ^uint64(0))
	return linTerm(l, a.w)
}

func Neg(a *Term) *Term { return Sub(BV(a.w, 0), a) }

func Mul(a, b *Term) *Term {
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		l := &lin{ms: map[*Term]uint64{}}
		linAdd(l, a, b.val)
		return linTerm(l, a.w)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OMul, a.w, 0, "", a, b)
}

func UDiv(a, b *Term) *Term {
	if b.op == OConst && b.val != 0 {
		if a.op == OConst {
			return BV(a.w, a.val/b.val)
		}
		if b.val&(b.val-1) == 0 {
			return Lshr(a, BV(a.w, uint64(bits.TrailingZeros64(b.val))))
		}
		if umax(a) < b.val {
			return BV(a.w, 0)
		}
	}
	return mk(OUDiv, a.w, 0, "", a, b)
}

func URem(a, b *Term) *Term {
	if b.op == OConst && b.val != 0 {
		if a.op == OConst {
			return BV(a.w, a.val%b.val)
		}
		if b.val&(b.val-1) == 0 {
			return BAnd(a, BV(a.w, b.val-1))
		}
		if umax(a) < b.val {
			return a
		}
	}
	return mk(OURem, a.w, 0, "", a, b)
}

func nonNeg(a *Term) bool { return umax(a) <= mask(a.w)>>1 }

func SDiv(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst && b.val != 0 {
		x, y := sx(a.val, a.w), sx(b.val, b.w)
		if y == -1 {
			return BV(a.w, uint64(-x))
		}
		return BV(a.w, uint64(x/y))
	}
	if b.op == OConst && b.val == 1 {
		return a
	}
	if nonNeg(a) && nonNeg(b) {
		return UDiv(a, b)
	}
	return mk(OSDiv, a.w, 0, "", a, b)
}

func SRem(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst && b.val != 0 {
		x, y := sx(a.val, a.w), sx(b.val, b.w)
		if y == -1 {
			return BV(a.w, 0)
		}
		return BV(a.w, uint64(x%y))
	}
	if nonNeg(a) && nonNeg(b) {
		return URem(a, b)
	}
	return mk(OSRem, a.w, 0, "", a, b)
}

// ---- ranges

func umax(t *Term) uint64 {
	if t.umaxOK {
		return t.umaxV
	}
	m := mask(t.w)
	switch t.op {
	case OConst:
		m = t.val
	case OIte:
		if t.w > 0 {
			a, b := umax(t.args[1]), umax(t.args[2])
			if b > a {
				a = b
			}
			m = a
		}
	case OConcat:
		if t.w <= 64 {
			m = 0
			for _, a := range t.args {
				m = m<<uint(a.w) | umax(a)
			}
			// not tight but an upper bound: each segment at most its umax
		}
	case OBAnd:
		for _, a := range t.args {
			if u := umax(a); u < m {
				m = u
			}
		}
	case OURem:
		if t.args[1].op == OConst && t.args[1].val > 0 {
			m = t.args[1].val - 1
		}
	case OUDiv:
		if t.args[1].op == OConst && t.args[1].val > 0 {
			m = umax(t.args[0]) / t.args[1].val
		}
	case OLshr:
		m = umax(t.args[0])
	case OBOr, OBXor:
		a, b := umax(t.args[0]), umax(t.args[1])
		n := bits.Len64(a | b)
		m = mask(n)
		if n == 0 {
			m = 0
		}
	case OAdd:
		if t.w <= 64 {
			s, over := t.val, false
			for _, a := range t.args {
				u := umax(a)
				s2 := s + u
				if s2 < s || s2 > m {
					over = true
					break
				}
				s = s2
			}
			if !over {
				m = s
			}
		}
	case OMulC:
		hi, lo := bits.Mul64(t.val, umax(t.args[0]))
		if hi == 0 && lo <= m {
			m = lo
		}
	case OMul:
		hi, lo := bits.Mul64(umax(t.args[1]), umax(t.args[0]))
		if hi == 0 && lo <= m {
			m = lo
		}
	}
	t.umaxOK, t.umaxV = true, m
	return m
}

func umin(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OIte:
		if t.w > 0 {
			a, b := umin(t.args[1]), umin(t.args[2])
			if b < a {
				return b
			}
			return a
		}
	case OConcat:
		if t.w <= 64 {
			m := uint64(0)
			for _, a := range t.args {
				var v uint64
				if a.op == OConst {
					v = a.val
				}
				m = m<<uint(a.w) | v
			}
			return m
		}
	case OAdd:
		if t.w <= 64 && umaxNoWrap(t) {
			s := t.val
			for _, a := range t.args {
				s += umin(a)
			}
			return s
		}
	}
	return 0
}

func umaxNoWrap(t *Term) bool {
	s := t.val
	m := mask(t.w)
	for _, a := range t.args {
		if a.op == OMulC {
			hi, lo := bits.Mul64(a.val, umax(a.args[0]))
			if hi != 0 || lo > m {
				return false
			}
		}
		u := umax(a)
		s2 := s + u
		if s2 < s || s2 > m {
			return false
		}
		s = s2
	}
	return true
}

func Ult(a, b *Term) *Term {
	if a == b {
		return tFalse
	}
	if a.w != b.w {
		panic("Ult width")
	}
	if b.op == OConst && b.val == 0 {
		return tFalse
	}
	if a.w <= 64 {
		if umax(a) < umin(b) {
			return tTrue
		}
		if umin(a) >= umax(b) {
			return tFalse
		}
	}
	if a.op == OConst && a.val == 0 {
		return Not(Eq(b, a))
	}
	if b.op == OConst && b.val == 1 {
		return Eq(a, BV(a.w, 0))
	}
	if a.w <= 64 {
		if x, ok := narrowable(a, b); ok {
			return Ult(Extract(a, x-1, 0), Extract(b, x-1, 0))
		}
	}
	if b.op == OConst && a.op == OIte {
		x, y := Ult(a.args[1], b), Ult(a.args[2], b)
		if x.isConst() || y.isConst() {
			return iteB(a.args[0], x, y)
		}
	}
	if a.op == OConst && b.op == OIte {
		x, y := Ult(a, b.args[1]), Ult(a, b.args[2])
		if x.isConst() || y.isConst() {
			return iteB(b.args[0], x, y)
		}
	}
	return mk(OUlt, 0, 0, "", a, b)
}

// narrowable: both operands have zero high bits (syntactically zero-extended).
func narrowable(a, b *Term) (int, bool) {
	z := func(t *Term) int {
		if t.op == OConst {
			return t.w - bits.Len64(t.val)
		}
		if t.op == OConcat && t.args[0].op == OConst && t.args[0].val == 0 {
			return t.args[0].w
		}
		return 0
	}
	x, y := z(a), z(b)
	if y < x {
		x = y
	}
	if x == 0 || x >= a.w {
		return 0, false
	}
	return a.w - x, true
}

func Ule(a, b *Term) *Term { return Not(Ult(b, a)) }

func Slt(a, b *Term) *Term {
	if a == b {
		return tFalse
	}
	if a.w != b.w {
		panic("Slt width")
	}
	if a.op == OConst && b.op == OConst {
		return Bool(sx(a.val, a.w) < sx(b.val, b.w))
	}
	na, nb := nonNeg(a), nonNeg(b)
	if na && nb {
		return Ult(a, b)
	}
	sgn := uint64(1) << uint(a.w-1)
	if na && b.op == OConst && b.val&sgn != 0 {
		return tFalse
	}
	if nb && a.op == OConst && a.val&sgn != 0 {
		return tTrue
	}
	if b.op == OConst && a.op == OIte {
		x, y := Slt(a.args[1], b), Slt(a.args[2], b)
		if x.isConst() || y.isConst() {
			return iteB(a.args[0], x, y)
		}
	}
	if a.op == OConst && b.op == OIte {
		x, y := Slt(a, b.args[1]), Slt(a, b.args[2])
		if x.isConst() || y.isConst() {
			return iteB(b.args[0], x, y)
		}
	}
	return mk(OSlt, 0, 0, "", a, b)
}

func Sle(a, b *Term) *Term { return Not(Slt(b, a)) }

// ---- bit structure

func Extract(t *Term, hi, lo int) *Term {
	if lo == 0 && hi == t.w-1 {
		return t
	}
	if hi < lo || hi >= t.w || lo < 0 {
		panic(fmt.Sprintf("bad extract %d %d of %d", hi, lo, t.w))
	}
	w := hi - lo + 1
	switch t.op {
	case OConst:
		return BV(w, t.val>>uint(lo))
	case OExtract:
		l0 := int(t.val & 0xff)
		return Extract(t.args[0], l0+hi, l0+lo)
	case OConcat:
		var parts []*Term
		pos := t.w
		for _, s := range t.args {
			sh, sl := pos-1, pos-s.w
			pos -= s.w
			if sl > hi || sh < lo {
				continue
			}
			h, l := min(hi, sh), max(lo, sl)
			parts = append(parts, Extract(s, h-sl, l-sl))
		}
		return Concat(parts...)
	case OIte:
		// push down when it helps
		if t.args[1].op == OConst || t.args[2].op == OConst || t.args[1].op == OConcat || t.args[2].op == OConcat || t.args[1].op == OIte || t.args[2].op == OIte {
			return Ite(t.args[0], Extract(t.args[1], hi, lo), Extract(t.args[2], hi, lo))
		}
	case OBAnd:
		return BAnd(Extract(t.args[0], hi, lo), Extract(t.args[1], hi, lo))
	case OBOr:
		return BOr(Extract(t.args[0], hi, lo), Extract(t.args[1], hi, lo))
	case OBXor:
		return BXor(Extract(t.args[0], hi, lo), Extract(t.args[1], hi, lo))
	case OBNot:
		return BNot(Extract(t.args[0], hi, lo))
	case OSext:
		s := t.args[0]
		if hi < s.w {
			return Extract(s, hi, lo)
		}
		if lo < s.w {
			return Sext(Extract(s, s.w-1, lo), w)
		}
	case OAdd:
		if lo == 0 && t.w <= 64 {
			l := &lin{ms: map[*Term]uint64{}, c: t.val}
			for _, a := range t.args {
				k, x := uint64(1), a
				if a.op == OMulC {
					k, x = a.val, a.args[0]
				}
				linAdd(l, Extract(x, hi, 0), k)
			}
			return linTerm(l, w)
		}
	case OMulC:
		if lo == 0 {
			return Mul(Extract(t.args[0], hi, 0), BV(w, t.val))
		}
	}
	return mk(OExtract, w, uint64(hi)<<8|uint64(lo), "", t)
}

func Concat(parts ...*Term) *Term {
	var out []*Term
	for _, p := range parts {
		if p.op == OConcat {
			for _, q := range p.args {
				out = concatPush(out, q)
			}
		} else {
			out = concatPush(out, p)
		}
	}
	if len(out) == 1 {
		return out[0]
	}
	w := 0
	for _, o := range out {
		w += o.w
	}
	return mk(OConcat, w, 0, "", out...)
}

func concatPush(out []*Term, q *Term) []*Term {
	if len(out) > 0 {
		l := out[len(out)-1]
		if l.op == OConst && q.op == OConst && l.w+q.w <= 64 {
			out[len(out)-1] = BV(l.w+q.w, l.val<<uint(q.w)|q.val)
			return out
		}
		if l.op == OExtract && q.op == OExtract && l.args[0] == q.args[0] && int(l.val&0xff) == int(q.val>>8)+1 {
			out[len(out)-1] = Extract(l.args[0], int(l.val>>8), int(q.val&0xff))
			return out
		}
	}
	return append(out, q)
}

func Zext(t *Term, w int) *Term {
	if t.w == w {
		return t
	}
	if t.op == OConst {
		return BV(w, t.val)
	}
	return Concat(zeros(w-t.w), t)
}

func zeros(w int) *Term {
	if w <= 64 {
		return BV(w, 0)
	}
	return mk(OConcat, w, 0, "", BV(w-64, 0), BV(64, 0))
}

func Sext(t *Term, w int) *Term {
	if t.w == w {
		return t
	}
	if t.op == OConst {
		return BV(w, uint64(sx(t.val, t.w)))
	}
	if nonNeg(t) {
		return Zext(t, w)
	}
	if t.op == OSext {
		return Sext(t.args[0], w)
	}
	return mk(OSext, w, 0, "", t)
}

func segs(t *Term) []*Term {
	if t.op == OConcat {
		return t.args
	}
	return []*Term{t}
}

func isSeg(t *Term) bool { return t.op == OConcat || t.op == OConst }

// segwise applies f on aligned segments of a and b when at least one is a concatenation.
func segwise(a, b *Term, f func(x, y *Term) *Term) *Term {
	// split points
	cut := map[int]bool{}
	for _, t := range []*Term{a, b} {
		p := t.w
		for _, s := range segs(t) {
			p -= s.w
			cut[p] = true
		}
	}
	var cuts []int
	for c := range cut {
		cuts = append(cuts, c)
	}
	sort.Sort(sort.Reverse(sort.IntSlice(cuts)))
	hi := a.w - 1
	var parts []*Term
	for _, lo := range cuts {
		parts = append(parts, f(Extract(a, hi, lo), Extract(b, hi, lo)))
		hi = lo - 1
	}
	return Concat(parts...)
}

func maskCuts(v uint64, w int) bool { // few runs
	n := 0
	for i := 1; i < w; i++ {
		if (v>>uint(i))&1 != (v>>uint(i-1))&1 {
			n++
		}
	}
	return n <= 4
}

func BAnd(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		if a.op == OConst {
			return BV(a.w, a.val&b.val)
		}
		if b.val == 0 {
			return b
		}
		if b.val == mask(a.w) {
			return a
		}
		if maskCuts(b.val, a.w) {
			// decompose into runs
			var parts []*Term
			hi := a.w - 1
			for hi >= 0 {
				bit := (b.val >> uint(hi)) & 1
				lo := hi
				for lo > 0 && (b.val>>uint(lo-1))&1 == bit {
					lo--
				}
				if bit == 0 {
					parts = append(parts, BV(hi-lo+1, 0))
				} else {
					parts = append(parts, Extract(a, hi, lo))
				}
				hi = lo - 1
			}
			return Concat(parts...)
		}
	}
	if isSeg(a) && isSeg(b) || (a.op == OConcat && hasZero(a)) || (b.op == OConcat && hasZero(b)) {
		if a.op == OConcat || b.op == OConcat {
			return segwise(a, b, BAnd)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OBAnd, a.w, 0, "", a, b)
}

func hasZero(t *Term) bool {
	for _, s := range t.args {
		if s.op == OConst {
			return true
		}
	}
	return false
}

func BOr(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		if a.op == OConst {
			return BV(a.w, a.val|b.val)
		}
		if b.val == 0 {
			return a
		}
		if b.val == mask(a.w) {
			return b
		}
		if maskCuts(b.val, a.w) {
			var parts []*Term
			hi := a.w - 1
			for hi >= 0 {
				bit := (b.val >> uint(hi)) & 1
				lo := hi
				for lo > 0 && (b.val>>uint(lo-1))&1 == bit {
					lo--
				}
				if bit == 1 {
					parts = append(parts, BV(hi-lo+1, ^uint64(0)))
				} else {
					parts = append(parts, Extract(a, hi, lo))
				}
				hi = lo - 1
			}
			return Concat(parts...)
		}
	}
	if (a.op == OConcat && hasZero(a)) || (b.op == OConcat && hasZero(b)) {
		return segwise(a, b, BOr)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OBOr, a.w, 0, "", a, b)
}

func BXor(a, b *Term) *Term {
	if a == b {
		return BV(a.w, 0)
	}
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		if a.op == OConst {
			return BV(a.w, a.val^b.val)
		}
		if b.val == 0 {
			return a
		}
		if b.val == mask(a.w) {
			return BNot(a)
		}
		if a.op == OBXor && a.args[1].op == OConst {
			return BXor(a.args[0], BV(a.w, a.args[1].val^b.val))
		}
	}
	if (a.op == OConcat && hasZero(a)) || (b.op == OConcat && hasZero(b)) {
		return segwise(a, b, BXor)
	}
	if b.op == OConst {
		return mk(OBXor, a.w, 0, "", a, b)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OBXor, a.w, 0, "", a, b)
}

func BNot(a *Term) *Term {
	if a.op == OConst {
		return BV(a.w, ^a.val)
	}
	if a.op == OBNot {
		return a.args[0]
	}
	return mk(OBNot, a.w, 0, "", a)
}

// SMT-LIB shift semantics (amount >= width gives 0 / sign fill), equal to Go's for unsigned amounts.
func Shl(a, s *Term) *Term {
	if s.op == OConst {
		if s.val == 0 {
			return a
		}
		if s.val >= uint64(a.w) {
			return BV(a.w, 0)
		}
		k := int(s.val)
		if a.op == OConst {
			return BV(a.w, a.val<<uint(k))
		}
		return Concat(Extract(a, a.w-1-k, 0), BV(k, 0))
	}
	if a.op == OConst && a.val == 0 {
		return a
	}
	if a.w <= 64 && umin(s) >= uint64(a.w) {
		return BV(a.w, 0)
	}
	if s.op == OIte && (s.args[1].isConst() || s.args[2].isConst()) {
		return Ite(s.args[0], Shl(a, s.args[1]), Shl(a, s.args[2]))
	}
	return mk(OShl, a.w, 0, "", a, s)
}

func Lshr(a, s *Term) *Term {
	if s.op == OConst {
		if s.val == 0 {
			return a
		}
		if s.val >= uint64(a.w) {
			return BV(a.w, 0)
		}
		k := int(s.val)
		if a.op == OConst {
			return BV(a.w, a.val>>uint(k))
		}
		return Zext(Extract(a, a.w-1, k), a.w)
	}
	if a.op == OConst && a.val == 0 {
		return a
	}
	if a.w <= 64 && umin(s) >= uint64(a.w) {
		return BV(a.w, 0)
	}
	if s.op == OIte && (s.args[1].isConst() || s.args[2].isConst()) {
		return Ite(s.args[0], Lshr(a, s.args[1]), Lshr(a, s.args[2]))
	}
	return mk(OLshr, a.w, 0, "", a, s)
}

func Ashr(a, s *Term) *Term {
	if nonNeg(a) {
		return Lshr(a, s)
	}
	if s.op == OConst {
		if s.val == 0 {
			return a
		}
		k := int(s.val)
		if s.val >= uint64(a.w) {
			k = a.w - 1
		}
		if a.op == OConst {
			return BV(a.w, uint64(sx(a.val, a.w)>>uint(k)))
		}
		return Sext(Extract(a, a.w-1, k), a.w)
	}
	return mk(OAshr, a.w, 0, "", a, s)
}

func App(name string, w int, args ...*Term) *Term {
	return mk(OApp, w, 0, name, args...)
}

func (t *Term) String() string { return t.str(4) }

var opNames = map[Op]string{OConst: "const", ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OAdd: "+", OMulC: "*c", OMul: "*",
	OUDiv: "udiv", OURem: "urem", OSDiv: "sdiv", OSRem: "srem", OBAnd: "&", OBOr: "|", OBXor: "^", OBNot: "~", OShl: "<<", OLshr: ">>", OAshr: ">>s",
	OUlt: "u<", OSlt: "s<", OConcat: "++", OExtract: "extract", OSext: "sext", OQuant: "quant"}

func (t *Term) str(d int) string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.val == 1 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("%d", sx(t.val, t.w))
	case OVar:
		return t.name
	}
	if d == 0 {
		return fmt.Sprintf("t%d", t.id)
	}
	s := "(" + opNames[t.op]
	if t.op == OApp {
		s = "(" + t.name
	}
	if t.op == OExtract {
		s += fmt.Sprintf("[%d:%d]", t.val>>8, t.val&0xff)
	} else if t.op == OAdd && t.val != 0 || t.op == OMulC {
		s += fmt.Sprintf(" %d", sx(t.val, t.w))
	}
	for _, a := range t.args {
		s += " " + a.str(d-1)
	}
	return s + ")"
}
