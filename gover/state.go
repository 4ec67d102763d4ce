package main

import (
	"fmt"
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// State of one symbolic path (bundle).
type State struct {
	pc    *Term
	heaps map[string]*Heap
	next  *Term
	over  map[ssa.Value]Val
}

func (s *State) clone() *State {
	n := &State{pc: s.pc, next: s.next, heaps: make(map[string]*Heap, len(s.heaps)+4)}
	for k, v := range s.heaps {
		n.heaps[k] = v
	}
	if len(s.over) > 0 {
		n.over = make(map[ssa.Value]Val, len(s.over))
		for k, v := range s.over {
			n.over[k] = v
		}
	}
	return n
}

type Obl struct {
	name  string
	kind  string
	pos   token.Pos
	pc    *Term
	cond  *Term
	nass  int
	loop  string // for invariant candidates: loop path
	cand  string
	proof string // how discharged
	group string // any-of group (termination measures)
	cover bool
	hints []*Term
}

type quantDef struct {
	atom   *Term
	lo, hi *Term
	body   *Term // with bound variable
	bv     *Term
}

// Ctx is one verification unit's execution.
type Ctx struct {
	e                 *Engine
	unit              *Unit
	base              map[string]*Heap
	ass               []*Term
	assSet            map[*Term]bool
	obls              []*Obl
	suppress          int // >0: no obligations (specification code)
	names             map[string]int
	path              []string
	marks             map[string]*loopMark
	dropped           map[string]bool
	keep              map[string]bool // nil: all candidates
	restart           bool
	loopStack         []*activeLoop
	depth             int
	oblNames          map[string]int
	lastPos           token.Pos
	writeLog          []writeRec
	logWrites         bool
	initMode          bool
	steps             int
	trusted           map[string]bool
	used              map[string]bool // contracts used
	inlined           map[string]bool
	fixSeen           map[string]bool
	forallDepth       int
	measures          map[string]bool
	loopKinds         map[string]string
	callDepth         map[*ssa.Function]int
	covers            []*Obl
	specs             []*specCall
	preState          *State
	bodyOf            *ssa.Function // function whose body the current unit proves
	bodyDone          bool
	bodyMods          []modTarget
	bodyEntry         *Term
	requires          int
	lostInv           []string
	specDepthSuppress int
}

type writeRec struct {
	pc   *Term
	key  string
	obj  *Term
	idx  *Term
	lo   *Term
	n    *Term
	pos  token.Pos
	nass int
}

type activeLoop struct {
	path  string
	mark  *loopMark
	entry *Term // next at entry
	seq   int
}

type wloc struct {
	key string
	obj *Term
	idx *Term // nil: whole object
	w   int
}

// loopMark accumulates what a cut loop modifies (monotone across restarts).
type loopMark struct {
	comps  map[string]bool // phi components that change
	locs   map[string]wloc
	fresh  map[string]int // keys with writes to objects allocated inside the loop
	all    map[string]int
	next   bool
	unroll int // 0 undecided, -1 cut, 1 unrolled by constants
}

func newMark() *loopMark {
	return &loopMark{comps: map[string]bool{}, locs: map[string]wloc{}, fresh: map[string]int{}, all: map[string]int{}}
}

func (c *Ctx) pathStr() string { return strings.Join(c.path, "/") }

// fresh names are derived from the execution path so that re-executions agree.
func (c *Ctx) fresh(name string, w int) *Term {
	k := c.pathStr() + "/" + name
	c.names[k]++
	if n := c.names[k]; n > 1 {
		k = fmt.Sprintf("%s#%d", k, n)
	}
	t := Var(k, w)
	c.e.stamp(t.name, c)
	return t
}

// stamp records creation sequence of symbolic names within the current execution.
func (e *Engine) stamp(name string, c *Ctx) {
	e.seq++
	e.created[name] = e.seq
}

func (c *Ctx) assume(pc, f *Term) {
	if c.initMode {
		return
	}
	t := Implies(pc, f)
	if t == tTrue || t.free {
		return
	}
	if c.assSet[t] {
		return
	}
	c.assSet[t] = true
	c.ass = append(c.ass, t)
}

func (c *Ctx) oblige(st *State, kind, name string, pos token.Pos, cond *Term) {
	if c.initMode {
		return
	}
	if c.suppress > 0 {
		return
	}
	pc := st.pc
	full := kind + ":" + name
	if p := c.pathStr(); p != "" {
		full = p + ":" + full
	}
	c.oblNames[full]++
	if n := c.oblNames[full]; n > 1 {
		full = fmt.Sprintf("%s#%d", full, n)
	}
	if kind == "ensures" || kind == "requires" || kind == "assert" {
		if cs := splitConj(cond); len(cs) > 1 {
			for i, ci := range cs {
				c.obls = append(c.obls, &Obl{name: conjName(full, i, len(cs)), kind: kind, pos: pos, pc: pc, cond: ci, nass: len(c.ass)})
				c.assume(pc, ci)
			}
			return
		}
	}
	o := &Obl{name: full, kind: kind, pos: pos, pc: pc, cond: cond, nass: len(c.ass)}
	c.obls = append(c.obls, o)
	c.assume(pc, cond)
}

func (c *Ctx) heap(st *State, key string, w int) *Heap {
	if h, ok := st.heaps[key]; ok {
		return h
	}
	h, ok := c.base[key]
	if !ok {
		h = heapBase(key, "H!"+key, w, BV(32, initialNext))
		if c.initMode {
			h.noWF = true
		}
		c.base[key] = h
	}
	st.heaps[key] = h
	return h
}

// readBase creates the application term of a base heap.
func readBase(a *Arr, idx *Term) *Term {
	t := App(a.heap.name, a.heap.w, a.obj, idx)
	if strings.HasSuffix(a.heap.key, ".obj") && a.heap.bound != nil {
		objUpper[t] = a.heap.bound
	}
	return t
}

const (
	initObjLo = 0x1000 // objects allocated by package initialisers
	initObjHi = initialNext
)

func hasInitObj(t *Term, d int) bool {
	if t.op == OConst {
		return t.val > 0 && t.val < initObjHi
	}
	return t.op == OIte && d < 40 && (hasInitObj(t.args[1], d+1) || hasInitObj(t.args[2], d+1))
}

func (c *Ctx) getArr(st *State, obj *Term, key string, w int) *Arr {
	if obj.op == OIte && hasInitObj(obj, 0) {
		return arrIte(obj.args[0], c.getArr(st, obj.args[1], key, w), c.getArr(st, obj.args[2], key, w))
	}
	if !c.initMode && obj.op == OConst && obj.val < initObjHi && c.e.immutable[obj.val] {
		if h, ok := c.e.initHeaps[key]; ok {
			return heapGet(h, obj)
		}
	}
	return heapGet(c.heap(st, key, w), obj)
}

func (c *Ctx) setArr(st *State, obj *Term, key string, a *Arr, idx *Term) {
	c.setArrRange(st, obj, key, a, idx, nil, nil)
}

func (c *Ctx) setArrRange(st *State, obj *Term, key string, a *Arr, idx, lo, n *Term) {
	c.noteWrite(st, key, obj, idx, lo, n, a.w)
	st.heaps[key] = heapStore(c.heap(st, key, a.w), obj, a)
}

func (c *Ctx) noteWrite(st *State, key string, obj, idx, lo, n *Term, w int) {
	for _, l := range c.loopStack {
		l.note(c, key, obj, idx, w)
	}
	if c.logWrites && c.suppress == c.specDepthSuppress {
		c.writeLog = append(c.writeLog, writeRec{pc: st.pc, key: key, obj: obj, idx: idx, lo: lo, n: n, pos: c.lastPos, nass: len(c.ass)})
	}
}

func (c *Ctx) stable(t *Term, seq int) bool {
	memo := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t.isConst() {
			return true
		}
		if v, ok := memo[t]; ok {
			return v
		}
		r := true
		if t.op == OVar || t.op == OApp {
			if s, ok := c.e.created[t.name]; ok && s > seq {
				r = false
			}
		}
		for _, a := range t.args {
			if !r {
				break
			}
			r = rec(a)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func (l *activeLoop) note(c *Ctx, key string, obj, idx *Term, w int) {
	m := l.mark
	if _, ok := m.all[key]; ok {
		return
	}
	// object alternatives
	if obj.op == OIte {
		l.note(c, key, obj.args[1], idx, w)
		l.note(c, key, obj.args[2], idx, w)
		return
	}
	if obj == BV(32, 0) {
		return // nil: unreachable write
	}
	if isCounter(obj) && counterLeq(l.entry, obj) {
		if _, ok := m.fresh[key]; !ok {
			m.fresh[key] = w
			c.restart = true
		}
		return
	}
	if c.stable(obj, l.seq) {
		if idx != nil && !c.stable(idx, l.seq) {
			idx = nil
		}
		whole := fmt.Sprintf("%s|%d|*", key, obj.id)
		if _, ok := m.locs[whole]; ok {
			return
		}
		k := whole
		if idx != nil {
			k = fmt.Sprintf("%s|%d|%d", key, obj.id, idx.id)
		}
		if _, ok := m.locs[k]; !ok {
			m.locs[k] = wloc{key, obj, idx, w}
			c.restart = true
			if debug {
				fmt.Printf("  mark %s: %s obj=%s idx=%v\n", l.path, key, obj, idx)
			}
		}
		return
	}
	// unknown object: is it certainly older or certainly newer than the loop entry?
	if debug {
		fmt.Printf("  mark %s: ALL %s obj=%s\n", l.path, key, obj)
	}
	m.all[key] = w
	c.restart = true
}

func (c *Ctx) load(st *State, p *Ptr, t typesType, key string) Val {
	v := loadVal(func(k string, w int) *Arr { return c.getArr(st, p.obj, k, w) }, p.idx, t, key)
	if m, ok := v.(*MapV); ok {
		if m.obj.op == OConst {
			if sv, ok := c.e.initMaps[m.obj.val]; ok {
				return sv
			}
		}
	}
	if key != "" || true {
		v = c.resolveSide(st, p, t, key, v)
	}
	c.wfVal(st, v, t)
	return v
}

func (c *Ctx) resolveSide(st *State, p *Ptr, t typesType, key string, v Val) Val {
	switch under(t).(type) {
	case *typesMap, *typesSignature, *typesChan:
		h := arrRead(c.getArr(st, p.obj, key+".h", 64), p.idx)
		if h.op == OConst {
			if sv, ok := sideVals[h.val]; ok {
				return sv
			}
		}
	case *typesStruct:
		s, ok := v.(*Struct)
		if !ok {
			return v
		}
		u := under(t).(*typesStruct)
		off := int64(0)
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			switch under(ft).(type) {
			case *typesMap, *typesSignature, *typesChan, *typesStruct:
				s.f[i] = c.resolveSide(st, &Ptr{p.obj, Add(p.idx, I64(off)), ""}, ft, fieldKey(t, i), s.f[i])
			}
			off += size(ft)
		}
	}
	return v
}

const (
	maxLen  = uint64(1) << 40 // no slice or string is longer (memory of the machine)
	maxMake = uint64(1) << 44 // allocations above this are reported as panics
)

// wfVal assumes representation invariants of the Go runtime for a value read from memory.
func (c *Ctx) wfVal(st *State, v Val, t typesType) {
	if c.initMode {
		return
	}
	switch x := v.(type) {
	case *Slice:
		c.wfSlice(st, x, t)
	case *Str:
		if x.lit == nil {
			c.assume(st.pc, Ult(x.len, BV(64, maxLen)))
		}
	case *Struct:
		u := under(t).(*typesStruct)
		for i, f := range x.f {
			c.wfVal(st, f, u.Field(i).Type())
		}
	case *Iface:
		c.wfIface(st, x)
	}
}

func (c *Ctx) wfIface(st *State, x *Iface) {
	// a nil interface has a zero payload; dynamic types are numbered below 2^16
}

func (c *Ctx) wfSlice(st *State, x *Slice, t typesType) {
	if x.len.isConst() && x.cap.isConst() && x.idx.isConst() {
		return
	}
	pc := st.pc
	if x.len.op == OIte || x.len.op == OConst {
		// composite: facts are known of the parts; still assume (cheap)
	}
	c.assume(pc, Ule(x.len, x.cap))
	c.assume(pc, Ult(x.cap, BV(64, maxLen)))
	c.assume(pc, Ult(x.idx, BV(64, maxLen<<4)))
	if x.obj.op != OConst {
		c.assume(pc, Implies(Eq(x.obj, BV(32, 0)), Eq(x.cap, BV(64, 0))))
	}
}

func (c *Ctx) store(st *State, p *Ptr, t typesType, key string, v Val) {
	if o, ok := v.(*Opaque); ok {
		switch under(t).(type) {
		case *typesMap, *typesSignature, *typesChan:
		default:
			unsup("store of opaque value (%s)", o.why)
		}
	}
	storeVal(
		func(k string, w int) *Arr { return c.getArr(st, p.obj, k, w) },
		func(k string, a *Arr, idx *Term) { c.setArr(st, p.obj, k, a, idx) },
		p.idx, t, key, v)
}

// alloc creates a zeroed object holding a value of type t (or n elements when elem is set).
func (c *Ctx) alloc(st *State, ks map[string]int) *Term {
	o := st.next
	st.next = Add(st.next, BV(32, 1))
	for _, l := range c.loopStack {
		if !l.mark.next {
			l.mark.next = true
			c.restart = true
		}
	}
	keys := make([]string, 0, len(ks))
	for k := range ks {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		w := ks[k]
		for _, l := range c.loopStack {
			if _, ok := l.mark.fresh[k]; !ok {
				if _, ok := l.mark.all[k]; !ok {
					l.mark.fresh[k] = w
					c.restart = true
				}
			}
		}
		st.heaps[k] = heapStore(c.heap(st, k, w), o, arrConst(BVz(w)))
	}
	return o
}

// merge of several states; returns merged state and selector conditions per edge
func (c *Ctx) merge(sts []*State) (*State, []*Term) {
	if len(sts) == 1 {
		return sts[0].clone(), []*Term{tTrue}
	}
	pcs := make([]*Term, len(sts))
	for i, s := range sts {
		pcs[i] = s.pc
	}
	conds := relConds(pcs)
	n := &State{pc: orList(pcs), heaps: map[string]*Heap{}}
	keys := map[string]bool{}
	for _, s := range sts {
		for k := range s.heaps {
			keys[k] = true
		}
	}
	for k := range keys {
		var h *Heap
		w := 0
		for _, s := range sts {
			if x, ok := s.heaps[k]; ok {
				w = x.w
			}
		}
		for i := len(sts) - 1; i >= 0; i-- {
			x := c.heap(sts[i], k, w)
			if h == nil {
				h = x
			} else {
				h = heapIte(conds[i], x, h)
			}
		}
		n.heaps[k] = h
	}
	// next
	nx := sts[0].next
	for _, s := range sts[1:] {
		switch {
		case s.next == nx || counterLeq(s.next, nx):
		case counterLeq(nx, s.next):
			nx = s.next
		default:
			a, b := nx, s.next
			nx = c.newCounter("join", a, b)
		}
	}
	n.next = nx
	// overrides
	ov := map[ssa.Value]bool{}
	for _, s := range sts {
		for v := range s.over {
			ov[v] = true
		}
	}
	if len(ov) > 0 {
		n.over = map[ssa.Value]Val{}
		for v := range ov {
			var r Val
			ok := true
			for i := len(sts) - 1; i >= 0; i-- {
				x, has := sts[i].over[v]
				if !has {
					ok = false
					break
				}
				if r == nil {
					r = x
				} else {
					r = iteVal(conds[i], x, r)
				}
			}
			if ok {
				n.over[v] = r
			}
		}
	}
	return n, conds
}

func (c *Ctx) newCounter(name string, lows ...*Term) *Term {
	t := c.fresh("next."+name, 32)
	c.e.rank++
	counterRank[t] = c.e.rank
	counterMin[t] = lows
	for _, l := range lows {
		c.assume(tTrue, Ule(l, t))
	}
	c.assume(tTrue, Ult(t, BV(32, 1<<31)))
	return t
}

func spine(t *Term) []*Term { // left spine from root prefix to full
	var s []*Term
	for {
		s = append(s, t)
		if t.op != OAnd {
			break
		}
		t = t.args[0]
	}
	for i, j := 0, len(s)-1; i < j; i, j = i+1, j-1 {
		s[i], s[j] = s[j], s[i]
	}
	return s
}

func relConds(pcs []*Term) []*Term {
	sp := make([][]*Term, len(pcs))
	for i, p := range pcs {
		sp[i] = spine(p)
	}
	n := 0
	for {
		if n >= len(sp[0]) {
			break
		}
		same := true
		for _, s := range sp[1:] {
			if n >= len(s) || s[n] != sp[0][n] {
				same = false
				break
			}
		}
		if !same {
			break
		}
		n++
	}
	out := make([]*Term, len(pcs))
	for i, s := range sp {
		r := tTrue
		for k := n; k < len(s); k++ {
			if k == 0 {
				r = s[0]
			} else {
				r = And(r, s[k].args[1])
			}
		}
		out[i] = r
	}
	// for two edges use the simpler selector
	if len(out) == 2 {
		if len(sp[1])-n < len(sp[0])-n {
			out[0] = Not(out[1])
		}
	}
	return out
}
