package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type (
	typesType      = types.Type
	typesMap       = types.Map
	typesSignature = types.Signature
	typesChan      = types.Chan
	typesStruct    = types.Struct
)

var debug bool

// ---- loops

type Loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *Loop
	kids   []*Loop
	idx    int // ordinal in source order
	live   []ssa.Value
}

type FnInfo struct {
	fn    *ssa.Function
	rpo   []*ssa.BasicBlock
	order map[*ssa.BasicBlock]int
	inner map[*ssa.BasicBlock]*Loop // innermost loop containing block
	loops []*Loop
	byHdr map[*ssa.BasicBlock]*Loop
}

var fnInfos = map[*ssa.Function]*FnInfo{}

func fnInfo(fn *ssa.Function) *FnInfo {
	if fi, ok := fnInfos[fn]; ok {
		return fi
	}
	fi := &FnInfo{fn: fn, order: map[*ssa.BasicBlock]int{}, inner: map[*ssa.BasicBlock]*Loop{}, byHdr: map[*ssa.BasicBlock]*Loop{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		fi.order[post[i]] = len(fi.rpo)
		fi.rpo = append(fi.rpo, post[i])
	}
	for _, b := range fi.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := fi.byHdr[s]
				if l == nil {
					l = &Loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					fi.byHdr[s] = l
					fi.loops = append(fi.loops, l)
				}
				var stack []*ssa.BasicBlock
				if !l.blocks[b] {
					l.blocks[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range x.Preds {
						if !l.blocks[p] && seen[p] {
							l.blocks[p] = true
							stack = append(stack, p)
						}
					}
				}
			} else if fi.order[s] <= fi.order[b] {
				unsup("irreducible control flow in %s", fn)
			}
		}
	}
	sort.Slice(fi.loops, func(i, j int) bool { return len(fi.loops[i].blocks) < len(fi.loops[j].blocks) })
	for i, l := range fi.loops {
		for b := range l.blocks {
			if fi.inner[b] == nil {
				fi.inner[b] = l
			}
		}
		for j := i + 1; j < len(fi.loops); j++ {
			if fi.loops[j].blocks[l.header] && fi.loops[j] != l {
				l.parent = fi.loops[j]
				break
			}
		}
	}
	// ordinal by position in the source
	byOrd := append([]*Loop(nil), fi.loops...)
	at := map[*Loop]token.Pos{}
	for _, l := range byOrd {
		for b := range l.blocks {
			for _, ins := range b.Instrs {
				if p := ins.Pos(); p.IsValid() && (at[l] == 0 || p < at[l]) {
					at[l] = p
				}
			}
		}
	}
	sort.Slice(byOrd, func(i, j int) bool {
		a, b := byOrd[i], byOrd[j]
		if at[a] != at[b] {
			return at[a] < at[b]
		}
		if len(a.blocks) != len(b.blocks) {
			return len(a.blocks) > len(b.blocks)
		}
		return fi.order[a.header] < fi.order[b.header]
	})
	for i, l := range byOrd {
		l.idx = i
	}
	// live-outs
	for _, l := range fi.loops {
		for b := range l.blocks {
			for _, ins := range b.Instrs {
				v, ok := ins.(ssa.Value)
				if !ok || v.Referrers() == nil {
					continue
				}
				for _, r := range *v.Referrers() {
					rb := r.Block()
					if rb == nil {
						continue
					}
					if _, dbg := r.(*ssa.DebugRef); dbg {
						continue
					}
					if !l.blocks[rb] {
						l.live = append(l.live, v)
						break
					}
				}
			}
		}
		sort.Slice(l.live, func(i, j int) bool { return l.live[i].Name() < l.live[j].Name() })
	}
	fnInfos[fn] = fi
	return fi
}

// ---- frames

type Frame struct {
	c    *Ctx
	fn   *ssa.Function
	fi   *FnInfo
	env  map[ssa.Value]Val
	rets []retEdge
	spec *Contract // contract of the function (loop invariants etc.)
	args []Val
	pre  *State // state at entry (for old in loop invariants)
}

type retEdge struct {
	st   *State
	vals []Val
}

type edge struct {
	from *ssa.BasicBlock
	st   *State
	phis []Val // evaluated phi operands of the target
}

func (f *Frame) val(st *State, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return f.c.constVal(x)
	case *ssa.Global:
		return f.c.e.globalPtr(x)
	case *ssa.Function:
		return &FuncV{fn: x}
	case *ssa.Builtin:
		return &Opaque{"builtin " + x.Name()}
	}
	if st != nil && st.over != nil {
		if r, ok := st.over[v]; ok {
			return r
		}
	}
	r, ok := f.env[v]
	if !ok {
		unsup("value %s of %s not available", v.Name(), f.fn)
	}
	return r
}

func (f *Frame) set(st *State, v ssa.Value, x Val) {
	f.env[v] = x
	if st.over != nil {
		delete(st.over, v)
	}
}

func (c *Ctx) constVal(x *ssa.Const) Val {
	t := x.Type()
	if x.Value == nil {
		return zeroVal(t)
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return strLit(constant.StringVal(x.Value))
		case u.Info()&types.IsBoolean != 0:
			return Bool(constant.BoolVal(x.Value))
		case u.Info()&types.IsFloat != 0:
			fl, _ := constant.Float64Val(x.Value)
			if basicWidth(u) == 32 {
				return BV(32, uint64(math.Float32bits(float32(fl))))
			}
			return BV(64, math.Float64bits(fl))
		case u.Info()&types.IsComplex != 0:
			return &Opaque{"complex"}
		default:
			w := basicWidth(u)
			if i, ok := constant.Int64Val(constant.ToInt(x.Value)); ok {
				return BV(w, uint64(i))
			}
			if i, ok := constant.Uint64Val(constant.ToInt(x.Value)); ok {
				return BV(w, i)
			}
		}
	}
	unsup("constant %s", x)
	return nil
}

type exitFn func(to *ssa.BasicBlock, e edge)

// run executes the blocks of a region (whole function when l is nil).
// start must already be entered with state st; phis of start are set in env.
func (f *Frame) run(l *Loop, start *ssa.BasicBlock, st *State, onBack func(e edge), onExit exitFn) {
	pending := map[*ssa.BasicBlock][]edge{}
	inRegion := func(b *ssa.BasicBlock) bool { return l == nil || l.blocks[b] }
	route := func(to *ssa.BasicBlock, e edge) {
		if e.st.pc == tFalse {
			return
		}
		if l != nil && to == l.header {
			e.phis = f.phiVals(to, e)
			onBack(e)
			return
		}
		if !inRegion(to) {
			onExit(to, e)
			return
		}
		if e.phis == nil {
			e.phis = f.phiVals(to, e)
		}
		pending[to] = append(pending[to], e)
	}
	first := true
	for i := f.fi.order[start]; i < len(f.fi.rpo); i++ {
		b := f.fi.rpo[i]
		if !inRegion(b) {
			continue
		}
		if first {
			if b != start {
				continue
			}
			first = false
			f.block(b, st, route)
			continue
		}
		es := pending[b]
		if len(es) == 0 {
			continue
		}
		delete(pending, b)
		if hl := f.fi.byHdr[b]; hl != nil && hl != l {
			f.loop(hl, es, func(to *ssa.BasicBlock, e edge) { route(to, e) })
			continue
		}
		in := f.fi.inner[b]
		if in != l && in != nil && (l == nil || in != l) {
			// belongs to a nested loop handled at its header
			if f.nested(in, l) {
				continue
			}
		}
		f.block(b, f.enter(b, es), route)
	}
}

func (f *Frame) nested(in, l *Loop) bool {
	for x := in; x != nil; x = x.parent {
		if x == l {
			return in != l
		}
	}
	return l == nil
}

func (f *Frame) phiVals(b *ssa.BasicBlock, e edge) []Val {
	var out []Val
	pi := -1
	for i, p := range b.Preds {
		if p == e.from {
			pi = i
		}
	}
	for _, ins := range b.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		out = append(out, f.val(e.st, phi.Edges[pi]))
	}
	return out
}

// enter merges the incoming edges of b and sets its phis.
func (f *Frame) enter(b *ssa.BasicBlock, es []edge) *State {
	// an If with both successors equal gives two edges from one block
	sts := make([]*State, len(es))
	for i := range es {
		sts[i] = es[i].st
	}
	st, conds := f.c.merge(sts)
	k := 0
	for _, ins := range b.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		var r Val
		for i := len(es) - 1; i >= 0; i-- {
			v := es[i].phis[k]
			if r == nil {
				r = v
			} else {
				r = iteVal(conds[i], v, r)
			}
		}
		f.set(st, phi, r)
		k++
	}
	return st
}

func (f *Frame) block(b *ssa.BasicBlock, st *State, route func(to *ssa.BasicBlock, e edge)) {
	for _, ins := range b.Instrs {
		f.c.steps++
		if f.c.steps > f.c.e.maxSteps {
			unsup("step limit")
		}
		switch x := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.If:
			cond := f.val(st, x.Cond).(*Term)
			t := st.clone()
			t.pc = And(st.pc, cond)
			e := st.clone()
			e.pc = And(st.pc, Not(cond))
			if b.Succs[0] == b.Succs[1] {
				t.pc = st.pc
				route(b.Succs[0], edge{from: b, st: t})
				return
			}
			route(b.Succs[0], edge{from: b, st: t})
			route(b.Succs[1], edge{from: b, st: e})
			return
		case *ssa.Jump:
			route(b.Succs[0], edge{from: b, st: st})
			return
		case *ssa.Return:
			var vals []Val
			for _, r := range x.Results {
				vals = append(vals, f.val(st, r))
			}
			f.rets = append(f.rets, retEdge{st, vals})
			return
		case *ssa.Panic:
			f.c.oblige(st, "panic", f.posName(x.Pos()), x.Pos(), tFalse)
			return
		default:
			f.instr(st, ins)
			if st.pc == tFalse {
				return
			}
		}
	}
}

func (f *Frame) posName(p token.Pos) string {
	return f.fn.Name()
}

// ---- loops

func phisOf(b *ssa.BasicBlock) []*ssa.Phi {
	var out []*ssa.Phi
	for _, ins := range b.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		out = append(out, phi)
	}
	return out
}

func (f *Frame) setPhis(st *State, b *ssa.BasicBlock, vals []Val) {
	for i, p := range phisOf(b) {
		f.set(st, p, vals[i])
	}
}

func (f *Frame) loopName(l *Loop) string { return fmt.Sprintf("%s.loop%d", f.fn.Name(), l.idx) }

func (f *Frame) loop(l *Loop, es []edge, exit exitFn) {
	c := f.c
	name := f.loopName(l)
	c.path = append(c.path, name)
	defer func() { c.path = c.path[:len(c.path)-1] }()
	path := c.pathStr()
	m := c.marks[path]
	if m == nil {
		m = newMark()
		c.marks[path] = m
	}
	unroll := 0
	if f.spec != nil {
		unroll = f.spec.unrollFor(l.idx)
	}
	if unroll == 0 && (c.suppress > 0 || c.initMode) {
		unroll = 1 << 20
		if c.suppress > 0 {
			unroll = 300
		}
	}
	forced := unroll > 0
	if m.unroll >= 0 && !forced {
		// try constant-trip unrolling
		if m.unroll == 1 || f.constTrip(l, es) {
			m.unroll = 1
			unroll = c.e.maxUnroll
		} else {
			m.unroll = -1
		}
	}
	if unroll > 0 {
		c.loopKinds[path] = "unrolled completely"
		if f.unrolled(l, es, exit, unroll, forced) {
			return
		}
		m.unroll = -1
		c.restart = true
		return
	}
	c.loopKinds[path] = "invariant"
	f.cut(l, es, exit, m, path)
}

// constTrip: does the loop exit test at the header fold to a constant on entry?
func (f *Frame) constTrip(l *Loop, es []edge) bool {
	hdr := l.header
	last, ok := hdr.Instrs[len(hdr.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	inT, inF := l.blocks[hdr.Succs[0]], l.blocks[hdr.Succs[1]]
	if inT && inF {
		return false
	}
	bo, ok := last.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	// operands must be constants on entry, with a phi stepping by a constant
	isC := func(v ssa.Value) (bool, bool) { // constant, induction
		if _, ok := v.(*ssa.Const); ok {
			return true, false
		}
		if b, ok := v.(*ssa.BinOp); ok && l.blocks[b.Block()] {
			if _, okc := b.Y.(*ssa.Const); okc {
				v = b.X
			}
		}
		if ph, ok := v.(*ssa.Phi); ok && ph.Block() == hdr {
			for i, p := range hdr.Preds {
				if !l.blocks[p] {
					for _, e := range es {
						if e.from != p {
							continue
						}
						t, ok := f.val(e.st, ph.Edges[i]).(*Term)
						if !ok || !t.isConst() {
							return false, true
						}
					}
				} else {
					s, ok := ph.Edges[i].(*ssa.BinOp)
					if !ok {
						return false, true
					}
					if _, ok := s.Y.(*ssa.Const); !ok || s.X != ssa.Value(ph) {
						return false, true
					}
				}
			}
			return true, true
		}
		if ins, ok := v.(ssa.Instruction); ok && l.blocks[ins.Block()] {
			return false, false
		}
		for _, e := range es {
			t, ok := f.val(e.st, v).(*Term)
			if !ok || !t.isConst() {
				return false, false
			}
		}
		return true, false
	}
	c1, i1 := isC(bo.X)
	c2, i2 := isC(bo.Y)
	return c1 && c2 && (i1 || i2)
}

func (f *Frame) unrolled(l *Loop, es []edge, exit exitFn, limit int, forced bool) bool {
	c := f.c
	cur := es
	base := c.path[len(c.path)-1]
	wrap := func(to *ssa.BasicBlock, e edge) {
		if len(l.live) > 0 {
			if e.st.over == nil {
				e.st.over = map[ssa.Value]Val{}
			}
			for _, v := range l.live {
				if _, has := e.st.over[v]; has {
					continue
				}
				if x, ok := f.env[v]; ok {
					e.st.over[v] = x
				}
			}
		}
		exit(to, e)
	}
	for i := 0; ; i++ {
		if len(cur) == 0 {
			return true
		}
		c.path[len(c.path)-1] = fmt.Sprintf("%s@%d", base, i)
		st := f.enter(l.header, cur)
		if st.pc == tFalse {
			return true
		}
		if i > limit {
			if forced {
				if c.suppress > 0 || c.initMode {
					// specification loops: beyond the limit nothing is known
					if c.initMode {
						unsup("initialiser loop limit")
					}
					if !c.e.prove(c, st.pc, tFalse) {
						unsup("specification loop does not terminate within %d iterations in %s", limit, f.fn)
					}
					return true
				}
				c.path[len(c.path)-1] = base
				// the remaining iterations are covered by an invariant
				pth := c.pathStr()
				c.loopKinds[pth] = fmt.Sprintf("%d iterations unrolled, then invariant", limit)
				f.cut(l, cur, wrap, c.marks[pth], pth)
				return true
			}
			return false
		}
		if forced && i > 4 && c.suppress > 0 && i%4 == 0 {
			if c.e.prove(c, st.pc, tFalse) {
				return true
			}
		}
		var back []edge
		f.run(l, l.header, st, func(e edge) { back = append(back, e) }, wrap)
		cur = back
	}
}

func (f *Frame) cut(l *Loop, es []edge, exit exitFn, m *loopMark, path string) {
	c := f.c
	// evaluate phis on entry
	entry := f.enter(l.header, es)
	phis := phisOf(l.header)
	initVals := make([]Val, len(phis))
	for i, p := range phis {
		initVals[i] = f.env[p]
	}
	al := &activeLoop{path: path, mark: m, entry: entry.next, seq: c.e.seq}
	hs := entry.clone()
	// havoc
	if m.next {
		hs.next = c.newCounter("loop", entry.next)
	}
	bound := hs.next
	keys := map[string]int{}
	for k, w := range m.all {
		keys[k] = w
	}
	for k, w := range m.fresh {
		keys[k] = w
	}
	for _, wl := range m.locs {
		keys[wl.key] = wl.w
	}
	ks := make([]string, 0, len(keys))
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	locKeys := make([]string, 0, len(m.locs))
	for k := range m.locs {
		locKeys = append(locKeys, k)
	}
	sort.Strings(locKeys)
	for _, k := range ks {
		w := keys[k]
		h := c.heap(hs, k, w)
		hb := heapBase(k, path+"/H!"+k, w, bound)
		c.e.stamp(hb.name, c)
		if _, ok := m.all[k]; ok {
			hs.heaps[k] = hb
			continue
		}
		if _, ok := m.fresh[k]; ok {
			ent := entry.next
			h = heapHavoc(h, hb, func(o *Term) *Term {
				if knownBelow(o, ent) {
					return tFalse
				}
				if isCounter(o) && counterLeq(ent, o) {
					return tTrue
				}
				return Not(Ult(o, ent))
			})
		}
		for _, lk := range locKeys {
			wl := m.locs[lk]
			if wl.key != k {
				continue
			}
			if wl.idx == nil {
				h = heapStore(h, wl.obj, arrBase(hb, wl.obj))
			} else {
				v := readBase(arrBase(hb, wl.obj), wl.idx)
				h = heapStore(h, wl.obj, arrStore(heapGet(h, wl.obj), wl.idx, v))
			}
		}
		hs.heaps[k] = h
	}
	hdrVals := make([]Val, len(phis))
	for i, p := range phis {
		hdrVals[i] = f.havocPhi(hs, p, initVals[i], m, bound)
		f.set(hs, p, hdrVals[i])
	}
	for i, p := range phis {
		c.wfVal(hs, hdrVals[i], p.Type())
	}
	// invariants
	cands := f.candidates(l, entry, hs, phis, initVals, hdrVals, m, path)
	if os.Getenv("GOVER_DBGINV") != "" {
		for _, cd := range cands {
			if cd.cand == "" {
				fmt.Printf("INV %s %s: %s\n", path, cd.name, cd.at(hs, hdrVals).str(6))
			}
		}
	}
	for _, cd := range cands {
		if c.suppress == 0 {
			c.invObls(path+":inv-init:"+cd.name, "invariant-init", l, entry.pc, cd.at(entry, initVals), cd)
		}
	}
	for _, cd := range cands {
		c.assume(hs.pc, cd.at(hs, hdrVals))
	}
	meas := f.measures(l, hs, phis, hdrVals, path)
	c.loopStack = append(c.loopStack, al)
	nb := 0
	f.run(l, l.header, hs, func(e edge) {
		nb++
		// component changes
		for i := range phis {
			f.markComps(phis[i], hdrVals[i], e.phis[i], m)
		}
		if c.suppress > 0 {
			return
		}
		for _, cd := range cands {
			c.invObls(fmt.Sprintf("%s:inv-preserved:%s@%d", path, cd.name, nb), "invariant-preserved", l, e.st.pc, cd.at(e.st, e.phis), cd)
		}
		for _, ms := range meas {
			before := ms.at(hs, hdrVals)
			after := ms.at(e.st, e.phis)
			if before == nil || after == nil {
				continue
			}
			cond := And(Slt(after, before), Sle(BV(64, 0), before))
			o := &Obl{name: fmt.Sprintf("%s:decreases:%s@%d", path, ms.name, nb), kind: "termination", pos: l.header.Instrs[0].Pos(), pc: e.st.pc, cond: cond, nass: len(c.ass), group: fmt.Sprintf("%s|term|%d", path, nb), cand: "m:" + path + "|" + ms.name}
			c.obls = append(c.obls, o)
		}
		if len(meas) == 0 {
			c.obls = append(c.obls, &Obl{name: fmt.Sprintf("%s:decreases:none@%d", path, nb), kind: "termination", pos: l.header.Instrs[0].Pos(), pc: e.st.pc, cond: tFalse, nass: len(c.ass), group: fmt.Sprintf("%s|term|%d", path, nb), cand: "m:" + path + "|none"})
		}
	}, exit)
	c.loopStack = c.loopStack[:len(c.loopStack)-1]
}

func (c *Ctx) invObls(name, kind string, l *Loop, pc, cond *Term, cd candidate) {
	cs := []*Term{cond}
	if cd.cand == "" {
		if x := splitConj(cond); len(x) > 1 {
			cs = x
		}
	}
	for i, ci := range cs {
		c.obls = append(c.obls, &Obl{name: conjName(name, i, len(cs)), kind: kind, pos: l.header.Instrs[0].Pos(), pc: pc, cond: ci, nass: len(c.ass), cand: cd.cand, hints: cd.hints})
		if len(cs) > 1 {
			pc = And(pc, ci)
		}
	}
}

func (f *Frame) markComps(p *ssa.Phi, hdr, back Val, m *loopMark) {
	if _, ok := hdr.(*ArrV); ok {
		if !m.comps[p.Name()+"*"] {
			m.comps[p.Name()+"*"] = true
			f.c.restart = true
		}
		return
	}
	a, b := comps(hdr), comps(back)
	if len(a) != len(b) {
		if !m.comps[p.Name()+"*"] {
			m.comps[p.Name()+"*"] = true
			f.c.restart = true
		}
		return
	}
	ns := compNames(hdr)
	for i := range a {
		if a[i] != b[i] && !m.comps[p.Name()+ns[i]] {
			m.comps[p.Name()+ns[i]] = true
			f.c.restart = true
		}
	}
}

func (f *Frame) havocPhi(st *State, p *ssa.Phi, init Val, m *loopMark, bound *Term) Val {
	if a, ok := init.(*ArrV); ok {
		if m.comps[p.Name()+"*"] {
			r := &ArrV{elem: a.elem, n: a.n, views: map[string]*Arr{}, base: a.base}
			for k, v := range a.views {
				hb := heapBase(k, f.c.pathStr()+"/"+p.Name()+"!"+k, v.w, bound)
				f.c.e.stamp(hb.name, f.c)
				r.views[k] = arrBase(hb, BV(32, 1))
			}
			return r
		}
		return init
	}
	if m.comps[p.Name()+"*"] {
		return f.c.freshVal(p.Type(), p.Name(), bound)
	}
	cs := comps(init)
	if cs == nil {
		return init
	}
	ns := compNames(init)
	out := make([]*Term, len(cs))
	for i := range cs {
		if m.comps[p.Name()+ns[i]] {
			nm := p.Comment
			if nm == "" {
				nm = p.Name()
			}
			out[i] = f.c.fresh(nm+ns[i], cs[i].w)
			if strings.HasSuffix(ns[i], ".obj") {
				objUpper[out[i]] = bound
			}
		} else {
			out[i] = cs[i]
		}
	}
	if p2, ok := init.(*Ptr); ok && isNilPtr(p2) {
		init = &Ptr{p2.obj, p2.idx, pointeeKey(under(p.Type()).(*types.Pointer).Elem())}
	}
	if s, ok := init.(*Str); ok {
		init = &Str{id: s.id, len: s.len}
		if out[0] == s.id && out[1] == s.len {
			return s
		}
	}
	r, _ := rebuild(init, out)
	return r
}

// freshVal creates an unconstrained value of a type (with representation facts assumed later by wfVal).
func (c *Ctx) freshVal(t types.Type, name string, bound *Term) Val {
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return &Str{id: c.fresh(name+".id", 64), len: c.fresh(name+".slen", 64)}
		}
		return c.fresh(name, basicWidth(u))
	case *types.Pointer:
		o := c.fresh(name+".obj", 32)
		objUpper[o] = bound
		return &Ptr{o, c.fresh(name+".idx", 64), pointeeKey(u.Elem())}
	case *types.Slice:
		o := c.fresh(name+".obj", 32)
		objUpper[o] = bound
		return &Slice{o, c.fresh(name+".idx", 64), c.fresh(name+".len", 64), c.fresh(name+".cap", 64)}
	case *types.Interface:
		o := c.fresh(name+".obj", 32)
		objUpper[o] = bound
		return &Iface{c.fresh(name+".tag", 32), o, c.fresh(name+".idx", 64)}
	case *types.Struct:
		s := &Struct{}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, c.freshVal(u.Field(i).Type(), name+"."+u.Field(i).Name(), bound))
		}
		return s
	case *types.Array:
		a := &ArrV{elem: u.Elem(), n: u.Len(), views: map[string]*Arr{}, base: BV(64, 0)}
		ks := map[string]int{}
		leafKeys(u.Elem(), elemKey(u.Elem()), ks)
		for k, w := range ks {
			hb := heapBase(k, c.pathStr()+"/"+name+"!"+k, w, bound)
			c.names[hb.name]++
			if n := c.names[hb.name]; n > 1 {
				hb.name = fmt.Sprintf("%s#%d", hb.name, n)
			}
			c.e.stamp(hb.name, c)
			a.views[k] = arrBase(hb, BV(32, 1))
		}
		return a
	case *types.Tuple:
		var tp Tuple
		for i := 0; i < u.Len(); i++ {
			tp = append(tp, c.freshVal(u.At(i).Type(), fmt.Sprintf("%s#%d", name, i), bound))
		}
		return tp
	case *types.Map:
		o := c.fresh(name+".obj", 32)
		objUpper[o] = bound
		return &MapV{obj: o}
	default:
		return &Opaque{"fresh " + t.String()}
	}
}

// callFn executes a function body symbolically.
func (c *Ctx) callFn(fn *ssa.Function, args []Val, bind []Val, st *State) (*State, []Val) {
	if fn.Blocks == nil {
		unsup("no body: %s", fn)
	}
	if c.callDepth[fn] > 0 {
		unsup("recursive call of %s without contract", fn)
	}
	if len(c.path) > 60 {
		unsup("call depth")
	}
	c.callDepth[fn]++
	defer func() { c.callDepth[fn]-- }()
	f := &Frame{c: c, fn: fn, fi: fnInfo(fn), env: map[ssa.Value]Val{}, args: args}
	f.spec = c.e.contracts[fn]
	for i, p := range fn.Params {
		f.env[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		f.env[fv] = bind[i]
	}
	f.pre = st.clone()
	savedOver := st.over
	st = st.clone()
	st.over = nil
	f.run(nil, fn.Blocks[0], st, nil, nil)
	if len(f.rets) == 0 {
		d := st.clone()
		d.pc = tFalse
		d.over = savedOver
		var vals []Val
		rs := fn.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			vals = append(vals, zeroVal(rs.At(i).Type()))
		}
		return d, vals
	}
	sts := make([]*State, len(f.rets))
	for i := range f.rets {
		sts[i] = f.rets[i].st
		sts[i].over = nil
	}
	out, conds := c.merge(sts)
	n := len(f.rets[0].vals)
	vals := make([]Val, n)
	for k := 0; k < n; k++ {
		var r Val
		for i := len(f.rets) - 1; i >= 0; i-- {
			if r == nil {
				r = f.rets[i].vals[k]
			} else {
				r = iteVal(conds[i], f.rets[i].vals[k], r)
			}
		}
		vals[k] = r
	}
	out.over = savedOver
	return out, vals
}
