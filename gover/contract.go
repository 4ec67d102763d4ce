package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// A contract is a Go function ("specification wrapper") around a call of the function it
// specifies. Executed in prove mode its Requires are assumed, the call runs the real body and
// Ensures are obligations; executed in use mode (at call sites) its Requires are obligations,
// the call havocs the declared frame and returns fresh results, and Ensures are assumed.

type specCall struct {
	ct   *Contract
	use  bool
	mods []modTarget
	pos  token.Pos
	site string
	pcIn *Term // state at the caller
}

type modTarget struct {
	v Val
	t types.Type
	// ghost: evaluated at declaration
	st *State
	// the whole backing array of a slice
	whole bool
}

func (c *Ctx) topSpec() *specCall {
	if len(c.specs) == 0 {
		return nil
	}
	return c.specs[len(c.specs)-1]
}

func (c *Ctx) callContract(st *State, ct *Contract, fn *ssa.Function, args []Val, pos token.Pos, site string) (*State, []Val) {
	if c.suppress == 0 {
		c.used[ct.wrapName] = true
	}
	sc := &specCall{ct: ct, use: true, pos: pos, site: site}
	c.specs = append(c.specs, sc)
	c.path = append(c.path, fmt.Sprintf("%s~%s", fn.Name(), site))
	savedPos := c.lastPos
	c.suppress++
	c.specDepthSuppress++
	pc := st.pc
	s, vals := c.callFn(ct.wrap, args, nil, st)
	if s.pc != tFalse {
		s.pc = pc
	}
	c.suppress--
	c.specDepthSuppress--
	c.lastPos = savedPos
	c.path = c.path[:len(c.path)-1]
	c.specs = c.specs[:len(c.specs)-1]
	// the wrapper's own control flow does not restrict the caller
	return s, vals
}

// havocCall replaces the call of the specified function inside its wrapper.
func (c *Ctx) havocCall(st *State, sc *specCall, fn *ssa.Function, args []Val) (*State, []Val) {
	st = st.clone()
	rs := fn.Signature.Results()
	// allocation: objects reachable from results or modified places may be new
	reach := map[string]int{}
	refs := false
	seen := map[types.Type]bool{}
	for i := 0; i < rs.Len(); i++ {
		if reachKeys(rs.At(i).Type(), reach, seen) {
			refs = true
		}
	}
	for _, m := range sc.mods {
		t := m.t
		switch u := under(m.t).(type) {
		case *types.Pointer:
			t = u.Elem()
		case *types.Slice:
			t = u.Elem()
		}
		if reachKeys(t, reach, seen) {
			refs = true
		}
	}
	bound := st.next
	if refs {
		ent := st.next
		st.next = c.newCounter("call", ent)
		bound = st.next
		for _, l := range c.loopStack {
			if !l.mark.next {
				l.mark.next = true
				c.restart = true
			}
		}
		for _, k := range sortedKeys(reach) {
			w := reach[k]
			hb := heapBase(k, c.freshName("H!"+k), w, bound)
			c.e.stamp(hb.name, c)
			st.heaps[k] = heapHavoc(c.heap(st, k, w), hb, func(o *Term) *Term {
				if knownBelow(o, ent) {
					return tFalse
				}
				if isCounter(o) && counterLeq(ent, o) {
					return tTrue
				}
				return Not(Ult(o, ent))
			})
			for _, l := range c.loopStack {
				if _, ok := l.mark.fresh[k]; !ok {
					if _, ok := l.mark.all[k]; !ok {
						l.mark.fresh[k] = w
						c.restart = true
					}
				}
			}
		}
	}
	for i, m := range sc.mods {
		c.havocTarget(st, m, fmt.Sprintf("mod%d", i), bound)
	}
	var vals []Val
	for i := 0; i < rs.Len(); i++ {
		t := rs.At(i).Type()
		if _, ok := under(t).(*types.Interface); ok && !isErrorType(t) {
			unsup("contract of %s returns an interface", fn)
		}
		v := c.freshVal(t, fmt.Sprintf("r%d", i), bound)
		if refs {
			c.boundVal(v, bound)
		}
		c.wfVal(st, v, t)
		vals = append(vals, v)
	}
	return st, vals
}

func (c *Ctx) boundVal(v Val, bound *Term) {}

func (c *Ctx) freshName(n string) string {
	k := c.pathStr() + "/" + n
	c.names[k]++
	if n := c.names[k]; n > 1 {
		k = fmt.Sprintf("%s#%d", k, n)
	}
	return k
}

func (c *Ctx) havocTarget(st *State, m modTarget, name string, bound *Term) {
	switch u := under(m.t).(type) {
	case *types.Pointer:
		p := m.v.(*Ptr)
		nv := c.freshVal(u.Elem(), name, bound)
		c.wfVal(st, nv, u.Elem())
		c.store(st, &Ptr{p.obj, p.idx, p.key}, u.Elem(), pointeeKey(u.Elem()), nv)
	case *types.Slice:
		s := m.v.(*Slice)
		ks := map[string]int{}
		leafKeys(u.Elem(), elemKey(u.Elem()), ks)
		for _, k := range sortedKeys(ks) {
			w := ks[k]
			hb := heapBase(k, c.freshName(name+"!"+k), w, bound)
			c.e.stamp(hb.name, c)
			if m.whole {
				c.setArr(st, s.obj, k, arrBase(hb, BV(32, 1)), nil)
				continue
			}
			a := arrCopy(c.getArr(st, s.obj, k, w), s.idx, arrBase(hb, BV(32, 1)), s.idx, Mul(s.len, I64(size(u.Elem()))))
			c.setArrRange(st, s.obj, k, a, nil, s.idx, Mul(s.len, I64(size(u.Elem()))))
		}
	default:
		unsup("modifies target of type %s", m.t)
	}
}

// reachKeys collects heap keys of objects reachable from a value of type t; reports whether t holds references.
func reachKeys(t types.Type, out map[string]int, seen map[types.Type]bool) bool {
	switch u := under(t).(type) {
	case *types.Pointer:
		if !seen[t] {
			seen[t] = true
			leafKeys(u.Elem(), cellKey(u.Elem()), out)
			reachKeys(u.Elem(), out, seen)
		}
		return true
	case *types.Slice:
		if !seen[t] {
			seen[t] = true
			leafKeys(u.Elem(), elemKey(u.Elem()), out)
			reachKeys(u.Elem(), out, seen)
		}
		return true
	case *types.Struct:
		r := false
		for i := 0; i < u.NumFields(); i++ {
			if reachKeys(u.Field(i).Type(), out, seen) {
				r = true
			}
		}
		return r
	case *types.Array:
		return reachKeys(u.Elem(), out, seen)
	case *types.Interface:
		if !isErrorType(t) {
			unsup("interface %s in contract frame", t)
		}
		return false
	}
	return false
}

func (c *Ctx) callContractVals(st *State, ct *Contract, args []Val, pos token.Pos, site string) (*State, []Val) {
	return c.callContract(st, ct, ct.fn, args, pos, site)
}

// ---- frame obligations

// checkFrame: every logged write goes to an object allocated since entry or to a declared target.
func (c *Ctx) checkFrame(entryNext *Term, mods []modTarget) {
	seen := map[string]bool{}
	for _, w := range c.writeLog {
		cond := c.frameCond(entryNext, mods, w)
		if cond == tTrue {
			continue
		}
		k := fmt.Sprintf("%d|%d", w.pc.id, cond.id)
		if seen[k] {
			continue
		}
		seen[k] = true
		c.obls = append(c.obls, &Obl{name: fmt.Sprintf("frame:%s@%d", w.key, len(seen)), kind: "frame", pos: w.pos, pc: w.pc, cond: cond, nass: w.nass})
	}
}

func (c *Ctx) frameCond(ent *Term, mods []modTarget, w writeRec) *Term {
	if isCounter(w.obj) && counterLeq(ent, w.obj) {
		return tTrue
	}
	r := Not(Ult(w.obj, ent))
	if knownBelow(w.obj, ent) {
		r = tFalse
	}
	if w.obj.op == OIte {
		a, b := w, w
		a.obj, b.obj = w.obj.args[1], w.obj.args[2]
		return iteB(w.obj.args[0], c.frameCond(ent, mods, a), c.frameCond(ent, mods, b))
	}
	for _, m := range mods {
		switch u := under(m.t).(type) {
		case *types.Pointer:
			p := m.v.(*Ptr)
			ks := map[string]int{}
			leafKeys(u.Elem(), pointeeKey(u.Elem()), ks)
			if pointeeKey(u.Elem()) == "" {
				ks = map[string]int{}
				leafKeys(u.Elem(), "", ks)
			}
			if _, ok := ks[w.key]; !ok {
				continue
			}
			in := objEq(w.obj, p.obj)
			if w.idx != nil {
				in = And(in, Ult(Sub(w.idx, p.idx), I64(size(u.Elem()))))
			}
			r = Or(r, in)
		case *types.Slice:
			s := m.v.(*Slice)
			ks := map[string]int{}
			leafKeys(u.Elem(), elemKey(u.Elem()), ks)
			if _, ok := ks[w.key]; !ok {
				continue
			}
			in := objEq(w.obj, s.obj)
			n := Mul(s.len, I64(size(u.Elem())))
			switch {
			case m.whole:
			case w.idx != nil:
				in = And(in, Ult(Sub(w.idx, s.idx), n))
			case w.n != nil:
				in = And(in, Or(Eq(w.n, BV(64, 0)), And(Ule(s.idx, w.lo), Ule(Add(w.lo, w.n), Add(s.idx, n)))))
			default:
				continue
			}
			r = Or(r, in)
		}
	}
	return r
}

// ---- names in scope at a loop header

// iterIdx is the number of finished iterations of a loop over the indices of something: a range
// loop, or else a loop with exactly one counter from 0 up by 1.
func iterIdx(l *Loop, phis []*ssa.Phi, vals []Val) (Val, bool) {
	found := -1
	for i, p := range phis {
		switch p.Comment {
		case "rangeindex":
			return Add(vals[i].(*Term), BV(64, 1)), true
		case "rangeint.iter":
			return vals[i], true
		}
		if !types.Identical(p.Type(), types.Typ[types.Int]) {
			continue
		}
		ok := true
		for j, e := range p.Edges {
			if l.blocks[p.Block().Preds[j]] {
				b, is := e.(*ssa.BinOp)
				ok = ok && is && b.Op == token.ADD && b.X == ssa.Value(p) && isIntConst(b.Y, 1)
			} else {
				ok = ok && isIntConst(e, 0)
			}
		}
		if ok && found >= 0 {
			return nil, false
		}
		if ok {
			found = i
		}
	}
	if found < 0 {
		return nil, false
	}
	return vals[found], true
}

func isIntConst(v ssa.Value, n int64) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value != nil && k.Value.Kind() == constant.Int && k.Int64() == n
}

// resolveVar finds the symbolic value of source variable name at the header of l.
func (f *Frame) resolveVar(l *Loop, name string, t types.Type, st *State, phis []*ssa.Phi, vals []Val) (Val, bool) {
	same := func(a types.Type) bool { return sameType(a, t) }
	for i, p := range phis {
		if p.Comment == name && same(p.Type()) {
			return vals[i], true
		}
	}
	// range loops: the variable stands for the element about to be visited
	for i, p := range phis {
		if !same(p.Type()) || (p.Comment != "rangeint.iter" && p.Comment != "rangeindex") {
			continue
		}
		want := ssa.Value(p)
		if p.Comment == "rangeindex" {
			want = nil
			for _, r := range *p.Referrers() {
				if b, ok := r.(*ssa.BinOp); ok && b.Op == token.ADD && b.Block() == l.header {
					want = b
				}
			}
		}
		if want == nil {
			continue
		}
		for _, r := range *want.Referrers() {
			if d, ok := r.(*ssa.DebugRef); ok && d.Object() != nil && d.Object().Name() == name {
				v := vals[i]
				if p.Comment == "rangeindex" {
					v = Add(v.(*Term), BV(64, 1))
				}
				return v, true
			}
		}
	}
	if name == "vfIdx" {
		return iterIdx(l, phis, vals)
	}
	if v, ok := f.scopeVar(l, name, t); ok {
		switch x := v.(type) {
		case *ssa.Alloc:
			if same(x.Type().(*types.Pointer).Elem()) {
				p, ok := f.env[x].(*Ptr)
				if !ok {
					return nil, false
				}
				return f.c.load(st, p, t, p.key), true
			}
		default:
			if same(v.Type()) {
				for i, p := range phis {
					if ssa.Value(p) == v {
						return vals[i], true
					}
				}
				if _, isC := v.(*ssa.Const); isC {
					return f.val(nil, v), true
				}
				if r, ok := f.env[v]; ok {
					return r, true
				}
			}
		}
	}
	return nil, false
}

type scopeKey struct {
	l    *Loop
	name string
}

var scopeMemo = map[scopeKey]ssa.Value{}

// scopeVar: the SSA value a source variable has at the loop header.
func (f *Frame) scopeVar(l *Loop, name string, t types.Type) (ssa.Value, bool) {
	k := scopeKey{l, name + "|" + t.String()}
	if v, ok := scopeMemo[k]; ok {
		return v, v != nil
	}
	var best ssa.Value
	bestDist := -1
	for _, b := range f.fn.Blocks {
		if !b.Dominates(l.header) || l.blocks[b] {
			continue
		}
		d := f.fi.order[b]
		for i, ins := range b.Instrs {
			var v ssa.Value
			switch x := ins.(type) {
			case *ssa.DebugRef:
				if x.IsAddr {
					continue
				}
				if o := x.Object(); o != nil && o.Name() == name && sameType(o.Type(), t) {
					v = x.X
					// a variable in memory: read it at the loop header, not
					// at the point where it was last used
					for _, b2 := range f.fn.Blocks {
						for _, i2 := range b2.Instrs {
							if a, ok := i2.(*ssa.Alloc); ok && a.Comment == name && a.Pos() == o.Pos() {
								v = a
							}
						}
					}
				}
			case *ssa.Phi:
				if x.Comment == name && sameType(x.Type(), t) {
					v = x
				}
			case *ssa.Alloc:
				if x.Comment == name && sameType(x.Type().(*types.Pointer).Elem(), t) {
					v = x
				}
			}
			if v != nil {
				w := d*100000 + i
				if w >= bestDist {
					bestDist, best = w, v
				}
			}
		}
	}
	if best == nil {
		for _, p := range f.fn.Params {
			if p.Name() == name && types.Identical(p.Type(), t) {
				best = p
			}
		}
		for _, p := range f.fn.FreeVars {
			if p.Name() == name {
				if pt, ok := p.Type().(*types.Pointer); ok && types.Identical(pt.Elem(), t) {
					// captured by reference
					best = p
				}
			}
		}
	}
	if debug {
		fmt.Printf("  scope %s at %s: %v (%T)\n", name, f.loopName(l), best, best)
	}
	scopeMemo[k] = best
	return best, best != nil
}

// specFn evaluates an invariant or measure function at a program point.
func (f *Frame) specFn(l *Loop, fn *ssa.Function, st *State, phis []*ssa.Phi, vals []Val, tag string) (Val, bool) {
	c := f.c
	var args []Val
	for _, p := range fn.Params {
		v, ok := f.resolveVar(l, p.Name(), p.Type(), st, phis, vals)
		if !ok {
			if debug {
				fmt.Printf("  cannot resolve %s in %s\n", p.Name(), fn.Name())
			}
			return nil, false
		}
		args = append(args, v)
	}
	c.suppress++
	c.path = append(c.path, fn.Name()+"~"+tag)
	savedPre := c.preState
	c.preState = f.pre
	savedPos := c.lastPos
	savedNames := c.names
	savedLoops := c.loopStack
	c.loopStack = nil // the evaluation works on a scratch state
	_, out := c.callFn(fn, args, nil, st.clone())
	c.loopStack = savedLoops
	c.names = savedNames
	c.lastPos = savedPos
	c.preState = savedPre
	c.path = c.path[:len(c.path)-1]
	c.suppress--
	return out[0], true
}

func sortedInts(m map[int]bool) []int {
	var out []int
	for k := range m {
		out = append(out, k)
	}
	sort.Ints(out)
	return out
}
