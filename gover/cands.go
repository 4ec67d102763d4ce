package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Loop annotations: user-written invariants and measures from the contract files, and
// automatically proposed ones that are only kept when they are proved inductive.

type candidate struct {
	name  string
	cand  string // empty: mandatory
	hints []*Term
	at    func(st *State, phis []Val) *Term
}

type measure struct {
	name string
	at   func(st *State, phis []Val) *Term
}

type cellRef struct {
	key  string
	obj  *Term
	idx  *Term
	w    int
	name string
}

func (f *Frame) boundTerms(l *Loop, entry *State, phis []*ssa.Phi, m *loopMark) (consts []uint64, invs []namedTerm) {
	seen := map[string]bool{}
	add := func(n string, t *Term) {
		if t == nil || t.w != 64 || seen[n] {
			return
		}
		seen[n] = true
		if t.isConst() {
			consts = append(consts, t.val)
			return
		}
		invs = append(invs, namedTerm{n, t})
	}
	outside := func(v ssa.Value) bool {
		switch x := v.(type) {
		case *ssa.Const:
			return true
		case ssa.Instruction:
			return !l.blocks[x.Block()]
		}
		return true
	}
	eval := func(v ssa.Value) (string, *Term) {
		if c, ok := v.(*ssa.Const); ok {
			if c.Value != nil && c.Value.Kind() == constant.Int {
				if t, ok := f.c.constVal(c).(*Term); ok {
					return c.Value.String(), ext64(t, v.Type())
				}
			}
			return "", nil
		}
		if outside(v) {
			r, ok := f.env[v]
			if !ok {
				return "", nil
			}
			if t, ok := r.(*Term); ok && t.w > 0 && !isFloat(v.Type()) {
				return v.Name(), ext64(t, v.Type())
			}
			return "", nil
		}
		if call, ok := v.(*ssa.Call); ok {
			if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" && outside(call.Call.Args[0]) {
				if s, ok := f.env[call.Call.Args[0]].(*Slice); ok {
					return "len(" + call.Call.Args[0].Name() + ")", s.len
				}
			}
		}
		return "", nil
	}
	for _, b := range f.fi.rpo {
		if !l.blocks[b] {
			continue
		}
		for _, ins := range b.Instrs {
			bo, ok := ins.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch bo.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ, token.SUB:
				for _, v := range []ssa.Value{bo.X, bo.Y} {
					if isFloat(v.Type()) || isString(v.Type()) {
						continue
					}
					if n, t := eval(v); t != nil {
						add(n, t)
					}
				}
			}
		}
	}
	for _, p := range f.fn.Params {
		if s, ok := f.env[p].(*Slice); ok {
			add("len("+p.Name()+")", s.len)
		}
	}
	return
}

type namedTerm struct {
	name string
	t    *Term
}

// slicesInScope: byte-like slices known before the loop.
func (f *Frame) slicesInScope(l *Loop) []namedTerm {
	var out []namedTerm
	seen := map[*Term]bool{}
	add := func(n string, v Val) {
		if s, ok := v.(*Slice); ok && !s.len.isConst() && !seen[s.len] {
			seen[s.len] = true
			out = append(out, namedTerm{n, s.len})
		}
	}
	for _, p := range f.fn.Params {
		add(p.Name(), f.env[p])
	}
	for _, b := range f.fi.rpo {
		if l.blocks[b] || !b.Dominates(l.header) {
			continue
		}
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				if _, isS := under(v.Type()).(*types.Slice); isS {
					if x, ok := f.env[v]; ok {
						add(v.Name(), x)
					}
				}
			}
		}
	}
	if len(out) > 6 {
		out = out[len(out)-6:]
	}
	return out
}

func (f *Frame) cells(m *loopMark) []cellRef {
	var out []cellRef
	var ks []string
	for k := range m.locs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		wl := m.locs[k]
		if wl.idx == nil || (wl.w != 64 && wl.w != 32) {
			continue
		}
		if strings.HasSuffix(wl.key, ".obj") || strings.HasSuffix(wl.key, ".idx") || strings.HasSuffix(wl.key, ".id") || strings.HasSuffix(wl.key, ".h") || strings.HasSuffix(wl.key, ".tag") {
			continue
		}
		out = append(out, cellRef{key: wl.key, obj: wl.obj, idx: wl.idx, w: wl.w, name: fmt.Sprintf("%s#%d.%d", wl.key, wl.obj.id, wl.idx.id)})
	}
	return out
}

func (c *Ctx) readCell(st *State, r cellRef) *Term {
	return arrRead(c.getArr(st, r.obj, r.key, r.w), r.idx)
}

// forUnit selects the annotations meant for the current unit: those with a "//vf:for UNIT" line
// naming it when there are any, the ones without such a line otherwise.
func (c *Ctx) forUnit(fns []*ssa.Function) []*ssa.Function {
	var own, common []*ssa.Function
	for _, fn := range fns {
		mine, other := false, false
		for _, d := range docDirectives(fn) {
			if d[0] != "for" {
				continue
			}
			other = true
			for _, n := range d[1:] {
				mine = mine || c.unit != nil && c.unit.fn != nil && c.unit.fn.Name() == n
			}
		}
		switch {
		case mine:
			own = append(own, fn)
		case !other:
			common = append(common, fn)
		}
	}
	if len(own) > 0 {
		return own
	}
	return common
}

var noCand = os.Getenv("GOVER_NOCAND") != ""

func (f *Frame) candidates(l *Loop, entry, hs *State, phis []*ssa.Phi, initVals, hdrVals []Val, m *loopMark, path string) []candidate {
	c := f.c
	var out []candidate
	if c.suppress > 0 {
		return nil
	}
	// user invariants
	if f.spec != nil {
		for _, fn := range c.forUnit(f.spec.invs[l.idx]) {
			fn := fn
			if _, ok := f.specFn(l, fn, entry, phis, initVals, "probe"); !ok {
				c.lostInv = append(c.lostInv, fn.Name())
				continue
			}
			out = append(out, candidate{name: fn.Name(), at: func(st *State, vs []Val) *Term {
				v, ok := f.specFn(l, fn, st, phis, vs, "inv")
				if !ok {
					return tTrue
				}
				return v.(*Term)
			}})
		}
	}
	// the position of a range loop over a slice, string or integer
	for i, p := range phis {
		if p.Comment != "rangeindex" {
			continue
		}
		for _, r := range *p.Referrers() {
			b, ok := r.(*ssa.BinOp)
			if !ok || b.Op != token.ADD || b.Block() != l.header {
				continue
			}
			for _, r2 := range *b.Referrers() {
				cmp, ok := r2.(*ssa.BinOp)
				if !ok || cmp.Op != token.LSS || cmp.X != ssa.Value(b) || cmp.Block() != l.header {
					continue
				}
				n, ok := f.env[cmp.Y].(*Term)
				if k, isC := cmp.Y.(*ssa.Const); isC {
					n, ok = f.val(nil, k).(*Term)
				}
				if !ok || c.suppress > 0 {
					continue
				}
				i, n := i, n
				out = append(out, candidate{name: "range", at: func(st *State, vs []Val) *Term {
					x := Add(vs[i].(*Term), BV(64, 1))
					return And(Sle(BV(64, 0), x), Sle(x, n))
				}})
			}
		}
	}
	addc := func(name string, at func(st *State, vs []Val) *Term) {
		full := path + "|" + name
		if noCand || c.unit.noCand {
			return
		}
		if c.dropped[full] || (c.keep != nil && !c.keep[full]) {
			return
		}
		// trivially true at the header?
		t := at(hs, hdrVals)
		if t == nil || t == tTrue {
			return
		}
		if i := at(entry, initVals); i == tFalse {
			return
		}
		out = append(out, candidate{name: name, cand: full, at: at})
	}
	consts, invs := f.boundTerms(l, entry, phis, m)
	sl := f.slicesInScope(l)
	changed := func(i int, suffix string) bool {
		return m.comps[phis[i].Name()+suffix] || m.comps[phis[i].Name()+"*"]
	}
	type iv struct {
		name string
		get  func(st *State, vs []Val) *Term
		init *Term
		sg   bool
	}
	var ints []iv
	for i, p := range phis {
		i, p := i, p
		switch x := hdrVals[i].(type) {
		case *Term:
			if x.w == 0 || isFloat(p.Type()) || !changed(i, "") {
				continue
			}
			it, ok := initVals[i].(*Term)
			if !ok {
				continue
			}
			ints = append(ints, iv{p.Name(), func(st *State, vs []Val) *Term { return ext64(vs[i].(*Term), p.Type()) }, ext64(it, p.Type()), isSigned(p.Type())})
		case *Slice:
			is, ok := initVals[i].(*Slice)
			if !ok {
				continue
			}
			sl0 := func(vs []Val) *Slice { return vs[i].(*Slice) }
			es := BV(64, uint64(size(under(p.Type()).(*types.Slice).Elem())))
			if changed(i, ".len") || changed(i, ".idx") {
				if !changed(i, ".obj") {
					// suffix of the initial slice
					addc(p.Name()+" suffix", func(st *State, vs []Val) *Term {
						s := sl0(vs)
						return And(Eq(Add(s.idx, Mul(s.len, es)), Add(is.idx, Mul(is.len, es))), Ule(s.len, is.len), Ule(is.idx, s.idx))
					})
					addc(p.Name()+" suffixcap", func(st *State, vs []Val) *Term {
						s := sl0(vs)
						return And(Eq(Add(s.idx, Mul(s.cap, es)), Add(is.idx, Mul(is.cap, es))), Ule(s.cap, is.cap), Ule(s.len, s.cap))
					})
				} else {
					addc(p.Name()+" fresh", func(st *State, vs []Val) *Term {
						s := sl0(vs)
						return Or(Eq(s.cap, BV(64, 0)), Not(Ult(s.obj, entry.next)), And(objEq(s.obj, is.obj), Eq(s.idx, is.idx)))
					})
				}
				ints = append(ints, iv{"len(" + p.Name() + ")", func(st *State, vs []Val) *Term { return sl0(vs).len }, is.len, true})
			}
		}
	}
	for _, r := range f.cells(m) {
		r := r
		ini := c.readCell(entry, r)
		sg := true
		if r.w == 32 {
			sg = false
		}
		ints = append(ints, iv{r.name, func(st *State, vs []Val) *Term {
			t := c.readCell(st, r)
			if t.w == 32 {
				return Zext(t, 64)
			}
			return t
		}, func() *Term {
			if ini.w == 32 {
				return Zext(ini, 64)
			}
			return ini
		}(), sg})
	}
	for _, x := range ints {
		x := x
		isLen := strings.HasPrefix(x.name, "len(")
		if !isLen {
			addc(x.name+" >= 0", func(st *State, vs []Val) *Term { return Sle(BV(64, 0), x.get(st, vs)) })
			if x.init.isConst() && int64(x.init.val) < 0 {
				addc(x.name+" >= init", func(st *State, vs []Val) *Term { return Sle(x.init, x.get(st, vs)) })
			}
		}
		if !(x.init.isConst() && x.init.val == 0) {
			addc(x.name+" >= init", func(st *State, vs []Val) *Term { return Sle(x.init, x.get(st, vs)) })
			addc(x.name+" <= init", func(st *State, vs []Val) *Term { return Sle(x.get(st, vs), x.init) })
		}
		for _, cv := range consts {
			cv := cv
			if int64(cv) < -1 {
				continue
			}
			addc(fmt.Sprintf("%s <= %d", x.name, int64(cv)), func(st *State, vs []Val) *Term { return Sle(x.get(st, vs), BV(64, cv)) })
			if cv > 0 {
				addc(fmt.Sprintf("%s <= %d-1", x.name, int64(cv)), func(st *State, vs []Val) *Term { return Sle(x.get(st, vs), BV(64, cv-1)) })
				addc(fmt.Sprintf("%s <= %d+1", x.name, int64(cv)), func(st *State, vs []Val) *Term { return Sle(x.get(st, vs), BV(64, cv+1)) })
			}
		}
		done := map[*Term]bool{}
		for _, b := range invs {
			b := b
			done[b.t] = true
			addc(x.name+" <= "+b.name, func(st *State, vs []Val) *Term { return Sle(x.get(st, vs), b.t) })
			addc(x.name+" < "+b.name, func(st *State, vs []Val) *Term { return Slt(x.get(st, vs), b.t) })
		}
		for _, b := range sl {
			b := b
			if !done[b.t] {
				addc(x.name+" <= len("+b.name+")", func(st *State, vs []Val) *Term { return Sle(x.get(st, vs), b.t) })
			}
			addc(x.name+" <= 8*len("+b.name+")", func(st *State, vs []Val) *Term { return Sle(x.get(st, vs), Mul(b.t, BV(64, 8))) })
		}
	}
	// lockstep pairs
	if len(ints) <= 6 {
		for i := range ints {
			for j := i + 1; j < len(ints); j++ {
				a, b := ints[i], ints[j]
				addc(a.name+" - "+b.name+" const", func(st *State, vs []Val) *Term {
					return Eq(Sub(a.get(st, vs), a.init), Sub(b.get(st, vs), b.init))
				})
				addc(a.name+" + "+b.name+" const", func(st *State, vs []Val) *Term {
					return Eq(Add(a.get(st, vs), b.get(st, vs)), Add(a.init, b.init))
				})
			}
		}
	}
	return out
}

func (f *Frame) measures(l *Loop, hs *State, phis []*ssa.Phi, hdrVals []Val, path string) []measure {
	c := f.c
	if c.suppress > 0 {
		return nil
	}
	var out []measure
	add := func(name string, at func(st *State, vs []Val) *Term) {
		if c.dropped["m:"+path+"|"+name] {
			return
		}
		out = append(out, measure{name, at})
	}
	m := c.marks[path]
	if f.spec != nil {
		for _, fn := range c.forUnit(f.spec.decs[l.idx]) {
			fn := fn
			if _, ok := f.specFn(l, fn, hs, phis, hdrVals, "probe"); !ok {
				c.lostInv = append(c.lostInv, fn.Name())
				continue
			}
			add(fn.Name(), func(st *State, vs []Val) *Term {
				v, ok := f.specFn(l, fn, st, phis, vs, "dec")
				if !ok {
					return nil
				}
				return v.(*Term)
			})
		}
		if len(out) > 0 {
			return out
		}
	}
	consts, invs := f.boundTerms(l, hs, phis, m)
	sl := f.slicesInScope(l)
	type iv struct {
		name string
		get  func(st *State, vs []Val) *Term
	}
	var ints []iv
	for i, p := range phis {
		i, p := i, p
		switch x := hdrVals[i].(type) {
		case *Term:
			if x.w == 0 || isFloat(p.Type()) {
				continue
			}
			ints = append(ints, iv{p.Name(), func(st *State, vs []Val) *Term { return ext64(vs[i].(*Term), p.Type()) }})
		case *Slice:
			ints = append(ints, iv{"len(" + p.Name() + ")", func(st *State, vs []Val) *Term { return vs[i].(*Slice).len }})
		}
	}
	for _, r := range f.cells(m) {
		r := r
		ints = append(ints, iv{r.name, func(st *State, vs []Val) *Term {
			t := c.readCell(st, r)
			if t.w == 32 {
				return Zext(t, 64)
			}
			return t
		}})
	}
	for _, x := range ints {
		x := x
		add(x.name, func(st *State, vs []Val) *Term { return x.get(st, vs) })
		seen := map[*Term]bool{}
		for _, b := range append(append([]namedTerm(nil), invs...), sl...) {
			b := b
			if seen[b.t] {
				continue
			}
			seen[b.t] = true
			add(b.name+" - "+x.name, func(st *State, vs []Val) *Term { return Sub(b.t, x.get(st, vs)) })
		}
		seenC := map[uint64]bool{}
		for _, cv := range consts {
			cv := cv
			if int64(cv) <= 0 || seenC[cv] {
				continue
			}
			seenC[cv] = true
			add(fmt.Sprintf("%d - %s", cv, x.name), func(st *State, vs []Val) *Term { return Sub(BV(64, cv), x.get(st, vs)) })
		}
		for _, b := range sl {
			b := b
			add("8*len("+b.name+") - "+x.name, func(st *State, vs []Val) *Term { return Sub(Mul(b.t, BV(64, 8)), x.get(st, vs)) })
		}
	}
	return out
}
