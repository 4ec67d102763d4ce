package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type model func(c *Ctx, st *State, fn *ssa.Function, args []Val, pos token.Pos, site string) (*State, []Val)
type imodel func(c *Ctx, st *State, recv *Iface, args []Val, x *ssa.Call) (*State, []Val)

var ifaceModels = map[string]imodel{}

const errTag = 60000

func (c *Ctx) newError(site string) *Iface {
	o := c.fresh("err.obj."+site, 32)
	return &Iface{BV(32, errTag), o, BV(64, 0)}
}

func mErr(c *Ctx, st *State, fn *ssa.Function, args []Val, pos token.Pos, site string) (*State, []Val) {
	return st, []Val{c.newError(site)}
}

func one(v Val) []Val { return []Val{v} }

const vfPkg = "github.com/bluenviron/mediacommon/v2/internal/vf"

var models map[string]model

func init() {
	models = map[string]model{
		"fmt.Errorf": mErr,
		"fmt.Sprint": func(c *Ctx, st *State, fn *ssa.Function, args []Val, pos token.Pos, site string) (*State, []Val) {
			return st, one(c.freshOr(types.Typ[types.String], "sprint", st))
		},
		"errors.New": mErr,
		"fmt.Sprintf": func(c *Ctx, st *State, fn *ssa.Function, args []Val, pos token.Pos, site string) (*State, []Val) {
			return st, one(c.freshOr(types.Typ[types.String], "sprintf", st))
		},
		"errors.Is": func(c *Ctx, st *State, fn *ssa.Function, args []Val, pos token.Pos, site string) (*State, []Val) {
			a, b := args[0].(*Iface), args[1].(*Iface)
			r := c.fresh("errors.Is", 0)
			// identical errors match; a nil error never matches a non-nil target
			c.assume(st.pc, Implies(Eq(a.tag, BV(32, 0)), Eq(r, Eq(b.tag, BV(32, 0)))))
			return st, one(r)
		},
		"errors.As": func(c *Ctx, st *State, fn *ssa.Function, args []Val, pos token.Pos, site string) (*State, []Val) {
			r := c.fresh("errors.As", 0)
			return st, one(r)
		},
		"bytes.Equal": func(c *Ctx, st *State, fn *ssa.Function, args []Val, pos token.Pos, site string) (*State, []Val) {
			return st, one(c.bytesEq(st, args[0].(*Slice), args[1].(*Slice)))
		},
		"bytes.HasPrefix": func(c *Ctx, st *State, fn *ssa.Function, args []Val, pos token.Pos, site string) (*State, []Val) {
			a, b := args[0].(*Slice), args[1].(*Slice)
			return st, one(And(Ule(b.len, a.len), c.bytesEq(st, &Slice{a.obj, a.idx, b.len, b.len}, b)))
		},
		"bytes.Contains": func(c *Ctx, st *State, fn *ssa.Function, args []Val, pos token.Pos, site string) (*State, []Val) {
			s2, r := mBytesIndex(c, st, fn, args, pos, site)
			return s2, one(Not(Eq(r[0].(*Term), I64(-1))))
		},
		"bytes.Index": mBytesIndex,
		// growSlice(b, n): the bytes of b in a new array with room for n more (panics when out of memory)
		"bytes.growSlice": func(c *Ctx, st *State, fn *ssa.Function, args []Val, pos token.Pos, site string) (*State, []Val) {
			b, n := args[0].(*Slice), args[1].(*Term)
			u8 := types.Typ[types.Uint8]
			ks := map[string]int{}
			leafKeys(u8, elemKey(u8), ks)
			st = st.clone()
			cp := c.fresh("growSlice.cap", 64)
			c.assume(st.pc, And(Sle(Add(b.len, n), cp), Ult(cp, BV(64, 1<<42))))
			srcs := map[string]*Arr{}
			for k, w := range ks {
				srcs[k] = c.getArr(st, b.obj, k, w)
			}
			o := c.alloc(st, ks)
			for _, k := range sortedKeys(ks) {
				dst := c.getArr(st, o, k, ks[k])
				st.heaps[k] = heapStore(st.heaps[k], o, arrCopy(dst, I64(0), srcs[k], b.idx, b.len))
			}
			return st, []Val{&Slice{o, I64(0), b.len, cp}}
		},
		"math.Round": mFloat1("round"), "math.Ceil": mFloat1("ceil"), "math.Floor": mFloat1("floor"), "math.Log2": mFloat1("log2"),
		"math.Float64frombits": func(c *Ctx, st *State, fn *ssa.Function, args []Val, pos token.Pos, site string) (*State, []Val) {
			return st, one(args[0])
		},
		vfPkg + ".Assume": func(c *Ctx, st *State, fn *ssa.Function, args []Val, pos token.Pos, site string) (*State, []Val) {
			b := args[0].(*Term)
			c.assume(st.pc, b)
			n := st.clone()
			n.pc = And(st.pc, b)
			return n, nil
		},
		vfPkg + ".Assert": func(c *Ctx, st *State, fn *ssa.Function, args []Val, pos token.Pos, site string) (*State, []Val) {
			nm := "assert"
			if s, ok := args[1].(*Str); ok && s.lit != nil {
				nm = *s.lit
			}
			c.oblige(st, "assert", nm, pos, args[0].(*Term))
			return st, nil
		},
		vfPkg + ".Requires": func(c *Ctx, st *State, fn *ssa.Function, args []Val, pos token.Pos, site string) (*State, []Val) {
			b := args[0].(*Term)
			if sp := c.topSpec(); sp != nil && sp.use {
				nm := sp.ct.wrapName
				o := c.suppress
				if c.specDepthSuppress > 0 {
					c.suppress -= c.specDepthSuppress
				}
				c.oblige(st, "requires", nm, sp.pos, b)
				c.suppress = o
				return st, nil
			}
			c.requires++
			c.assume(st.pc, b)
			n := st.clone()
			n.pc = And(st.pc, b)
			return n, nil
		},
		vfPkg + ".Ensures": func(c *Ctx, st *State, fn *ssa.Function, args []Val, pos token.Pos, site string) (*State, []Val) {
			b := args[0].(*Term)
			if sp := c.topSpec(); sp != nil && sp.use {
				c.assume(st.pc, b)
				return st, nil
			}
			nm := "ensures"
			if s, ok := args[1].(*Str); ok && s.lit != nil {
				nm = *s.lit
			}
			c.oblige(st, "ensures", nm, pos, b)
			return st, nil
		},
		vfPkg + ".EnsuresFull": func(c *Ctx, st *State, fn *ssa.Function, args []Val, pos token.Pos, site string) (*State, []Val) {
			b := args[0].(*Term)
			if sp := c.topSpec(); sp != nil && sp.use {
				if c.unit != nil && c.unit.full {
					c.assume(st.pc, b)
				}
				return st, nil
			}
			if lightMode {
				return st, nil
			}
			nm := "ensures"
			if s, ok := args[1].(*Str); ok && s.lit != nil {
				nm = *s.lit
			}
			c.oblige(st, "ensures", nm, pos, b)
			return st, nil
		},
		vfPkg + ".Full": func(c *Ctx, st *State, fn *ssa.Function, args []Val, pos token.Pos, site string) (*State, []Val) {
			if sp := c.topSpec(); sp != nil && sp.use {
				return st, one(Bool(c.unit != nil && c.unit.full))
			}
			return st, one(Bool(!lightMode))
		},
		vfPkg + ".EnsuresTrusted": func(c *Ctx, st *State, fn *ssa.Function, args []Val, pos token.Pos, site string) (*State, []Val) {
			if sp := c.topSpec(); sp != nil && sp.use {
				nm := ""
				if s, ok := args[1].(*Str); ok && s.lit != nil {
					nm = *s.lit
				}
				c.trusted["unproved postcondition of "+sp.ct.wrapName+": "+nm] = true
				c.assume(st.pc, args[0].(*Term))
			}
			return st, nil
		},
		vfPkg + ".Modifies":      mModifies(false),
		vfPkg + ".ModifiesArray": mModifies(true),
		vfPkg + ".Old": func(c *Ctx, st *State, fn *ssa.Function, args []Val, pos token.Pos, site string) (*State, []Val) {
			fv, ok := args[0].(*FuncV)
			if !ok || c.preState == nil {
				unsup("Old outside of an invariant")
			}
			pre := c.preState
			h := &State{pc: st.pc, heaps: map[string]*Heap{}, next: st.next}
			keys := map[string]int{}
			for k, x := range st.heaps {
				keys[k] = x.w
			}
			for k, x := range pre.heaps {
				keys[k] = x.w
			}
			for k, w := range keys {
				a, b := c.heap(pre, k, w), c.heap(st, k, w)
				if a == b {
					h.heaps[k] = a
					continue
				}
				h.heaps[k] = heapHavoc(a, b, func(o *Term) *Term {
					if knownBelow(o, pre.next) {
						return tFalse
					}
					if isCounter(o) && counterLeq(pre.next, o) {
						return tTrue
					}
					return Not(Ult(o, pre.next))
				})
			}
			c.path = append(c.path, "old~"+site)
			_, vals := c.callFn(fv.fn, nil, fv.bind, h)
			c.path = c.path[:len(c.path)-1]
			return st, vals
		},
		vfPkg + ".Any": func(c *Ctx, st *State, fn *ssa.Function, args []Val, pos token.Pos, site string) (*State, []Val) {
			t := fn.Signature.Results().At(0).Type()
			v := c.freshVal(t, "any."+site, BV(32, initialNext))
			c.wfVal(st, v, t)
			return st, []Val{v}
		},
		vfPkg + ".Snap": func(c *Ctx, st *State, fn *ssa.Function, args []Val, pos token.Pos, site string) (*State, []Val) {
			s := args[0].(*Slice)
			et := under(fn.Signature.Results().At(0).Type()).(*types.Slice).Elem()
			ks := map[string]int{}
			leafKeys(et, elemKey(et), ks)
			st = st.clone()
			srcs := map[string]*Arr{}
			for k, w := range ks {
				srcs[k] = c.getArr(st, s.obj, k, w)
			}
			o := c.alloc(st, ks)
			for _, k := range sortedKeys(ks) {
				st.heaps[k] = heapStore(st.heaps[k], o, srcs[k])
			}
			return st, []Val{&Slice{o, s.idx, s.len, s.cap}}
		},
		vfPkg + ".Hint": func(c *Ctx, st *State, fn *ssa.Function, args []Val, pos token.Pos, site string) (*State, []Val) {
			return st, nil
		},
		vfPkg + ".Forall": mForall,
		vfPkg + ".Count": func(c *Ctx, st *State, fn *ssa.Function, args []Val, pos token.Pos, site string) (*State, []Val) {
			return mCount(c, st, args, site, false)
		},
		vfPkg + ".Sum": func(c *Ctx, st *State, fn *ssa.Function, args []Val, pos token.Pos, site string) (*State, []Val) {
			return mCount(c, st, args, site, true)
		},
		vfPkg + ".Fix":  mFix,
		vfPkg + ".ForK": mForConst("vf.K"),
		vfPkg + ".ForJ": mForConst("vf.J"),
		vfPkg + ".K": func(c *Ctx, st *State, fn *ssa.Function, args []Val, pos token.Pos, site string) (*State, []Val) {
			return st, one(Var("vf.K", 64))
		},
		vfPkg + ".J": func(c *Ctx, st *State, fn *ssa.Function, args []Val, pos token.Pos, site string) (*State, []Val) {
			return st, one(Var("vf.J", 64))
		},
		vfPkg + ".BytesEq": func(c *Ctx, st *State, fn *ssa.Function, args []Val, pos token.Pos, site string) (*State, []Val) {
			return st, one(c.bytesEq(st, args[0].(*Slice), args[1].(*Slice)))
		},
		vfPkg + ".Same": func(c *Ctx, st *State, fn *ssa.Function, args []Val, pos token.Pos, site string) (*State, []Val) {
			a, b := args[0].(*Slice), args[1].(*Slice)
			return st, one(And(Eq(a.len, b.len), Or(Eq(a.len, BV(64, 0)), And(objEq(a.obj, b.obj), Eq(a.idx, b.idx)))))
		},
		vfPkg + ".Disjoint": func(c *Ctx, st *State, fn *ssa.Function, args []Val, pos token.Pos, site string) (*State, []Val) {
			a, b := args[0].(*Slice), args[1].(*Slice)
			return st, one(Or(Not(objEq(a.obj, b.obj)), Ule(Add(a.idx, a.cap), b.idx), Ule(Add(b.idx, b.cap), a.idx)))
		},
		vfPkg + ".Within": func(c *Ctx, st *State, fn *ssa.Function, args []Val, pos token.Pos, site string) (*State, []Val) {
			// a lies inside b
			a, b := args[0].(*Slice), args[1].(*Slice)
			return st, one(Or(Eq(a.len, BV(64, 0)), And(objEq(a.obj, b.obj), Ule(b.idx, a.idx), Ule(Add(a.idx, a.len), Add(b.idx, b.len)))))
		},
		vfPkg + ".Fresh": func(c *Ctx, st *State, fn *ssa.Function, args []Val, pos token.Pos, site string) (*State, []Val) {
			s := args[0].(*Slice)
			if c.bodyEntry == nil {
				return st, one(tTrue)
			}
			return st, one(Or(Eq(s.cap, BV(64, 0)), Not(Ult(s.obj, c.bodyEntry))))
		},
		vfPkg + ".Separate": func(c *Ctx, st *State, fn *ssa.Function, args []Val, pos token.Pos, site string) (*State, []Val) {
			return st, one(Not(objEq(args[0].(*Slice).obj, args[1].(*Slice).obj)))
		},
	}
}

func mModifies(whole bool) model {
	return func(c *Ctx, st *State, fn *ssa.Function, args []Val, pos token.Pos, site string) (*State, []Val) {
		i := args[0].(*Iface)
		if !i.tag.isConst() {
			unsup("modifies with unknown type")
		}
		t := c.e.tagTypes[i.tag.val]
		m := modTarget{v: c.unboxed(st, i, t), t: t, whole: whole}
		if sp := c.topSpec(); sp != nil && sp.use {
			sp.mods = append(sp.mods, m)
		} else {
			c.bodyMods = append(c.bodyMods, m)
		}
		return st, nil
	}
}

// mForConst: where it is proved, a quantified fact is proved for an arbitrary constant; where it is
// used (at the calls of the function under contract) it holds for all values.
func mForConst(name string) model {
	return func(c *Ctx, st *State, fn *ssa.Function, args []Val, pos token.Pos, site string) (*State, []Val) {
		if sp := c.topSpec(); sp != nil && sp.use {
			return mForall(c, st, fn, args, pos, site)
		}
		lo, hi, fv := args[0].(*Term), args[1].(*Term), args[2].(*FuncV)
		k := Var(name, 64)
		c.suppress++
		c.path = append(c.path, "for~"+site)
		s := st.clone()
		s.pc = And(st.pc, Sle(lo, k), Slt(k, hi))
		savedLoops := c.loopStack
		c.loopStack = nil
		_, vals := c.callFn(fv.fn, []Val{k}, fv.bind, s)
		c.loopStack = savedLoops
		c.path = c.path[:len(c.path)-1]
		c.suppress--
		return st, one(Or(Not(Sle(lo, k)), Not(Slt(k, hi)), vals[0].(*Term)))
	}
}

func mFloat1(n string) model {
	return func(c *Ctx, st *State, fn *ssa.Function, args []Val, pos token.Pos, site string) (*State, []Val) {
		return st, one(App("fl."+n, 64, args[0].(*Term)))
	}
}

func (c *Ctx) bytesEq(st *State, a, b *Slice) *Term {
	k := "e:uint8"
	aa, bb := c.getArr(st, a.obj, k, 8), c.getArr(st, b.obj, k, 8)
	le := Eq(a.len, b.len)
	if le == tFalse {
		return tFalse
	}
	if aa == bb && a.idx == b.idx {
		return le
	}
	if n := a.len; n.op == OConst && n.val <= 64 || b.len.op == OConst && b.len.val <= 64 {
		if n.op != OConst {
			n = b.len
		}
		r := le
		for i := uint64(0); i < n.val; i++ {
			r = And(r, Eq(arrRead(aa, Add(a.idx, BV(64, i))), arrRead(bb, Add(b.idx, BV(64, i)))))
		}
		return r
	}
	q := Var("?q0", 64)
	body := Eq(arrRead(aa, Add(a.idx, q)), arrRead(bb, Add(b.idx, q)))
	return And(le, mkForall(BV(64, 0), a.len, body, q))
}

func mForall(c *Ctx, st *State, fn *ssa.Function, args []Val, pos token.Pos, site string) (*State, []Val) {
	lo, hi := args[0].(*Term), args[1].(*Term)
	fv, ok := args[2].(*FuncV)
	if !ok {
		unsup("Forall over unknown function")
	}
	body := func(i *Term) *Term {
		c.suppress++
		defer func() { c.suppress-- }()
		c.path = append(c.path, "forall~"+site)
		defer func() { c.path = c.path[:len(c.path)-1] }()
		s := st.clone()
		s.pc = tTrue
		savedLoops := c.loopStack
		c.loopStack = nil
		_, vals := c.callFn(fv.fn, []Val{i}, fv.bind, s)
		c.loopStack = savedLoops
		return vals[0].(*Term)
	}
	if lo.isConst() && hi.isConst() && int64(hi.val-lo.val) <= 72 {
		r := tTrue
		for i := int64(lo.val); i < int64(hi.val); i++ {
			r = And(r, body(I64(i)))
		}
		return st, one(r)
	}
	q := Var(fmt.Sprintf("?q%d", c.forallDepth), 64)
	c.forallDepth++
	b := tidy(body(q))
	c.forallDepth--
	return st, one(mkForall(lo, hi, b, q))
}

func mCount(c *Ctx, st *State, args []Val, site string, sum bool) (*State, []Val) {
	n := args[0].(*Term)
	fv, ok := args[1].(*FuncV)
	if !ok {
		unsup("Count over unknown function")
	}
	c.suppress++
	defer func() { c.suppress-- }()
	c.path = append(c.path, "count~"+site)
	defer func() { c.path = c.path[:len(c.path)-1] }()
	q := Var("?c0", 64)
	savedLoops := c.loopStack
	c.loopStack = nil
	s := st.clone()
	s.pc = tTrue
	_, vals := c.callFn(fv.fn, []Val{q}, fv.bind, s)
	c.loopStack = savedLoops
	b := vals[0].(*Term)
	if sum {
		b = Ite(Ule(b, BV(64, sumClamp)), b, BV(64, 0))
	} else {
		b = Ite(tidy(b), BV(64, 1), BV(64, 0))
	}
	return st, one(mkCount(n, b, q, sum))
}

// RecV is the recursive function inside the step of vf.Fix.
type RecV struct {
	calls func(pc, arg *Term)
}

func (c *Ctx) callRec(r *RecV, st *State, arg *Term) Val {
	if r.calls != nil {
		r.calls(st.pc, arg)
	}
	return App(fixSelf, 64, arg)
}

func mFix(c *Ctx, st *State, fn *ssa.Function, args []Val, pos token.Pos, site string) (*State, []Val) {
	x := args[0].(*Term)
	fv, ok := args[1].(*FuncV)
	if !ok {
		unsup("Fix over unknown function")
	}
	run := func(bv *Term, r *RecV) *Term {
		c.suppress++
		defer func() { c.suppress-- }()
		c.path = append(c.path, "fix~"+site)
		defer func() { c.path = c.path[:len(c.path)-1] }()
		savedLoops := c.loopStack
		c.loopStack = nil
		s := st.clone()
		s.pc = tTrue
		_, vals := c.callFn(fv.fn, []Val{bv, r}, fv.bind, s)
		c.loopStack = savedLoops
		return vals[0].(*Term)
	}
	// the recursion goes up, so the function is well defined
	if key := fv.fn.String(); !c.fixSeen[key] {
		if c.fixSeen == nil {
			c.fixSeen = map[string]bool{}
		}
		c.fixSeen[key] = true
		v := Var("fix.arg!"+fv.fn.Name(), 64)
		n := 0
		run(v, &RecV{calls: func(pc, arg *Term) {
			n++
			c.obls = append(c.obls, &Obl{name: fmt.Sprintf("%s:recursion-increases@%d", fv.fn.Name(), n), kind: "termination", pos: pos, pc: pc, cond: Slt(v, arg), nass: len(c.ass)})
		}})
	}
	bv := Var("?f0", 64)
	return st, one(mkFix(x, run(bv, &RecV{}), bv))
}

func mBytesIndex(c *Ctx, st *State, fn *ssa.Function, args []Val, pos token.Pos, site string) (*State, []Val) {
	s, sep := args[0].(*Slice), args[1].(*Slice)
	if !sep.len.isConst() || sep.len.val == 0 || sep.len.val > 16 {
		unsup("bytes.Index with non-constant separator")
	}
	n := sep.len.val
	r := c.fresh("index."+site, 64)
	k := "e:uint8"
	sa, pa := c.getArr(st, s.obj, k, 8), c.getArr(st, sep.obj, k, 8)
	at := func(i *Term) *Term {
		m := tTrue
		for j := uint64(0); j < n; j++ {
			m = And(m, Eq(arrRead(sa, Add(s.idx, Add(i, BV(64, j)))), arrRead(pa, Add(sep.idx, BV(64, j)))))
		}
		return m
	}
	found := Not(Eq(r, I64(-1)))
	c.assume(st.pc, Or(Not(found), And(Sle(BV(64, 0), r), Sle(r, Sub(s.len, BV(64, n))), Sle(BV(64, n), s.len), at(r))))
	q := Var("?q0", 64)
	lim := Ite(found, r, Sub(s.len, BV(64, n-1)))
	c.assume(st.pc, mkForall(BV(64, 0), lim, Not(at(q)), q))
	return st, one(r)
}

func isVf(name string) bool { return strings.HasPrefix(name, vfPkg) }
