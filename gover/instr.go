package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func ext64(t *Term, ty types.Type) *Term {
	if t.w == 64 {
		return t
	}
	if isSigned(ty) {
		return Sext(t, 64)
	}
	return Zext(t, 64)
}

func leafKeyFor(t types.Type, key string) string {
	switch under(t).(type) {
	case *types.Struct, *types.Array:
		return ""
	}
	return key
}

func (f *Frame) nilCheck(st *State, v ssa.Value, p *Ptr, what string) {
	switch v.(type) {
	case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Alloc, *ssa.Global:
		return
	}
	if isCounter(p.obj) {
		return
	}
	pos := f.c.lastPos
	f.c.oblige(st, "nil", f.fn.Name()+" "+what, pos, Not(Eq(p.obj, BV(32, 0))))
}

func (f *Frame) instr(st *State, ins ssa.Instruction) {
	c := f.c
	if p := ins.Pos(); p.IsValid() {
		c.lastPos = p
	}
	switch x := ins.(type) {
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		ks := map[string]int{}
		leafKeys(t, cellKey(t), ks)
		o := c.alloc(st, ks)
		f.set(st, x, &Ptr{o, BV(64, 0), pointeeKey(t)})

	case *ssa.FieldAddr:
		p := f.ptr(st, x.X)
		f.nilCheck(st, x.X, p, "field "+fieldName(x.X.Type(), x.Field))
		stt := x.X.Type().Underlying().(*types.Pointer).Elem()
		su := under(stt).(*types.Struct)
		ft := su.Field(x.Field).Type()
		f.set(st, x, &Ptr{p.obj, Add(p.idx, I64(fieldOff(su, x.Field))), leafKeyFor(ft, fieldKey(stt, x.Field))})

	case *ssa.Field:
		s, ok := f.val(st, x.X).(*Struct)
		if !ok {
			unsup("field of %T", f.val(st, x.X))
		}
		f.set(st, x, s.f[x.Field])

	case *ssa.IndexAddr:
		i := ext64(f.val(st, x.Index).(*Term), x.Index.Type())
		switch u := under(x.X.Type()).(type) {
		case *types.Slice:
			s, ok := f.val(st, x.X).(*Slice)
			if !ok {
				unsup("index of %T", f.val(st, x.X))
			}
			c.oblige(st, "index", f.fn.Name(), x.Pos(), Ult(i, s.len))
			f.set(st, x, &Ptr{s.obj, Add(s.idx, Mul(i, I64(size(u.Elem())))), leafKeyFor(u.Elem(), elemKey(u.Elem()))})
		case *types.Pointer:
			p := f.ptr(st, x.X)
			at := under(u.Elem()).(*types.Array)
			f.nilCheck(st, x.X, p, "array")
			c.oblige(st, "index", f.fn.Name(), x.Pos(), Ult(i, I64(at.Len())))
			f.set(st, x, &Ptr{p.obj, Add(p.idx, Mul(i, I64(size(at.Elem())))), leafKeyFor(at.Elem(), elemKey(at.Elem()))})
		default:
			unsup("IndexAddr on %s", x.X.Type())
		}

	case *ssa.Index:
		i := ext64(f.val(st, x.Index).(*Term), x.Index.Type())
		switch v := f.val(st, x.X).(type) {
		case *ArrV:
			c.oblige(st, "index", f.fn.Name(), x.Pos(), Ult(i, I64(v.n)))
			f.set(st, x, arrElem(v, i))
		case *Str:
			c.oblige(st, "index", f.fn.Name(), x.Pos(), Ult(i, v.len))
			f.set(st, x, strByte(v, i))
		default:
			unsup("Index on %T", v)
		}

	case *ssa.Lookup:
		f.set(st, x, f.lookup(st, x))

	case *ssa.UnOp:
		f.unop(st, x)

	case *ssa.BinOp:
		f.set(st, x, f.binop(st, x.Op, f.val(st, x.X), f.val(st, x.Y), x.X.Type(), x.Y.Type(), x.Pos()))

	case *ssa.Store:
		p := f.ptr(st, x.Addr)
		f.nilCheck(st, x.Addr, p, "store")
		t := x.Addr.Type().Underlying().(*types.Pointer).Elem()
		c.store(st, p, t, p.key, f.val(st, x.Val))

	case *ssa.Convert:
		f.set(st, x, f.convert(st, f.val(st, x.X), x.X.Type(), x.Type(), x))
	case *ssa.ChangeType:
		v := f.val(st, x.X)
		f.set(st, x, f.changeType(v, x.X.Type(), x.Type()))
	case *ssa.MultiConvert:
		f.set(st, x, f.convert(st, f.val(st, x.X), x.X.Type(), x.Type(), x))
	case *ssa.ChangeInterface:
		f.set(st, x, f.val(st, x.X))

	case *ssa.MakeInterface:
		f.set(st, x, c.makeIface(st, f.val(st, x.X), x.X.Type()))

	case *ssa.TypeAssert:
		f.set(st, x, f.typeAssert(st, x))

	case *ssa.Extract:
		t, ok := f.val(st, x.Tuple).(Tuple)
		if !ok {
			unsup("extract of %T", f.val(st, x.Tuple))
		}
		f.set(st, x, t[x.Index])

	case *ssa.Slice:
		f.set(st, x, f.slice(st, x))

	case *ssa.MakeSlice:
		n := ext64(f.val(st, x.Len).(*Term), x.Len.Type())
		cp := ext64(f.val(st, x.Cap).(*Term), x.Cap.Type())
		et := under(x.Type()).(*types.Slice).Elem()
		c.oblige(st, "makeslice", f.fn.Name(), x.Pos(), And(Ult(n, BV(64, maxMake)), Ule(n, cp), Ult(cp, BV(64, maxMake))))
		ks := map[string]int{}
		leafKeys(et, elemKey(et), ks)
		o := c.alloc(st, ks)
		f.set(st, x, &Slice{o, BV(64, 0), n, cp})

	case *ssa.MakeClosure:
		fv := &FuncV{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			fv.bind = append(fv.bind, f.val(st, b))
		}
		f.set(st, x, fv)

	case *ssa.MakeMap:
		if c.initMode {
			f.set(st, x, &MapV{static: true})
		} else {
			o := c.alloc(st, nil)
			f.set(st, x, &MapV{obj: o})
		}

	case *ssa.MapUpdate:
		m, ok := f.val(st, x.Map).(*MapV)
		if !ok {
			unsup("map update on %T", f.val(st, x.Map))
		}
		if m.static {
			if !c.initMode {
				unsup("update of a package-level map")
			}
			m.entries = append(m.entries, mapEnt{f.val(st, x.Key), f.val(st, x.Value)})
		} else {
			c.oblige(st, "nilmap", f.fn.Name(), x.Pos(), Not(Eq(m.obj, BV(32, 0))))
		}

	case *ssa.Range:
		f.set(st, x, &Opaque{"range"})
	case *ssa.Next:
		tt := x.Type().(*types.Tuple)
		f.set(st, x, Tuple{c.fresh("next.ok", 0), c.freshOr(tt.At(1).Type(), "next.k", st), c.freshOr(tt.At(2).Type(), "next.v", st)})

	case *ssa.Call:
		nst, v := f.call(st, &x.Call, x)
		*st = *nst
		if v != nil {
			f.set(st, x, v)
		}

	case *ssa.Defer:
		unsup("defer in %s", f.fn)
	case *ssa.RunDefers:
	case *ssa.Go:
		unsup("go statement")
	case *ssa.Send, *ssa.Select:
		unsup("channel operation")
	case *ssa.SliceToArrayPointer:
		s := f.val(st, x.X).(*Slice)
		at := under(x.Type().Underlying().(*types.Pointer).Elem()).(*types.Array)
		c.oblige(st, "slice2array", f.fn.Name(), x.Pos(), Ule(I64(at.Len()), s.len))
		f.set(st, x, &Ptr{s.obj, s.idx, ""})
	default:
		unsup("instruction %T", ins)
	}
}

func (c *Ctx) freshOr(t types.Type, name string, st *State) Val {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return &Opaque{"invalid"}
	}
	v := c.freshVal(t, name, st.next)
	c.wfVal(st, v, t)
	return v
}

func fieldName(t types.Type, i int) string {
	return under(t.Underlying().(*types.Pointer).Elem()).(*types.Struct).Field(i).Name()
}

func (f *Frame) ptr(st *State, v ssa.Value) *Ptr {
	x := f.val(st, v)
	p, ok := x.(*Ptr)
	if !ok {
		unsup("pointer expected, got %T (%v) in %s", x, x, f.fn)
	}
	return p
}

func strByte(s *Str, i *Term) *Term {
	if s.lit != nil {
		if i.isConst() && i.val < uint64(len(*s.lit)) {
			return BV(8, uint64((*s.lit)[i.val]))
		}
		r := BV(8, 0)
		if len(*s.lit) <= 64 {
			for k := len(*s.lit) - 1; k >= 0; k-- {
				r = Ite(Eq(i, BV(64, uint64(k))), BV(8, uint64((*s.lit)[k])), r)
			}
			return r
		}
	}
	return App("strbyte", 8, s.id, i)
}

func (f *Frame) lookup(st *State, x *ssa.Lookup) Val {
	c := f.c
	v := f.val(st, x.X)
	switch m := v.(type) {
	case *Str:
		i := ext64(f.val(st, x.Index).(*Term), x.Index.Type())
		c.oblige(st, "index", f.fn.Name(), x.Pos(), Ult(i, m.len))
		return strByte(m, i)
	case *MapV:
		mt := under(x.X.Type()).(*types.Map)
		key := f.val(st, x.Index)
		var val Val
		var ok *Term
		if m.static {
			val = zeroVal(mt.Elem())
			ok = tFalse
			for i := len(m.entries) - 1; i >= 0; i-- {
				e := eqVal(m.entries[i].k, key)
				val = iteVal(e, m.entries[i].v, val)
				ok = Or(ok, e)
			}
		} else {
			fv := c.freshOr(mt.Elem(), "lookup", st)
			ok = c.fresh("lookup.ok", 0)
			val = iteVal(ok, fv, zeroVal(mt.Elem()))
		}
		if x.CommaOk {
			return Tuple{val, ok}
		}
		return val
	}
	unsup("lookup on %T", v)
	return nil
}

func (f *Frame) unop(st *State, x *ssa.UnOp) {
	c := f.c
	switch x.Op {
	case token.MUL:
		if g, ok := x.X.(*ssa.Global); ok {
			if v, ok := c.globalVal(g); ok {
				f.set(st, x, v)
				return
			}
		}
		p := f.ptr(st, x.X)
		f.nilCheck(st, x.X, p, "load")
		f.set(st, x, c.load(st, p, x.Type(), p.key))
	case token.SUB:
		if isFloat(x.Type()) {
			t := f.val(st, x.X).(*Term)
			f.set(st, x, App("fneg", t.w, t))
			return
		}
		f.set(st, x, Neg(f.val(st, x.X).(*Term)))
	case token.NOT:
		f.set(st, x, Not(f.val(st, x.X).(*Term)))
	case token.XOR:
		f.set(st, x, BNot(f.val(st, x.X).(*Term)))
	default:
		unsup("unop %s", x.Op)
	}
}

func (f *Frame) binop(st *State, op token.Token, a, b Val, ta, tb types.Type, pos token.Pos) Val {
	c := f.c
	switch op {
	case token.EQL:
		return eqVal(a, b)
	case token.NEQ:
		return Not(eqVal(a, b))
	}
	if sa, ok := a.(*Str); ok {
		sb := b.(*Str)
		switch op {
		case token.ADD:
			if sa.lit != nil && sb.lit != nil {
				return strLit(*sa.lit + *sb.lit)
			}
			return &Str{id: App("strcat", 64, sa.id, sb.id), len: Add(sa.len, sb.len)}
		default:
			return c.fresh("strcmp", 0)
		}
	}
	x, ok1 := a.(*Term)
	y, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		unsup("binop %s on %T", op, a)
	}
	if isFloat(ta) {
		w := x.w
		switch op {
		case token.ADD:
			return App("fadd", w, x, y)
		case token.SUB:
			return App("fsub", w, x, y)
		case token.MUL:
			return App("fmul", w, x, y)
		case token.QUO:
			return App("fdiv", w, x, y)
		case token.LSS:
			return App("flt", 0, x, y)
		case token.GTR:
			return App("flt", 0, y, x)
		case token.LEQ:
			return App("fle", 0, x, y)
		case token.GEQ:
			return App("fle", 0, y, x)
		}
	}
	sg := isSigned(ta)
	switch op {
	case token.ADD:
		return Add(x, y)
	case token.SUB:
		return Sub(x, y)
	case token.MUL:
		return Mul(x, y)
	case token.QUO, token.REM:
		c.oblige(st, "div", f.fn.Name(), pos, Not(Eq(y, BV(y.w, 0))))
		if op == token.QUO {
			if sg {
				return SDiv(x, y)
			}
			return UDiv(x, y)
		}
		if sg {
			return SRem(x, y)
		}
		return URem(x, y)
	case token.AND:
		if x.w == 0 {
			return And(x, y)
		}
		return BAnd(x, y)
	case token.OR:
		if x.w == 0 {
			return Or(x, y)
		}
		return BOr(x, y)
	case token.XOR:
		return BXor(x, y)
	case token.AND_NOT:
		return BAnd(x, BNot(y))
	case token.SHL, token.SHR:
		n := y
		if isSigned(tb) {
			c.oblige(st, "shift", f.fn.Name(), pos, Sle(BV(y.w, 0), y))
		}
		if n.w > x.w {
			if umax(n) > uint64(x.w) {
				n = Ite(Ult(n, BV(n.w, uint64(x.w))), n, BV(n.w, uint64(x.w)))
			}
			n = Extract(n, x.w-1, 0)
		} else if n.w < x.w {
			n = Zext(n, x.w)
		}
		if op == token.SHL {
			return Shl(x, n)
		}
		if sg {
			return Ashr(x, n)
		}
		return Lshr(x, n)
	case token.LSS:
		if sg {
			return Slt(x, y)
		}
		return Ult(x, y)
	case token.LEQ:
		if sg {
			return Sle(x, y)
		}
		return Ule(x, y)
	case token.GTR:
		if sg {
			return Slt(y, x)
		}
		return Ult(y, x)
	case token.GEQ:
		if sg {
			return Sle(y, x)
		}
		return Ule(y, x)
	}
	unsup("binop %s", op)
	return nil
}

func (f *Frame) changeType(v Val, from, to types.Type) Val {
	if p, ok := v.(*Ptr); ok {
		if pt, ok := under(to).(*types.Pointer); ok {
			if leafKeyFor(pt.Elem(), "x") != "" && p.key == "" {
				return &Ptr{p.obj, p.idx, pointeeKey(pt.Elem())}
			}
			if _, isS := under(pt.Elem()).(*types.Struct); isS {
				fp := under(from).(*types.Pointer)
				if typeKey(fp.Elem()) != typeKey(pt.Elem()) {
					unsup("pointer conversion between struct types")
				}
			}
		}
		return p
	}
	if ss, ok := under(to).(*types.Slice); ok {
		if fs, ok := under(from).(*types.Slice); ok && elemKey(ss.Elem()) != elemKey(fs.Elem()) {
			unsup("slice conversion changing element type")
		}
	}
	return v
}

func (f *Frame) convert(st *State, v Val, from, to types.Type, x ssa.Value) Val {
	c := f.c
	uf, ut := under(from), under(to)
	if bt, ok := ut.(*types.Basic); ok {
		if bf, ok := uf.(*types.Basic); ok {
			if bt.Info()&types.IsString != 0 {
				if s, ok := v.(*Str); ok {
					return s
				}
				return c.freshOr(to, "str", st)
			}
			t := v.(*Term)
			w := basicWidth(bt)
			ff, ft := isFloat(from), isFloat(to)
			switch {
			case ff && ft:
				if t.w == w {
					return t
				}
				return App(fmt.Sprintf("f%dto%d", t.w, w), w, t)
			case ff:
				r := App(fmt.Sprintf("f%dtoi%d", t.w, w), w, t)
				c.ceilLog2(t, r)
				return r
			case ft:
				return App(fmt.Sprintf("i%v%dtof%d", isSigned(from), t.w, w), w, t)
			}
			_ = bf
			if t.w == w {
				return t
			}
			if t.w > w {
				return Extract(t, w-1, 0)
			}
			if isSigned(from) {
				return Sext(t, w)
			}
			return Zext(t, w)
		}
		if bt.Info()&types.IsString != 0 { // []byte -> string
			s := v.(*Slice)
			r := &Str{id: c.fresh("str.id", 64), len: s.len}
			return r
		}
	}
	if st2, ok := ut.(*types.Slice); ok {
		if s, ok := v.(*Str); ok { // string -> []byte
			ks := map[string]int{}
			leafKeys(st2.Elem(), elemKey(st2.Elem()), ks)
			o := c.alloc(st, ks)
			n := s.len
			if size(st2.Elem()) == 1 && elemKey(st2.Elem()) == "e:uint8" {
				k := "e:uint8"
				if s.lit != nil {
					a := arrConst(BV(8, 0))
					for i := 0; i < len(*s.lit); i++ {
						a = arrStore(a, I64(int64(i)), BV(8, uint64((*s.lit)[i])))
					}
					st.heaps[k] = heapStore(c.heap(st, k, 8), o, a)
				} else {
					hb := heapBase(k, c.fresh("strbytes", 8).name, 8, st.next)
					c.e.stamp(hb.name, c)
					st.heaps[k] = heapStore(c.heap(st, k, 8), o, arrBase(hb, o))
				}
				return &Slice{o, BV(64, 0), n, n}
			}
		}
		if s, ok := v.(*Slice); ok {
			return f.changeType(s, from, to)
		}
	}
	if _, ok := ut.(*types.Pointer); ok {
		return f.changeType(v, from, to)
	}
	unsup("conversion %s to %s", from, to)
	return nil
}

// ---- interfaces

func (e *Engine) typeTag(t types.Type) *Term {
	k := typeKey(t)
	id, ok := e.tags[k]
	if !ok {
		id = uint64(len(e.tags)) + 1
		e.tags[k] = id
		e.tagTypes[id] = t
	}
	return BV(32, id)
}

func (c *Ctx) makeIface(st *State, v Val, t types.Type) *Iface {
	tag := c.e.typeTag(t)
	if p, ok := v.(*Ptr); ok {
		return &Iface{tag, p.obj, p.idx}
	}
	if _, ok := v.(*Opaque); ok {
		return &Iface{tag, c.fresh("box", 32), BV(64, 0)}
	}
	if _, ok := v.(*FuncV); ok {
		return &Iface{tag, c.fresh("box", 32), BV(64, 0)}
	}
	ks := map[string]int{}
	leafKeys(t, cellKey(t), ks)
	o := c.alloc(st, ks)
	// boxes are written once
	p := &Ptr{o, BV(64, 0), pointeeKey(t)}
	c.store(st, p, t, p.key, v)
	return &Iface{tag, o, BV(64, 0)}
}

func (c *Ctx) unboxed(st *State, i *Iface, t types.Type) Val {
	if pt, ok := under(t).(*types.Pointer); ok {
		return &Ptr{i.obj, i.idx, pointeeKey(pt.Elem())}
	}
	return c.load(st, &Ptr{i.obj, i.idx, pointeeKey(t)}, t, pointeeKey(t))
}

func (f *Frame) typeAssert(st *State, x *ssa.TypeAssert) Val {
	c := f.c
	i, ok := f.val(st, x.X).(*Iface)
	if !ok {
		unsup("type assertion on %T", f.val(st, x.X))
	}
	if _, isI := under(x.AssertedType).(*types.Interface); isI {
		okT := c.implements(i.tag, x.AssertedType)
		if x.CommaOk {
			return Tuple{iteVal(okT, i, zeroVal(x.AssertedType)), okT}
		}
		c.oblige(st, "typeassert", f.fn.Name(), x.Pos(), okT)
		return i
	}
	okT := Eq(i.tag, c.e.typeTag(x.AssertedType))
	if x.CommaOk {
		s2 := st.clone()
		s2.pc = And(st.pc, okT)
		v := zeroVal(x.AssertedType)
		if s2.pc != tFalse {
			v = iteVal(okT, c.unboxed(s2, i, x.AssertedType), v)
		}
		return Tuple{v, okT}
	}
	c.oblige(st, "typeassert", f.fn.Name(), x.Pos(), okT)
	return c.unboxed(st, i, x.AssertedType)
}

func (c *Ctx) implements(tag *Term, t types.Type) *Term {
	if tag.isConst() {
		if tag.val == 0 {
			return tFalse
		}
		if ct, ok := c.e.tagTypes[tag.val]; ok {
			return Bool(types.Implements(ct, under(t).(*types.Interface)))
		}
	}
	if tag.op == OIte {
		return iteB(tag.args[0], c.implements(tag.args[1], t), c.implements(tag.args[2], t))
	}
	if types.NewMethodSet(t).Len() == 0 {
		return Not(Eq(tag, BV(32, 0)))
	}
	return And(Not(Eq(tag, BV(32, 0))), App("impl!"+typeKey(t), 0, tag))
}

// ---- slicing

func (f *Frame) slice(st *State, x *ssa.Slice) Val {
	c := f.c
	get := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return ext64(f.val(st, v).(*Term), v.Type())
	}
	lo, hi, mx := get(x.Low), get(x.High), get(x.Max)
	if lo == nil {
		lo = BV(64, 0)
	}
	switch u := under(x.X.Type()).(type) {
	case *types.Slice:
		s, ok := f.val(st, x.X).(*Slice)
		if !ok {
			unsup("slice of %T", f.val(st, x.X))
		}
		if hi == nil {
			hi = s.len
		}
		cp := s.cap
		if mx != nil {
			c.oblige(st, "slice", f.fn.Name(), x.Pos(), And(Ule(lo, hi), Ule(hi, mx), Ule(mx, s.cap)))
			cp = mx
		} else {
			c.oblige(st, "slice", f.fn.Name(), x.Pos(), And(Ule(lo, hi), Ule(hi, s.cap)))
		}
		return &Slice{s.obj, Add(s.idx, Mul(lo, I64(size(u.Elem())))), Sub(hi, lo), Sub(cp, lo)}
	case *types.Pointer:
		p := f.ptr(st, x.X)
		at := under(u.Elem()).(*types.Array)
		f.nilCheck(st, x.X, p, "array slice")
		n := I64(at.Len())
		if hi == nil {
			hi = n
		}
		cp := n
		if mx != nil {
			cp = mx
		}
		c.oblige(st, "slice", f.fn.Name(), x.Pos(), And(Ule(lo, hi), Ule(hi, cp), Ule(cp, n)))
		return &Slice{p.obj, Add(p.idx, Mul(lo, I64(size(at.Elem())))), Sub(hi, lo), Sub(cp, lo)}
	case *types.Basic:
		s := f.val(st, x.X).(*Str)
		if hi == nil {
			hi = s.len
		}
		c.oblige(st, "slice", f.fn.Name(), x.Pos(), And(Ule(lo, hi), Ule(hi, s.len)))
		if s.lit != nil && lo.isConst() && hi.isConst() {
			return strLit((*s.lit)[lo.val:hi.val])
		}
		return &Str{id: App("substr", 64, s.id, lo, hi), len: Sub(hi, lo)}
	}
	unsup("slice of %s", x.X.Type())
	return nil
}

// ---- calls

func (f *Frame) call(st *State, cc *ssa.CallCommon, x *ssa.Call) (*State, Val) {
	c := f.c
	pack := func(s *State, vals []Val) (*State, Val) {
		switch len(vals) {
		case 0:
			return s, nil
		case 1:
			return s, vals[0]
		}
		return s, Tuple(vals)
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return st, f.builtin(st, b.Name(), cc, x)
	}
	var args []Val
	for _, a := range cc.Args {
		args = append(args, f.val(st, a))
	}
	if cc.IsInvoke() {
		recv, ok := f.val(st, cc.Value).(*Iface)
		if !ok {
			unsup("invoke on %T", f.val(st, cc.Value))
		}
		c.oblige(st, "nil", f.fn.Name()+" method "+cc.Method.Name(), x.Pos(), Not(Eq(recv.tag, BV(32, 0))))
		return f.invoke(st, recv, cc, args, x)
	}
	var fn *ssa.Function
	var bind []Val
	if s := cc.StaticCallee(); s != nil {
		fn = s
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			fv := f.val(st, mc).(*FuncV)
			bind = fv.bind
		}
	} else {
		switch fv := f.val(st, cc.Value).(type) {
		case *FuncV:
			fn, bind = fv.fn, fv.bind
		case *RecV:
			return pack(st, one(f.c.callRec(fv, st, args[0].(*Term))))
		default:
			unsup("call of unknown function value in %s", f.fn)
		}
	}
	s, vals := c.callStatic(st, fn, args, bind, x.Pos(), x.Name())
	return pack(s, vals)
}

func (c *Ctx) callStatic(st *State, fn *ssa.Function, args, bind []Val, pos token.Pos, site string) (*State, []Val) {
	name := fn.String()
	if m, ok := models[name]; ok {
		if c.trusted != nil && c.suppress == 0 {
			c.trusted[name] = true
		}
		return m(c, st, fn, args, pos, site)
	}
	if o := fn.Origin(); o != nil {
		if m, ok := models[o.String()]; ok {
			return m(c, st, fn, args, pos, site)
		}
	}
	if sp := c.topSpec(); sp != nil && sp.use && sp.ct.fn == fn {
		return c.havocCall(st, sp, fn, args)
	}
	body := false
	if c.bodyOf == fn && !c.bodyDone && c.suppress == 0 {
		// the body of the function under contract
		body = true
		c.bodyDone = true
	} else if ct := c.e.contracts[fn]; ct != nil && !ct.inline && ct.modular() && !c.initMode {
		if !(c.unit != nil && c.unit.inlineAll[fn.String()]) {
			return c.callContract(st, ct, fn, args, pos, site)
		}
	}
	if fn.Pkg != nil {
		c.e.buildPkg(fn.Pkg)
	}
	inRepo := c.e.inRepo(fn)
	if fn.Blocks == nil || (!inRepo && !c.e.inlineStd(fn)) {
		if c.initMode {
			var vals []Val
			rs := fn.Signature.Results()
			for i := 0; i < rs.Len(); i++ {
				vals = append(vals, &Opaque{"init external " + name})
			}
			return st, vals
		}
		unsup("call of external function %s", name)
	}
	if c.suppress == 0 && c.inlined != nil && inRepo {
		c.inlined[shortName(name)] = true
	}
	c.path = append(c.path, fmt.Sprintf("%s~%s", fn.Name(), site))
	savedPos := c.lastPos
	if inRepo && strings.HasPrefix(fn.Name(), "VFTotal") {
		// a specification taken as a total function
		c.suppress++
		defer func() { c.suppress-- }()
	}
	if body {
		c.logWrites = true
		c.bodyEntry = st.next
	}
	s, vals := c.callFn(fn, args, bind, st)
	if body {
		c.logWrites = false
	}
	c.lastPos = savedPos
	c.path = c.path[:len(c.path)-1]
	return s, vals
}

func (f *Frame) invoke(st *State, recv *Iface, cc *ssa.CallCommon, args []Val, x *ssa.Call) (*State, Val) {
	c := f.c
	// devirtualise over the possible constant tags
	var alts []*Term
	var collect func(t *Term) bool
	collect = func(t *Term) bool {
		if t.isConst() {
			for _, a := range alts {
				if a == t {
					return true
				}
			}
			alts = append(alts, t)
			return true
		}
		if t.op == OIte {
			return collect(t.args[1]) && collect(t.args[2])
		}
		return false
	}
	if collect(recv.tag) {
		var sts []*State
		var vals [][]Val
		okAll := true
		for _, a := range alts {
			if a.val == 0 {
				continue
			}
			t := c.e.tagTypes[a.val]
			if t == nil {
				okAll = false
				break
			}
			fn := c.e.prog.LookupMethod(t, cc.Method.Pkg(), cc.Method.Name())
			if fn == nil {
				okAll = false
				break
			}
			s2 := st.clone()
			s2.pc = And(st.pc, Eq(recv.tag, a))
			if s2.pc == tFalse {
				continue
			}
			rv := c.unboxed(s2, recv, t)
			s3, vs := c.callStatic(s2, fn, append([]Val{rv}, args...), nil, x.Pos(), x.Name()+"."+typeKey(t))
			sts = append(sts, s3)
			vals = append(vals, vs)
		}
		if okAll && len(sts) > 0 {
			m, conds := c.merge(sts)
			var out []Val
			for k := range vals[0] {
				var r Val
				for i := len(sts) - 1; i >= 0; i-- {
					if r == nil {
						r = vals[i][k]
					} else {
						r = iteVal(conds[i], vals[i][k], r)
					}
				}
				out = append(out, r)
			}
			switch len(out) {
			case 0:
				return m, nil
			case 1:
				return m, out[0]
			}
			return m, Tuple(out)
		}
	}
	it := cc.Value.Type()
	key := typeKey(it) + "." + cc.Method.Name()
	if ic, ok := c.e.ifaceContracts[key]; ok {
		s, vals := c.callContractVals(st, ic, append([]Val{recv}, args...), x.Pos(), x.Name())
		if len(vals) == 1 {
			return s, vals[0]
		}
		if len(vals) == 0 {
			return s, nil
		}
		return s, Tuple(vals)
	}
	if m, ok := ifaceModels[key]; ok {
		c.trusted[key] = true
		s, vals := m(c, st, recv, args, x)
		if len(vals) == 1 {
			return s, vals[0]
		}
		if len(vals) == 0 {
			return s, nil
		}
		return s, Tuple(vals)
	}
	unsup("invoke of %s", key)
	return nil, nil
}

func (f *Frame) builtin(st *State, name string, cc *ssa.CallCommon, x *ssa.Call) Val {
	c := f.c
	var args []Val
	for _, a := range cc.Args {
		args = append(args, f.val(st, a))
	}
	switch name {
	case "len":
		switch v := args[0].(type) {
		case *Slice:
			return v.len
		case *Str:
			return v.len
		case *ArrV:
			return I64(v.n)
		case *Ptr:
			at := under(cc.Args[0].Type().Underlying().(*types.Pointer).Elem()).(*types.Array)
			return I64(at.Len())
		case *MapV:
			if v.static {
				return I64(int64(len(v.entries)))
			}
			r := c.fresh("maplen", 64)
			c.assume(st.pc, Ult(r, BV(64, maxLen)))
			return r
		}
	case "cap":
		switch v := args[0].(type) {
		case *Slice:
			return v.cap
		}
	case "min", "max":
		r := args[0].(*Term)
		sg := isSigned(cc.Args[0].Type())
		for _, a := range args[1:] {
			t := a.(*Term)
			lt := Ult(t, r)
			if sg {
				lt = Slt(t, r)
			}
			if name == "max" {
				if sg {
					lt = Slt(r, t)
				} else {
					lt = Ult(r, t)
				}
			}
			r = Ite(lt, t, r)
		}
		return r
	case "copy":
		dst := args[0].(*Slice)
		if s, ok := args[1].(*Str); ok {
			// copy from string
			n := Ite(Ult(s.len, dst.len), s.len, dst.len)
			k := "e:uint8"
			a := c.getArr(st, dst.obj, k, 8)
			if s.lit == nil {
				unsup("copy from string")
			}
			for i := 0; i < len(*s.lit); i++ {
				ii := Add(dst.idx, I64(int64(i)))
				a = arrStore(a, ii, Ite(Ult(I64(int64(i)), n), BV(8, uint64((*s.lit)[i])), arrRead(a, ii)))
			}
			c.setArr(st, dst.obj, k, a, nil)
			return n
		}
		src := args[1].(*Slice)
		n := Ite(Ult(src.len, dst.len), src.len, dst.len)
		et := under(cc.Args[0].Type()).(*types.Slice).Elem()
		f.copyElems(st, dst.obj, dst.idx, src.obj, src.idx, n, et)
		return n
	case "append":
		return f.appendB(st, args[0].(*Slice), args[1], under(cc.Args[0].Type()).(*types.Slice).Elem(), x.Name())
	case "print", "println":
		return nil
	case "ssa:wrapnilchk":
		p := args[0].(*Ptr)
		c.oblige(st, "nil", f.fn.Name()+" receiver", x.Pos(), Not(Eq(p.obj, BV(32, 0))))
		return p
	case "delete":
		return nil
	case "clear":
		s, ok := args[0].(*Slice)
		if ok {
			et := under(cc.Args[0].Type()).(*types.Slice).Elem()
			ks := map[string]int{}
			leafKeys(et, elemKey(et), ks)
			n := Mul(s.len, I64(size(et)))
			for k, w := range ks {
				a := c.getArr(st, s.obj, k, w)
				c.setArr(st, s.obj, k, arrCopy(a, s.idx, arrConst(BVz(w)), BV(64, 0), n), nil)
			}
			return nil
		}
	}
	unsup("builtin %s", name)
	return nil
}

func (f *Frame) copyElems(st *State, dobj, didx, sobj, sidx, n *Term, et types.Type) {
	c := f.c
	if n.op == OConst && n.val == 0 {
		return
	}
	ks := map[string]int{}
	leafKeys(et, elemKey(et), ks)
	sl := Mul(n, I64(size(et)))
	type upd struct {
		k string
		a *Arr
	}
	var us []upd
	for _, k := range sortedKeys(ks) {
		w := ks[k]
		src := c.getArr(st, sobj, k, w)
		dst := c.getArr(st, dobj, k, w)
		us = append(us, upd{k, arrCopy(dst, didx, src, sidx, sl)})
	}
	for _, u := range us {
		var idx *Term
		if n.op == OConst && n.val == 1 && size(et) == 1 {
			idx = didx
		}
		c.setArrRange(st, dobj, u.k, u.a, idx, didx, sl)
	}
}

func sortedKeys(m map[string]int) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sortStrings(out)
	return out
}

func (f *Frame) appendB(st *State, s *Slice, b Val, et types.Type, site string) Val {
	c := f.c
	var t *Slice
	if str, ok := b.(*Str); ok {
		if str.lit == nil {
			unsup("append of string")
		}
		t = f.convert(st, str, types.Typ[types.String], types.NewSlice(types.Typ[types.Uint8]), nil).(*Slice)
	} else {
		t = b.(*Slice)
	}
	n := Add(s.len, t.len)
	c.assume(st.pc, Ult(n, BV(64, maxLen)))
	fits := Ule(n, s.cap)
	sz := I64(size(et))
	ks := map[string]int{}
	leafKeys(et, elemKey(et), ks)
	if fits == tTrue {
		f.copyElems(st, s.obj, Add(s.idx, Mul(s.len, sz)), t.obj, t.idx, t.len, et)
		return &Slice{s.obj, s.idx, n, s.cap}
	}
	// new backing array
	var srcs = map[string][2]*Arr{}
	for k, w := range ks {
		srcs[k] = [2]*Arr{c.getArr(st, s.obj, k, w), c.getArr(st, t.obj, k, w)}
	}
	in := st.clone()
	in.pc = And(st.pc, fits)
	if in.pc != tFalse && fits != tFalse && !(s.obj == BV(32, 0)) {
		f.copyElems(in, s.obj, Add(s.idx, Mul(s.len, sz)), t.obj, t.idx, t.len, et)
	}
	o := c.alloc(st, ks)
	in.next = st.next
	for _, k := range sortedKeys(ks) {
		a := arrConst(BVz(ks[k]))
		a = arrCopy(a, BV(64, 0), srcs[k][0], s.idx, Mul(s.len, sz))
		a = arrCopy(a, Mul(s.len, sz), srcs[k][1], t.idx, Mul(t.len, sz))
		st.heaps[k] = heapStore(st.heaps[k], o, a)
	}
	cp := c.fresh("append.cap."+site, 64)
	c.assume(st.pc, And(Ule(n, cp), Ult(cp, BV(64, maxLen))))
	if fits == tFalse {
		return &Slice{o, BV(64, 0), n, cp}
	}
	// merge heaps: in-place where it fits
	for _, k := range sortedKeys(ks) {
		st.heaps[k] = heapIteSel(fits, in.heaps[k], st.heaps[k], o)
	}
	r := &Slice{Ite(fits, s.obj, o), Ite(fits, s.idx, BV(64, 0)), n, Ite(fits, s.cap, cp)}
	if s.obj == BV(32, 0) {
		// a nil slice grows only when something is appended
		r = &Slice{Ite(fits, s.obj, o), BV(64, 0), n, Ite(fits, BV(64, 0), cp)}
	}
	return r
}

func heapIteSel(c *Term, a, b *Heap, o *Term) *Heap { return heapIte(c, a, b) }

func isErrorType(t types.Type) bool { return strings.HasSuffix(t.String(), "error") }

// ceilLog2 is the trusted model of int(math.Ceil(math.Log2(float64(n)))): the exact rounded-up
// logarithm for n in [1, 1<<32] (Log2 is exact for powers of two and is never rounded across an
// integer for other values of that size).
func (c *Ctx) ceilLog2(t, r *Term) {
	if t.op != OApp || t.name != "fl.ceil" || r.w != 64 {
		return
	}
	if t = t.args[0]; t.op != OApp || t.name != "fl.log2" {
		return
	}
	if t = t.args[0]; t.op != OApp || !strings.HasPrefix(t.name, "itrue") && !strings.HasPrefix(t.name, "ifalse") {
		return
	}
	n := t.args[0]
	if n.w < 64 {
		if strings.HasPrefix(t.name, "itrue") {
			n = Sext(n, 64)
		} else {
			n = Zext(n, 64)
		}
	}
	one := BV(64, 1)
	c.assume(tTrue, Or(Not(Sle(one, n)), Not(Sle(n, BV(64, 1<<32))),
		And(Sle(BV(64, 0), r), Sle(r, BV(64, 32)), Ule(n, Shl(one, r)), Or(Eq(r, BV(64, 0)), Ult(Shl(one, Sub(r, one)), n)))))
	c.trusted["math.Ceil(math.Log2(n)) is the exact rounded-up base-2 logarithm of an integer n of [1, 2^32]"] = true
}
