package main

import (
	"fmt"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Symbolic values.

type Val interface{}

type Ptr struct {
	obj, idx *Term
	key      string // heap key of the pointee when it is a scalar-like leaf
}
type Slice struct{ obj, idx, len, cap *Term }
type Str struct {
	id, len *Term
	lit     *string
}
type Iface struct{ tag, obj, idx *Term }
type Struct struct{ f []Val }
type ArrV struct {
	elem  types.Type
	n     int64
	views map[string]*Arr
	base  *Term
}
type MapV struct {
	obj     *Term
	static  bool
	entries []mapEnt
}
type mapEnt struct{ k, v Val }
type FuncV struct {
	fn   *ssa.Function
	bind []Val
}
type Tuple []Val
type Opaque struct{ why string }

type unsupported struct{ msg string }

func unsup(format string, a ...any) { panic(unsupported{fmt.Sprintf(format, a...)}) }

func under(t types.Type) types.Type { return t.Underlying() }

func basicWidth(b *types.Basic) int {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.Float32, types.UntypedRune:
		return 32
	default:
		return 64
	}
}

func isSigned(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

func isFloat(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&(types.IsFloat|types.IsComplex) != 0
}

func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isScalar(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString == 0 && b.Kind() != types.UnsafePointer
}

var sizeMemo = map[types.Type]int64{}

// size in slots
func size(t types.Type) int64 {
	if s, ok := sizeMemo[t]; ok {
		return s
	}
	var s int64
	switch u := under(t).(type) {
	case *types.Basic:
		s = 1
		if u.Info()&types.IsString != 0 {
			s = 2
		}
	case *types.Pointer:
		s = 2
	case *types.Slice:
		s = 4
	case *types.Interface:
		s = 3
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			s += size(u.Field(i).Type())
		}
	case *types.Array:
		s = u.Len() * size(u.Elem())
	default: // map, func, chan
		s = 1
	}
	if s == 0 {
		s = 1
	}
	sizeMemo[t] = s
	return s
}

var typeKeyMemo = map[types.Type]string{}
var reByte = regexp.MustCompile(`\bbyte\b`)
var reRune = regexp.MustCompile(`\brune\b`)

func typeKey(t types.Type) string {
	if s, ok := typeKeyMemo[t]; ok {
		return s
	}
	s := types.TypeString(normLocal(types.Unalias(t)), func(p *types.Package) string { return shortName(p.Path()) })
	s = reByte.ReplaceAllString(s, "uint8")
	s = reRune.ReplaceAllString(s, "int32")
	typeKeyMemo[t] = s
	return s
}

// normLocal replaces the types declared inside functions, which contracts cannot name, by their
// underlying types.
func normLocal(t types.Type) types.Type {
	switch u := t.(type) {
	case *types.Named:
		if o := u.Obj(); o.Pkg() != nil && o.Parent() != nil && o.Parent() != o.Pkg().Scope() && u.NumMethods() == 0 && u.TypeArgs().Len() == 0 {
			return u.Underlying()
		}
	case *types.Pointer:
		if e := normLocal(u.Elem()); e != u.Elem() {
			return types.NewPointer(e)
		}
	case *types.Slice:
		if e := normLocal(u.Elem()); e != u.Elem() {
			return types.NewSlice(e)
		}
	}
	return t
}

func sameType(a, b types.Type) bool { return types.Identical(normLocal(a), normLocal(b)) }

func fieldOff(st *types.Struct, i int) int64 {
	var o int64
	for j := 0; j < i; j++ {
		o += size(st.Field(j).Type())
	}
	return o
}

func fieldKey(t types.Type, i int) string {
	st := under(t).(*types.Struct)
	return "f:" + typeKey(t) + "." + st.Field(i).Name()
}

func elemKey(t types.Type) string { return "e:" + typeKey(under2(t)) }

// named scalar types share the key of their underlying basic type when used as elements or cells
func under2(t types.Type) types.Type {
	if b, ok := under(t).(*types.Basic); ok {
		return b
	}
	return t
}

func cellKey(t types.Type) string { return "c:" + typeKey(under2(t)) }

// leafKeys returns all heap keys (with widths) occurring in a value of type t stored under key.
type keyW struct {
	key string
	w   int
}

func leafKeys(t types.Type, key string, out map[string]int) {
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			out[key+".id"] = 64
			out[key+".slen"] = 64
			return
		}
		out[key] = basicWidth(u)
	case *types.Pointer:
		out[key+".obj"] = 32
		out[key+".idx"] = 64
	case *types.Slice:
		out[key+".obj"] = 32
		out[key+".idx"] = 64
		out[key+".len"] = 64
		out[key+".cap"] = 64
	case *types.Interface:
		out[key+".tag"] = 32
		out[key+".obj"] = 32
		out[key+".idx"] = 64
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			leafKeys(u.Field(i).Type(), fieldKey(t, i), out)
		}
	case *types.Array:
		leafKeys(u.Elem(), elemKey(u.Elem()), out)
	default:
		out[key+".h"] = 64
	}
}

// memory access abstraction: getArr(key,w) returns the array of the accessed object.
func loadVal(get func(key string, w int) *Arr, idx *Term, t types.Type, key string) Val {
	rd := func(suf string, w int, off int64) *Term {
		return arrRead(get(key+suf, w), Add(idx, I64(off)))
	}
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return &Str{id: rd(".id", 64, 0), len: rd(".slen", 64, 1)}
		}
		return rd("", basicWidth(u), 0)
	case *types.Pointer:
		return &Ptr{obj: rd(".obj", 32, 0), idx: rd(".idx", 64, 1), key: pointeeKey(u.Elem())}
	case *types.Slice:
		return &Slice{rd(".obj", 32, 0), rd(".idx", 64, 1), rd(".len", 64, 2), rd(".cap", 64, 3)}
	case *types.Interface:
		return &Iface{rd(".tag", 32, 0), rd(".obj", 32, 1), rd(".idx", 64, 2)}
	case *types.Struct:
		s := &Struct{}
		off := int64(0)
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			s.f = append(s.f, loadVal(get, Add(idx, I64(off)), ft, fieldKey(t, i)))
			off += size(ft)
		}
		return s
	case *types.Array:
		a := &ArrV{elem: u.Elem(), n: u.Len(), views: map[string]*Arr{}, base: idx}
		ks := map[string]int{}
		leafKeys(u.Elem(), elemKey(u.Elem()), ks)
		for k, w := range ks {
			a.views[k] = get(k, w)
		}
		return a
	case *types.Map:
		return &MapV{obj: Extract(rd(".h", 64, 0), 31, 0)}
	default:
		return &Opaque{"loaded " + t.String()}
	}
}

// static values that cannot be put in heaps are kept aside
var sideVals = map[uint64]Val{}
var sideN uint64

func storeVal(get func(key string, w int) *Arr, set func(key string, a *Arr, idx *Term), idx *Term, t types.Type, key string, v Val) {
	wr := func(suf string, off int64, x *Term) {
		i := Add(idx, I64(off))
		set(key+suf, arrStore(get(key+suf, x.w), i, x), i)
	}
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			s := v.(*Str)
			wr(".id", 0, s.id)
			wr(".slen", 1, s.len)
			return
		}
		wr("", 0, v.(*Term))
	case *types.Pointer:
		p := v.(*Ptr)
		if p.key != pointeeKey(u.Elem()) && p.obj != BV(32, 0) {
			unsup("storing interior pointer with key %s", p.key)
		}
		wr(".obj", 0, p.obj)
		wr(".idx", 1, p.idx)
	case *types.Slice:
		s := v.(*Slice)
		wr(".obj", 0, s.obj)
		wr(".idx", 1, s.idx)
		wr(".len", 2, s.len)
		wr(".cap", 3, s.cap)
	case *types.Interface:
		s := v.(*Iface)
		wr(".tag", 0, s.tag)
		wr(".obj", 1, s.obj)
		wr(".idx", 2, s.idx)
	case *types.Struct:
		s := v.(*Struct)
		off := int64(0)
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			storeVal(get, set, Add(idx, I64(off)), ft, fieldKey(t, i), s.f[i])
			off += size(ft)
		}
	case *types.Array:
		a := v.(*ArrV)
		ks := map[string]int{}
		leafKeys(u.Elem(), elemKey(u.Elem()), ks)
		n := I64(u.Len() * size(u.Elem()))
		for k, w := range ks {
			src := a.views[k]
			if src == nil {
				src = arrConst(BVz(w))
			}
			set(k, arrCopy(get(k, w), idx, src, a.base, n), nil)
		}
	default:
		var h *Term
		if m, ok := v.(*MapV); ok && !m.static {
			h = Zext(m.obj, 64)
		} else {
			sideN++
			h = BV(64, 1<<32+sideN)
			sideVals[1<<32+sideN] = v
		}
		wr(".h", 0, h)
	}
}

func BVz(w int) *Term {
	if w == 0 {
		return tFalse
	}
	return BV(w, 0)
}

func pointeeKey(t types.Type) string {
	switch under(t).(type) {
	case *types.Struct, *types.Array:
		return ""
	}
	return cellKey(t)
}

func zeroVal(t types.Type) Val {
	z32, z64 := BV(32, 0), BV(64, 0)
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return strLit("")
		}
		if u.Kind() == types.UntypedNil {
			return &Ptr{z32, z64, ""}
		}
		return BVz(basicWidth(u))
	case *types.Pointer:
		return &Ptr{z32, z64, pointeeKey(u.Elem())}
	case *types.Slice:
		return &Slice{z32, z64, z64, z64}
	case *types.Interface:
		return &Iface{z32, z32, z64}
	case *types.Struct:
		s := &Struct{}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, zeroVal(u.Field(i).Type()))
		}
		return s
	case *types.Array:
		a := &ArrV{elem: u.Elem(), n: u.Len(), views: map[string]*Arr{}, base: z64}
		ks := map[string]int{}
		leafKeys(u.Elem(), elemKey(u.Elem()), ks)
		for k, w := range ks {
			a.views[k] = arrConst(BVz(w))
		}
		return a
	case *types.Map:
		return &MapV{obj: z32}
	case *types.Tuple:
		var tp Tuple
		for i := 0; i < u.Len(); i++ {
			tp = append(tp, zeroVal(u.At(i).Type()))
		}
		return tp
	default:
		return &Opaque{"nil " + t.String()}
	}
}

var strIDs = map[string]uint64{}

func strLit(s string) *Str {
	id, ok := strIDs[s]
	if !ok {
		id = uint64(len(strIDs)) + 1
		if s == "" {
			id = 0
		}
		strIDs[s] = id
	}
	return &Str{id: BV(64, id), len: BV(64, uint64(len(s))), lit: &s}
}

// components of a value, in a fixed order, with a rebuild function
func comps(v Val) []*Term {
	switch x := v.(type) {
	case *Term:
		return []*Term{x}
	case *Ptr:
		return []*Term{x.obj, x.idx}
	case *Slice:
		return []*Term{x.obj, x.idx, x.len, x.cap}
	case *Str:
		return []*Term{x.id, x.len}
	case *Iface:
		return []*Term{x.tag, x.obj, x.idx}
	case *Struct:
		var out []*Term
		for _, f := range x.f {
			out = append(out, comps(f)...)
		}
		return out
	case Tuple:
		var out []*Term
		for _, f := range x {
			out = append(out, comps(f)...)
		}
		return out
	case *MapV:
		if x.static {
			return nil
		}
		return []*Term{x.obj}
	}
	return nil
}

func compNames(v Val) []string {
	switch x := v.(type) {
	case *Term:
		return []string{""}
	case *Ptr:
		return []string{".obj", ".idx"}
	case *Slice:
		return []string{".obj", ".idx", ".len", ".cap"}
	case *Str:
		return []string{".id", ".slen"}
	case *Iface:
		return []string{".tag", ".obj", ".idx"}
	case *Struct:
		var out []string
		for i, f := range x.f {
			for _, n := range compNames(f) {
				out = append(out, fmt.Sprintf(".%d%s", i, n))
			}
		}
		return out
	case Tuple:
		var out []string
		for i, f := range x {
			for _, n := range compNames(f) {
				out = append(out, fmt.Sprintf("#%d%s", i, n))
			}
		}
		return out
	case *MapV:
		if x.static {
			return nil
		}
		return []string{".obj"}
	}
	return nil
}

func rebuild(v Val, c []*Term) (Val, []*Term) {
	switch x := v.(type) {
	case *Term:
		return c[0], c[1:]
	case *Ptr:
		return &Ptr{c[0], c[1], x.key}, c[2:]
	case *Slice:
		return &Slice{c[0], c[1], c[2], c[3]}, c[4:]
	case *Str:
		if x.id == c[0] && x.len == c[1] {
			return x, c[2:]
		}
		return &Str{id: c[0], len: c[1]}, c[2:]
	case *Iface:
		return &Iface{c[0], c[1], c[2]}, c[3:]
	case *Struct:
		s := &Struct{}
		for _, f := range x.f {
			var nf Val
			nf, c = rebuild(f, c)
			s.f = append(s.f, nf)
		}
		return s, c
	case Tuple:
		var s Tuple
		for _, f := range x {
			var nf Val
			nf, c = rebuild(f, c)
			s = append(s, nf)
		}
		return s, c
	case *MapV:
		if x.static {
			return x, c
		}
		return &MapV{obj: c[0]}, c[1:]
	}
	return v, c
}

func iteVal(c *Term, a, b Val) Val {
	if a == b || c == tTrue {
		return a
	}
	if c == tFalse {
		return b
	}
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok {
			return &Opaque{"merge"}
		}
		return Ite(c, x, y)
	case *Ptr:
		y, ok := b.(*Ptr)
		if !ok {
			return &Opaque{"merge"}
		}
		k := x.key
		if x.key != y.key {
			if x.obj == BV(32, 0) {
				k = y.key
			} else if y.obj == BV(32, 0) {
				k = x.key
			} else {
				return &Opaque{"merge of pointers with different keys " + x.key + " " + y.key}
			}
		}
		return &Ptr{Ite(c, x.obj, y.obj), Ite(c, x.idx, y.idx), k}
	case *Slice:
		y, ok := b.(*Slice)
		if !ok {
			return &Opaque{"merge"}
		}
		return &Slice{Ite(c, x.obj, y.obj), Ite(c, x.idx, y.idx), Ite(c, x.len, y.len), Ite(c, x.cap, y.cap)}
	case *Str:
		y, ok := b.(*Str)
		if !ok {
			return &Opaque{"merge"}
		}
		if x.lit != nil && y.lit != nil && *x.lit == *y.lit {
			return x
		}
		return &Str{id: Ite(c, x.id, y.id), len: Ite(c, x.len, y.len)}
	case *Iface:
		y, ok := b.(*Iface)
		if !ok {
			return &Opaque{"merge"}
		}
		return &Iface{Ite(c, x.tag, y.tag), Ite(c, x.obj, y.obj), Ite(c, x.idx, y.idx)}
	case *Struct:
		y, ok := b.(*Struct)
		if !ok {
			return &Opaque{"merge"}
		}
		s := &Struct{}
		for i := range x.f {
			s.f = append(s.f, iteVal(c, x.f[i], y.f[i]))
		}
		return s
	case Tuple:
		y, ok := b.(Tuple)
		if !ok {
			return &Opaque{"merge"}
		}
		var s Tuple
		for i := range x {
			s = append(s, iteVal(c, x[i], y[i]))
		}
		return s
	case *ArrV:
		y, ok := b.(*ArrV)
		if !ok {
			return &Opaque{"merge"}
		}
		r := &ArrV{elem: x.elem, n: x.n, views: map[string]*Arr{}, base: x.base}
		for k, vx := range x.views {
			vy := y.views[k]
			if vx == vy && x.base == y.base {
				r.views[k] = vx
				continue
			}
			// rebase y on x.base
			if x.base != y.base {
				vy = arrCopy(arrConst(BVz(vy.w)), x.base, vy, y.base, I64(x.n*size(x.elem)))
			}
			r.views[k] = arrIte(c, vx, vy)
		}
		return r
	case *MapV:
		y, ok := b.(*MapV)
		if !ok || x.static != y.static || x.static {
			return &Opaque{"merge of maps"}
		}
		return &MapV{obj: Ite(c, x.obj, y.obj)}
	case *FuncV:
		if y, ok := b.(*FuncV); ok && x.fn == y.fn && len(x.bind) == 0 && len(y.bind) == 0 {
			return x
		}
		return &Opaque{"merge of functions"}
	}
	return &Opaque{"merge"}
}

func eqVal(a, b Val) *Term {
	ca, cb := comps(a), comps(b)
	switch x := a.(type) {
	case *Ptr:
		y := b.(*Ptr)
		if isNilPtr(x) {
			return Eq(y.obj, BV(32, 0))
		}
		if isNilPtr(y) {
			return Eq(x.obj, BV(32, 0))
		}
		return And(objEq(x.obj, y.obj), Or(Eq(x.obj, BV(32, 0)), Eq(x.idx, y.idx)))
	case *Slice: // only comparison with nil is legal Go
		y := b.(*Slice)
		return Eq(x.obj, y.obj)
	case *Iface:
		y := b.(*Iface)
		if y.tag == BV(32, 0) {
			return Eq(x.tag, y.tag)
		}
		if x.tag == BV(32, 0) {
			return Eq(x.tag, y.tag)
		}
		return And(Eq(x.tag, y.tag), Or(And(objEq(x.obj, y.obj), Eq(x.idx, y.idx)), Fresh("ifaceeq", 0)))
	case *Str:
		y := b.(*Str)
		if x.lit != nil && y.lit != nil {
			return Bool(*x.lit == *y.lit)
		}
		return Eq(x.id, y.id)
	case *ArrV:
		y := b.(*ArrV)
		if x.n > 64 {
			unsup("comparison of large arrays")
		}
		r := tTrue
		for i := int64(0); i < x.n; i++ {
			r = And(r, eqVal(arrElem(x, I64(i)), arrElem(y, I64(i))))
		}
		return r
	case *Struct:
		y := b.(*Struct)
		r := tTrue
		for i := range x.f {
			r = And(r, eqVal(x.f[i], y.f[i]))
		}
		return r
	case *MapV:
		y, ok := b.(*MapV)
		if ok && !x.static && !y.static {
			return Eq(x.obj, y.obj)
		}
		if ok {
			return tFalse // static maps are non-nil
		}
	case *FuncV:
		return tFalse
	case *Opaque:
		return Fresh("opaque_eq", 0)
	}
	if len(ca) != len(cb) || len(ca) == 0 {
		unsup("comparison of %T", a)
	}
	r := tTrue
	for i := range ca {
		r = And(r, Eq(ca[i], cb[i]))
	}
	return r
}

func isNilPtr(p *Ptr) bool { return p.obj == BV(32, 0) }

func arrElem(a *ArrV, i *Term) Val {
	return loadVal(func(k string, w int) *Arr {
		if v := a.views[k]; v != nil {
			return v
		}
		return arrConst(BVz(w))
	}, Add(a.base, Mul(i, I64(size(a.elem)))), a.elem, elemKey(a.elem))
}

func shortName(s string) string {
	s = strings.ReplaceAll(s, "github.com/bluenviron/mediacommon/v2/", "")
	s = strings.ReplaceAll(s, "pkg/codecs/", "")
	s = strings.ReplaceAll(s, "pkg/formats/", "")
	s = strings.ReplaceAll(s, "pkg/", "")
	return s
}
