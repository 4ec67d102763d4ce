package main

import (
	"encoding/hex"
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Node is a serialized Go value (see replayrt).
type Node struct {
	K string  `json:"k"`
	V string  `json:"v,omitempty"`
	E []*Node `json:"e,omitempty"`
}

// modelArgs turns a counterexample into arguments for the unit's function: the parameter
// values and the initial memory they reach are read from the solver's model, asking for
// small slices first.
func (e *Engine) modelArgs(c *Ctx, u *Unit, params []Val, o *Obl) (nodes []*Node, note string) {
	defer func() {
		if r := recover(); r != nil {
			if us, ok := r.(unsupported); ok {
				nodes, note = nil, "no arguments from the model: "+us.msg
				return
			}
			panic(r)
		}
	}()
	bad := And(o.pc, Not(o.cond))
	fs := append([]*Term(nil), relevant(c.ass[:o.nass], []*Term{bad})...)
	fs = append(fs, bad)
	fs = append(fs, instantiate(fs, 3)...)
	m := &modeler{c: c, vals: map[*Term]uint64{}, fs: fs}
	for _, lim := range []uint64{8, 64, 1024, 0} {
		m.fs = fs
		if lim > 0 {
			m.fs = append([]*Term(nil), fs...)
			for _, p := range params {
				m.limit(p, lim)
			}
		}
		m.vals = map[*Term]uint64{}
		m.bad = false
		for round := 0; round < 14; round++ {
			m.need, m.needSet = nil, map[*Term]bool{}
			nodes = nil
			for i, p := range params {
				nodes = append(nodes, m.node(p, u.fn.Params[i].Type(), 0))
			}
			if len(m.need) == 0 {
				return nodes, ""
			}
			if len(m.need) > 6000 {
				return nil, "counterexample too large"
			}
			if !m.query() {
				break
			}
		}
	}
	return nil, "no model with arguments"
}

type modeler struct {
	c       *Ctx
	fs      []*Term
	vals    map[*Term]uint64
	need    []*Term
	needSet map[*Term]bool
	bad     bool
}

func (m *modeler) limit(v Val, lim uint64) {
	switch x := v.(type) {
	case *Slice:
		m.fs = append(m.fs, Ule(x.len, BV(64, lim)))
	case *Str:
		if x.lit == nil {
			m.fs = append(m.fs, Ule(x.len, BV(64, lim)))
		}
	case *Struct:
		for _, f := range x.f {
			m.limit(f, lim)
		}
	}
}

func (m *modeler) query() bool {
	fs := append([]*Term(nil), m.fs...)
	for t, v := range m.vals {
		if t.w == 0 {
			fs = append(fs, Eq(t, Bool(v == 1)))
			continue
		}
		fs = append(fs, Eq(t, BV(t.w, v)))
	}
	smt := writeSMT(fs, m.need, true)
	r := checkSMT(smt, 10)
	if r.status != "sat" {
		return false
	}
	vs := parseValues(r.out)
	if len(vs) != len(m.need) {
		return false
	}
	for i, t := range m.need {
		m.vals[t] = vs[i]
	}
	return true
}

// parseValues reads ((term value) ...) in order.
func parseValues(out string) []uint64 {
	i := strings.IndexByte(out, '(')
	if i < 0 {
		return nil
	}
	s := out[i:]
	var vals []uint64
	depth := 0
	var last string
	var tok strings.Builder
	var stack []string
	flush := func() {
		if tok.Len() > 0 {
			last = tok.String()
			stack = append(stack, last)
			tok.Reset()
		}
	}
	inBar := false
	for _, ch := range s {
		if inBar {
			tok.WriteRune(ch)
			if ch == '|' {
				inBar = false
			}
			continue
		}
		switch {
		case ch == '|':
			tok.WriteRune(ch)
			inBar = true
		case ch == '(':
			flush()
			depth++
			if depth == 2 {
				stack = nil
			}
		case ch == ')':
			flush()
			depth--
			if depth == 1 {
				v, ok := parseVal(stack)
				if !ok {
					return nil
				}
				vals = append(vals, v)
			}
			if depth == 0 {
				return vals
			}
		case ch == ' ' || ch == '\n' || ch == '\t' || ch == '\r':
			flush()
		default:
			tok.WriteRune(ch)
		}
	}
	return vals
}

func parseVal(st []string) (uint64, bool) {
	if len(st) == 0 {
		return 0, false
	}
	x := st[len(st)-1]
	switch {
	case x == "true":
		return 1, true
	case x == "false":
		return 0, true
	case strings.HasPrefix(x, "#x"):
		v, err := strconv.ParseUint(x[2:], 16, 64)
		return v, err == nil
	case strings.HasPrefix(x, "#b"):
		v, err := strconv.ParseUint(x[2:], 2, 64)
		return v, err == nil
	}
	// (_ bvN w)
	if len(st) >= 2 && strings.HasPrefix(st[len(st)-2], "bv") {
		v, err := strconv.ParseUint(st[len(st)-2][2:], 10, 64)
		return v, err == nil
	}
	return 0, false
}

func (m *modeler) ev(t *Term) (uint64, bool) {
	if t.isConst() {
		return t.val, true
	}
	if v, ok := m.vals[t]; ok {
		return v, true
	}
	if !m.needSet[t] {
		m.needSet[t] = true
		m.need = append(m.need, t)
	}
	return 0, false
}

func (m *modeler) heapArr(key string, w int, obj uint64) *Arr {
	h, ok := m.c.base[key]
	if !ok {
		return arrConst(BVz(w))
	}
	if obj < initObjHi && m.c.e.immutable[obj] {
		if ih, ok := m.c.e.initHeaps[key]; ok {
			return heapGet(ih, BV(32, obj))
		}
	}
	return heapGet(h, BV(32, obj))
}

func (m *modeler) node(v Val, t types.Type, depth int) *Node {
	if depth > 14 {
		return &Node{K: "nil"}
	}
	switch x := v.(type) {
	case *Term:
		n, ok := m.ev(x)
		if !ok {
			return nil
		}
		if x.w == 0 {
			return &Node{K: "bool", V: fmt.Sprint(n == 1)}
		}
		if isSigned(t) {
			sh := 64 - uint(x.w)
			return &Node{K: "int", V: fmt.Sprint(int64(n<<sh) >> sh)}
		}
		return &Node{K: "int", V: fmt.Sprint(n)}
	case *Ptr:
		o, ok := m.ev(x.obj)
		i, ok2 := m.ev(x.idx)
		if !ok || !ok2 {
			return nil
		}
		if o == 0 {
			return &Node{K: "nil"}
		}
		el := under(t).(*types.Pointer).Elem()
		pv := loadVal(func(k string, w int) *Arr { return m.heapArr(k, w, o) }, BV(64, i), el, pointeeKey(el))
		return &Node{K: "ptr", E: []*Node{m.node(pv, el, depth+1)}}
	case *Slice:
		o, ok := m.ev(x.obj)
		i, ok2 := m.ev(x.idx)
		n, ok3 := m.ev(x.len)
		if !ok || !ok2 || !ok3 {
			return nil
		}
		if o == 0 {
			return &Node{K: "nil"}
		}
		if n > 5000 {
			unsup("slice of %d elements", n)
		}
		el := under(t).(*types.Slice).Elem()
		es := uint64(size(el))
		if b, isB := under(el).(*types.Basic); isB && b.Kind() == types.Uint8 {
			bs := make([]byte, n)
			a := m.heapArr(elemKey(el), 8, o)
			for k := range bs {
				bv, _ := m.ev(arrRead(a, BV(64, i+uint64(k))))
				bs[k] = byte(bv)
			}
			return &Node{K: "bytes", V: hex.EncodeToString(bs)}
		}
		r := &Node{K: "slice"}
		for k := uint64(0); k < n; k++ {
			pv := loadVal(func(key string, w int) *Arr { return m.heapArr(key, w, o) }, BV(64, i+k*es), el, elemKey(el))
			r.E = append(r.E, m.node(pv, el, depth+1))
		}
		return r
	case *Struct:
		us := under(t).(*types.Struct)
		r := &Node{K: "struct"}
		for i, f := range x.f {
			r.E = append(r.E, m.node(f, us.Field(i).Type(), depth+1))
		}
		return r
	case *ArrV:
		r := &Node{K: "array"}
		if x.n > 5000 {
			unsup("array of %d elements", x.n)
		}
		es := size(x.elem)
		for k := int64(0); k < x.n; k++ {
			pv := loadVal(func(key string, w int) *Arr {
				if a, ok := x.views[key]; ok {
					return a
				}
				return arrConst(BVz(w))
			}, Add(x.base, I64(k*es)), x.elem, elemKey(x.elem))
			r.E = append(r.E, m.node(pv, x.elem, depth+1))
		}
		return r
	case *Str:
		if x.lit != nil {
			return &Node{K: "bytes", V: hex.EncodeToString([]byte(*x.lit))}
		}
		n, ok := m.ev(x.len)
		if !ok {
			return nil
		}
		if n > 5000 {
			unsup("string of %d bytes", n)
		}
		return &Node{K: "bytes", V: strings.Repeat("61", int(n))}
	}
	return &Node{K: "zero"}
}

// goName is the in-package Go expression of a unit's function.
func goName(fn *ssa.Function) string {
	recv := fn.Signature.Recv()
	if recv == nil {
		return fn.Name()
	}
	t := recv.Type()
	if p, ok := t.(*types.Pointer); ok {
		return "(*" + p.Elem().(*types.Named).Obj().Name() + ")." + fn.Name()
	}
	return t.(*types.Named).Obj().Name() + "." + fn.Name()
}
