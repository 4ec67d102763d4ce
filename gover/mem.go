package main

import "fmt"

// Lambda arrays: index (BV64) -> value.

type aKind uint8

const (
	aBase  aKind = iota // uninterpreted, of a base heap at an object
	aConst              // constant value
	aStore
	aCopy // dst[doff..doff+n) := src[soff..)
	aIte
	aTab // constant-index overlay on a base
)

type Arr struct {
	kind aKind
	id   int
	w    int
	// base
	heap *Heap
	obj  *Term
	// const/store
	val *Term
	idx *Term
	a   *Arr
	// copy
	b          *Arr
	doff, soff *Term
	n          *Term
	cond       *Term
	tab        *trie
	key        string
}

type hKind uint8

const (
	hBase hKind = iota
	hStore
	hIte
	hHavoc // objs satisfying pred come from base b, others from a
)

type Heap struct {
	kind  hKind
	id    int
	w     int
	key   string
	name  string
	bound *Term // objects stored in this base heap are below bound (reference components)
	a, b  *Heap
	obj   *Term
	arr   *Arr
	cond  *Term
	pred  func(obj *Term) *Term
	noWF  bool
}

var arrN, heapN int

type arrKey struct {
	k          aKind
	i1, i2, i3 int
	i4, i5, i6 int
}

var arrTab = map[arrKey]*Arr{}

func newArr(k arrKey, a *Arr) *Arr {
	if x, ok := arrTab[k]; ok {
		return x
	}
	arrN++
	a.id = arrN
	a.kind = k.k
	arrTab[k] = a
	return a
}

func arrConst(v *Term) *Arr { return newArr(arrKey{k: aConst, i1: v.id}, &Arr{val: v, w: v.w}) }

func arrBase(h *Heap, obj *Term) *Arr {
	return newArr(arrKey{k: aBase, i1: h.id, i2: obj.id}, &Arr{heap: h, obj: obj, w: h.w})
}

func arrStore(a *Arr, idx, v *Term) *Arr {
	if v.w != a.w {
		panic(fmt.Sprintf("arrStore width %d into %d", v.w, a.w))
	}
	if idx.op == OConst && idx.val < 1<<24 {
		if a.kind == aTab {
			t := a.tab.set(idx.val, v)
			arrN++
			return &Arr{kind: aTab, id: arrN, w: a.w, a: a.a, tab: t}
		}
		arrN++
		return &Arr{kind: aTab, id: arrN, w: a.w, a: a, tab: (*trie)(nil).set(idx.val, v)}
	}
	if a.kind == aStore && a.idx == idx {
		a = a.a
	}
	return newArr(arrKey{k: aStore, i1: a.id, i2: idx.id, i3: v.id}, &Arr{a: a, idx: idx, val: v, w: a.w})
}

func arrCopy(dst *Arr, doff *Term, src *Arr, soff, n *Term) *Arr {
	if n.op == OConst && n.val <= 64 {
		for i := uint64(0); i < n.val; i++ {
			dst = arrStore(dst, Add(doff, BV(64, i)), arrRead(src, Add(soff, BV(64, i))))
		}
		return dst
	}
	return newArr(arrKey{k: aCopy, i1: dst.id, i2: doff.id, i3: src.id, i4: soff.id, i5: n.id}, &Arr{a: dst, b: src, doff: doff, soff: soff, n: n, w: dst.w})
}

func arrIte(c *Term, a, b *Arr) *Arr {
	if a == b || c == tTrue {
		return a
	}
	if c == tFalse {
		return b
	}
	if a.kind == aConst && b.kind == aConst {
		return arrConst(Ite(c, a.val, b.val))
	}
	return newArr(arrKey{k: aIte, i1: c.id, i2: a.id, i3: b.id}, &Arr{cond: c, a: a, b: b, w: a.w})
}

type rdKey struct{ a, i int }

var rdMemo = map[rdKey]*Term{}

func arrRead(a *Arr, idx *Term) *Term {
	k := rdKey{a.id, idx.id}
	if t, ok := rdMemo[k]; ok {
		return t
	}
	var r *Term
	switch a.kind {
	case aConst:
		r = a.val
	case aBase:
		r = readBase(a, idx)
	case aStore:
		r = Ite(Eq(idx, a.idx), a.val, arrRead(a.a, idx))
	case aCopy:
		in := Ult(Sub(idx, a.doff), a.n)
		switch in {
		case tTrue:
			r = arrRead(a.b, Add(a.soff, Sub(idx, a.doff)))
		case tFalse:
			r = arrRead(a.a, idx)
		default:
			r = Ite(in, arrRead(a.b, Add(a.soff, Sub(idx, a.doff))), arrRead(a.a, idx))
		}
	case aIte:
		r = Ite(a.cond, arrRead(a.a, idx), arrRead(a.b, idx))
	case aTab:
		if idx.op == OConst && idx.val < 1<<24 {
			if v := a.tab.get(idx.val); v != nil {
				r = v
			} else {
				r = arrRead(a.a, idx)
			}
		} else {
			r = tabRead(a, idx)
		}
	}
	rdMemo[k] = r
	return r
}

// tabRead: symbolic read of a constant-index table.
func tabRead(a *Arr, idx *Term) *Term {
	ents := a.tab.entries()
	// dense power-of-two sized table: multiplexer tree over the index bits
	if len(ents) >= 8 {
		n := uint64(len(ents))
		dense := ents[0].k == 0 && ents[len(ents)-1].k == n-1
		if dense {
			bitsN := 0
			for uint64(1)<<bitsN < n {
				bitsN++
			}
			var tree func(b int, lo, hi uint64) *Term
			tree = func(b int, lo, hi uint64) *Term { // entries [lo,hi) share bits above b
				if hi-lo == 1 || b < 0 {
					return ents[lo].v
				}
				mid := lo + uint64(1)<<b
				if mid >= hi {
					return tree(b-1, lo, hi)
				}
				return Ite(Eq(Extract(idx, b, b), BV(1, 1)), tree(b-1, mid, hi), tree(b-1, lo, mid))
			}
			in := Ult(idx, BV(64, n))
			t := tree(bitsN-1, 0, n)
			if in == tTrue {
				return t
			}
			return Ite(in, t, arrRead(a.a, idx))
		}
	}
	r := arrRead(a.a, idx)
	for i := len(ents) - 1; i >= 0; i-- {
		r = Ite(Eq(idx, BV(64, ents[i].k)), ents[i].v, r)
	}
	return r
}

// ---- heaps: object (BV32) -> Arr

func heapBase(key, name string, w int, bound *Term) *Heap {
	heapN++
	return &Heap{kind: hBase, id: heapN, w: w, key: key, name: name, bound: bound}
}

func heapStore(h *Heap, obj *Term, arr *Arr) *Heap {
	if h.kind == hStore && h.obj == obj {
		h = h.a
	}
	heapN++
	return &Heap{kind: hStore, id: heapN, w: h.w, key: h.key, a: h, obj: obj, arr: arr}
}

func heapIte(c *Term, a, b *Heap) *Heap {
	if a == b || c == tTrue {
		return a
	}
	if c == tFalse {
		return b
	}
	// common case: both store the same object on a shared parent
	if a.kind == hStore && b.kind == hStore && a.obj == b.obj && a.a == b.a {
		return heapStore(a.a, a.obj, arrIte(c, a.arr, b.arr))
	}
	if a.kind == hStore && a.a == b {
		return heapStore(b, a.obj, arrIte(c, a.arr, heapGet(b, a.obj)))
	}
	if b.kind == hStore && b.a == a {
		return heapStore(a, b.obj, arrIte(c, heapGet(a, b.obj), b.arr))
	}
	heapN++
	return &Heap{kind: hIte, id: heapN, w: a.w, key: a.key, cond: c, a: a, b: b}
}

func heapHavoc(a, fresh *Heap, pred func(*Term) *Term) *Heap {
	heapN++
	return &Heap{kind: hHavoc, id: heapN, w: a.w, key: a.key, a: a, b: fresh, pred: pred}
}

var initZero func(obj uint64) bool

var hgMemo = map[rdKey]*Arr{}

func heapGet(h *Heap, obj *Term) *Arr {
	k := rdKey{h.id, obj.id}
	if t, ok := hgMemo[k]; ok {
		return t
	}
	var r *Arr
	switch h.kind {
	case hBase:
		if h.noWF && obj.op == OConst && initZero != nil && initZero(obj.val) {
			r = arrConst(BVz(h.w)) // package variables start zeroed
		} else {
			r = arrBase(h, obj)
		}
	case hStore:
		c := objEq(obj, h.obj)
		if c == tTrue {
			r = h.arr
		} else {
			rest := heapGet(h.a, obj)
			r = arrIte(c, h.arr, rest)
		}
	case hIte:
		r = arrIte(h.cond, heapGet(h.a, obj), heapGet(h.b, obj))
	case hHavoc:
		c := h.pred(obj)
		switch c {
		case tTrue:
			r = heapGet(h.b, obj)
		case tFalse:
			r = heapGet(h.a, obj)
		default:
			r = arrIte(c, heapGet(h.b, obj), heapGet(h.a, obj))
		}
	}
	hgMemo[k] = r
	return r
}

// objBounds: syntactic knowledge "obj u< bound" for object terms coming from inputs and base
// heaps; bound terms are "next" counters. objLess tells whether o is known to be below b.
var objUpper = map[*Term]*Term{}

// nextOrder: counters are created in increasing order; each has a base variable and an offset.
// rank of a base counter variable: later havocked counters are >= earlier ones.
var counterRank = map[*Term]int{}

func splitOff(t *Term) (*Term, uint64) {
	if t.op == OAdd && len(t.args) == 1 {
		return t.args[0], t.val
	}
	if t.op == OConst {
		return nil, t.val
	}
	return t, 0
}

// counterLeq: a <= b for counter terms (base var + const).
func counterLeq(a, b *Term) bool {
	ba, oa := splitOff(a)
	bb, ob := splitOff(b)
	if ba == bb {
		return oa <= ob
	}
	if ba == nil && bb != nil {
		if _, ok := counterRank[bb]; ok {
			return oa <= initialNext
		}
		return false
	}
	if bb == nil {
		return false
	}
	ra, ok1 := counterRank[ba]
	rb, ok2 := counterRank[bb]
	// base var of rank rb was assumed >= every counter value existing at its creation; the
	// minimal guarantee recorded is counterMin
	if ok1 && ok2 && ra < rb {
		for _, m := range counterMin[bb] {
			if counterLeq(a, m) {
				return true
			}
		}
		return false
	}
	return false
}

var counterMin = map[*Term][]*Term{} // havocked counter -> lower bounds

const initialNext = uint64(0x10000)

// isCounter reports whether t is an allocated object id (next + k).
func isCounter(t *Term) bool {
	b, o := splitOff(t)
	if b == nil {
		return o >= initialNext
	}
	_, ok := counterRank[b]
	return ok
}

func objUB(o *Term) *Term {
	if u, ok := objUpper[o]; ok {
		return u
	}
	return nil
}

func knownBelow(o, c *Term) bool { // o < c where c is an allocated object id
	if o.op == OConst && c.op != OConst {
		return o.val < initialNext
	}
	if u := objUB(o); u != nil && counterLeq(u, c) {
		return true
	}
	if o.op == OIte {
		return knownBelow(o.args[1], c) && knownBelow(o.args[2], c)
	}
	if isCounter(o) && isCounter(c) {
		return counterLeq(Add(o, BV(32, 1)), c)
	}
	return false
}

func objEq(a, b *Term) *Term {
	e := Eq(a, b)
	if e.isConst() {
		return e
	}
	if isCounter(b) && knownBelow(a, b) {
		return tFalse
	}
	if isCounter(a) && knownBelow(b, a) {
		return tFalse
	}
	if a.op == OIte {
		return iteB(a.args[0], objEq(a.args[1], b), objEq(a.args[2], b))
	}
	if b.op == OIte {
		return iteB(b.args[0], objEq(a, b.args[1]), objEq(a, b.args[2]))
	}
	return e
}

// ---- persistent radix trie for constant tables

type trie struct {
	kids [16]*trie
	v    *Term
	lvl  int
}

const trieLvls = 16 // 64 bit keys / 4; keys beyond small values are rare

func (t *trie) set(k uint64, v *Term) *trie { return t.setAt(k, v, trieDepth(k)) }

func trieDepth(uint64) int { return 5 } // keys below 2^24 in the main tree

func (t *trie) setAt(k uint64, v *Term, d int) *trie {
	n := &trie{}
	if t != nil {
		*n = *t
	}
	if d < 0 {
		n.v = v
		return n
	}
	if d == 5 && k >= 1<<24 {
		panic("table index too large")
	}
	i := (k >> uint(4*d)) & 15
	n.kids[i] = n.kids[i].setAt(k, v, d-1)
	return n
}

func (t *trie) get(k uint64) *Term {
	if k >= 1<<24 {
		return nil
	}
	for d := 5; d >= 0; d-- {
		if t == nil {
			return nil
		}
		t = t.kids[(k>>uint(4*d))&15]
	}
	if t == nil {
		return nil
	}
	return t.v
}

type trieEnt struct {
	k uint64
	v *Term
}

func (t *trie) entries() []trieEnt {
	var out []trieEnt
	var walk func(t *trie, d int, k uint64)
	walk = func(t *trie, d int, k uint64) {
		if t == nil {
			return
		}
		if d < 0 {
			out = append(out, trieEnt{k, t.v})
			return
		}
		for i, c := range t.kids {
			walk(c, d-1, k<<4|uint64(i))
		}
	}
	walk(t, 5, 0)
	return out
}
