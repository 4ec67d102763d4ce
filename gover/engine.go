package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/bluenviron/mediacommon/v2"

// Engine holds the loaded program and everything shared by the units.
type Engine struct {
	prog           *ssa.Program
	pkgs           map[string]*ssa.Package
	fset           *token.FileSet
	contracts      map[*ssa.Function]*Contract
	ifaceContracts map[string]*Contract
	units          map[string]*Unit
	unitOrder      []string
	created        map[string]int
	seq            int
	rank           int
	immutable      map[uint64]bool
	initHeaps      map[string]*Heap
	initMaps       map[uint64]*MapV
	tags           map[string]uint64
	tagTypes       map[uint64]types.Type
	maxSteps       int
	maxUnroll      int
	globals        map[*ssa.Global]uint64
	globalOK       map[*ssa.Global]bool
	repoGlobals    map[uint64]bool
	initDone       map[*ssa.Package]bool
	initCtx        *Ctx
	initState      *State
	repoDir        string
	proofDir       string
	overlayFiles   map[string]string // target path -> source path
	overlay        map[string][]byte
	keep           map[string]bool
	loadErrs       []string
	quickSec       int
	sigErrs        map[string]string // proof function -> reason it cannot be used
}

// Contract of a function: a specification wrapper calling it, loop annotations, directives.
type Contract struct {
	fn       *ssa.Function
	wrap     *ssa.Function
	inline   bool
	unroll   map[int]int
	invs     map[int][]*ssa.Function
	decs     map[int][]*ssa.Function
	props    []string
	method   string // interface method contract
	wrapName string
}

func (ct *Contract) modular() bool { return ct != nil && ct.wrap != nil }
func (ct *Contract) unrollFor(i int) int {
	if ct == nil {
		return 0
	}
	return ct.unroll[i]
}

// Unit is one verification task.
type Unit struct {
	name      string
	kind      string // contract, lemma, safe
	fn        *ssa.Function
	target    *ssa.Function
	props     []string
	inlineAll map[string]bool
	noCand    bool // only the stated loop invariants, none inferred
	doc       string
	missing   string
	thorough  bool
	maxLen    map[string]int64 // bounded lemma: stated bounds
	bounded   string
	noTerm    bool
	full      bool
}

func loadEngine(repo, proofs string) (*Engine, error) {
	e := &Engine{
		pkgs: map[string]*ssa.Package{}, contracts: map[*ssa.Function]*Contract{}, ifaceContracts: map[string]*Contract{},
		units: map[string]*Unit{}, created: map[string]int{}, immutable: map[uint64]bool{}, initHeaps: map[string]*Heap{},
		initMaps: map[uint64]*MapV{}, tags: map[string]uint64{}, tagTypes: map[uint64]types.Type{},
		maxSteps: 400000, maxUnroll: 300, globals: map[*ssa.Global]uint64{}, globalOK: map[*ssa.Global]bool{}, repoGlobals: map[uint64]bool{}, initDone: map[*ssa.Package]bool{},
		repoDir: repo, proofDir: proofs, overlayFiles: map[string]string{}, quickSec: 10, sigErrs: map[string]string{},
	}
	initZero = func(o uint64) bool { return e.repoGlobals[o] || o >= initObjLo && o < initialNext }
	overlay := map[string][]byte{}
	err := filepath.Walk(proofs, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return err
		}
		rel, _ := filepath.Rel(proofs, p)
		dst := filepath.Join(repo, filepath.Dir(rel), "zz_vf_"+filepath.Base(rel))
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		overlay[dst] = b
		e.overlayFiles[dst] = p
		return nil
	})
	if err != nil {
		return nil, err
	}
	var pk []*packages.Package
	// proof files that no longer type-check against the current tree are set aside and reported
	for round := 0; ; round++ {
		cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Overlay: overlay,
			Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local")}
		pk, err = packages.Load(cfg, "./...")
		if err != nil {
			return nil, err
		}
		bad := map[string]string{}
		hard := ""
		packages.Visit(pk, nil, func(p *packages.Package) {
			for _, er := range p.Errors {
				file := er.Pos
				if i := strings.IndexByte(file, ':'); i >= 0 {
					file = file[:i]
				}
				if _, ok := overlay[file]; ok {
					bad[file] = er.Error()
				} else if strings.HasPrefix(p.PkgPath, modPath) {
					hard = er.Error()
				}
			}
		})
		if len(bad) == 0 {
			if hard != "" {
				return nil, fmt.Errorf("load: %s", hard)
			}
			break
		}
		if round > 60 {
			return nil, fmt.Errorf("load: too many rounds")
		}
		for f, m := range bad {
			e.loadErrs = append(e.loadErrs, fmt.Sprintf("%s: %s", e.overlayFiles[f], m))
			if !e.blankDecl(overlay, f, m) {
				e.scanLost(e.overlayFiles[f], m)
				delete(overlay, f)
			}
		}
	}
	e.overlay = overlay
	prog, ps := ssautil.AllPackages(pk, ssa.InstantiateGenerics|ssa.GlobalDebug)
	e.prog = prog
	e.fset = prog.Fset
	for _, p := range ps {
		if p != nil {
			e.pkgs[p.Pkg.Path()] = p
		}
	}
	for _, p := range e.pkgs {
		p.Build()
	}
	e.collect(pk)
	return e, nil
}

// blankDecl removes from a proof file the declaration that no longer type-checks.
func (e *Engine) blankDecl(overlay map[string][]byte, file, msg string) bool {
	i := strings.Index(msg, file+":")
	if i < 0 {
		return false
	}
	rest := strings.SplitN(msg[i+len(file)+1:], ":", 2)
	line, err := strconv.Atoi(rest[0])
	if err != nil {
		return false
	}
	fs := token.NewFileSet()
	src := overlay[file]
	af, err := parser.ParseFile(fs, file, src, parser.ParseComments)
	if err != nil {
		return false
	}
	for _, d := range af.Decls {
		a, b := fs.Position(d.Pos()), fs.Position(d.End())
		if line < a.Line || line > b.Line {
			continue
		}
		fd, ok := d.(*ast.FuncDecl)
		if !ok {
			return false
		}
		if strings.HasPrefix(fd.Name.Name, "VFC_") || strings.HasPrefix(fd.Name.Name, "VFL_") {
			u := &Unit{name: shortDir(e.repoDir, file) + "." + fd.Name.Name, kind: "lost", missing: "does not type-check against the current tree: " + msg}
			if fd.Doc != nil {
				for _, c := range fd.Doc.List {
					if strings.HasPrefix(c.Text, "//vf:prop ") {
						u.props = append(u.props, strings.Fields(c.Text)[1:]...)
					}
				}
			}
			e.units[u.name] = u
			e.unitOrder = append(e.unitOrder, u.name)
		}
		out := append([]byte(nil), src...)
		for k := a.Offset; k < b.Offset; k++ {
			if out[k] != '\n' {
				out[k] = ' '
			}
		}
		overlay[file] = out
		return true
	}
	// an import that became unused
	for _, im := range af.Imports {
		p := fs.Position(im.Pos())
		if p.Line == line {
			out := append([]byte(nil), src[:p.Offset]...)
			out = append(out, '_', ' ')
			if im.Name != nil {
				return false
			}
			overlay[file] = append(out, src[p.Offset:]...)
			return true
		}
	}
	return false
}

func shortDir(repo, file string) string {
	d, _ := filepath.Rel(repo, filepath.Dir(file))
	return shortName(modPath + "/" + filepath.ToSlash(d))
}

// scanLost registers the units of a proof file that no longer compiles.
func (e *Engine) scanLost(file, msg string) {
	b, err := os.ReadFile(file)
	if err != nil {
		return
	}
	var props []string
	for _, ln := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(ln, "//vf:prop ") {
			props = strings.Fields(ln)[1:]
		}
		if strings.HasPrefix(ln, "func VF") {
			n := strings.TrimPrefix(ln, "func ")
			n = n[:strings.IndexByte(n, '(')]
			u := &Unit{name: filepath.Base(filepath.Dir(file)) + "." + n, kind: "lost", props: props, missing: "proof file does not type-check against the current tree: " + msg}
			e.units[u.name] = u
			e.unitOrder = append(e.unitOrder, u.name)
			props = nil
		}
	}
}

func (e *Engine) inRepo(fn *ssa.Function) bool {
	p := fn.Pkg
	if p == nil && fn.Origin() != nil {
		p = fn.Origin().Pkg
	}
	if p == nil && fn.Object() != nil && fn.Object().Pkg() != nil {
		return strings.HasPrefix(fn.Object().Pkg().Path(), modPath)
	}
	if p == nil {
		// wrappers and bounds
		if fn.Signature.Recv() != nil {
			return true
		}
		return fn.Synthetic != ""
	}
	return strings.HasPrefix(p.Pkg.Path(), modPath)
}

var inlineStdPk = map[string]bool{
	"io": true, "encoding/binary": true, "slices": true, "bytes": true, "math/bits": true, "cmp": true, "errors": false, "bufio": false, "time": true, "internal/bytealg": false,
}

func (e *Engine) inlineStd(fn *ssa.Function) bool {
	p := fn.Pkg
	if p == nil && fn.Origin() != nil {
		p = fn.Origin().Pkg
	}
	if p == nil {
		return fn.Synthetic != ""
	}
	return inlineStdPk[p.Pkg.Path()]
}

func (e *Engine) buildPkg(p *ssa.Package) { p.Build() }

func (e *Engine) methods() {}

// ---- collection of contracts, lemmas and directives

func docDirectives(fn *ssa.Function) [][]string {
	d, ok := fn.Syntax().(*ast.FuncDecl)
	if !ok || d.Doc == nil {
		return nil
	}
	var out [][]string
	for _, c := range d.Doc.List {
		if strings.HasPrefix(c.Text, "//vf:") {
			out = append(out, strings.Fields(c.Text[5:]))
		}
	}
	return out
}

// findTarget resolves Type_Method or Func within a package.
func (e *Engine) findTarget(p *ssa.Package, name string) *ssa.Function {
	if f := p.Func(name); f != nil {
		return f
	}
	for i := 0; i < len(name); i++ {
		if name[i] != '_' {
			continue
		}
		tn, mn := name[:i], name[i+1:]
		t := p.Type(tn)
		if t == nil {
			continue
		}
		for _, ty := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
			ms := e.prog.MethodSets.MethodSet(ty)
			if s := ms.Lookup(p.Pkg, mn); s != nil {
				f := e.prog.MethodValue(s)
				if f != nil && f.Synthetic == "" {
					return f
				}
			}
		}
	}
	return nil
}

// lookupFn resolves "pkg.Func", "(*pkg.T).M" style short names, or names local to p.
func (e *Engine) lookupFn(p *ssa.Package, s string) *ssa.Function {
	if p != nil {
		if f := e.findTarget(p, s); f != nil {
			return f
		}
	}
	i := strings.LastIndexByte(s, '.')
	if i > 0 {
		for path, q := range e.pkgs {
			if shortName(path) == s[:i] || strings.HasSuffix(path, "/"+s[:i]) {
				if f := e.findTarget(q, s[i+1:]); f != nil {
					return f
				}
			}
		}
	}
	return nil
}

func (e *Engine) contract(fn *ssa.Function) *Contract {
	ct := e.contracts[fn]
	if ct == nil {
		ct = &Contract{fn: fn, unroll: map[int]int{}, invs: map[int][]*ssa.Function{}, decs: map[int][]*ssa.Function{}}
		e.contracts[fn] = ct
	}
	return ct
}

func (e *Engine) collect(pk []*packages.Package) {
	var paths []string
	for p := range e.pkgs {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	addUnit := func(u *Unit) {
		e.units[u.name] = u
		e.unitOrder = append(e.unitOrder, u.name)
	}
	for _, path := range paths {
		p := e.pkgs[path]
		var names []string
		for n := range p.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			fn, ok := p.Members[n].(*ssa.Function)
			if !ok || !strings.HasPrefix(n, "VF") {
				continue
			}
			us := shortName(path)
			base := func(pre string) string { return strings.TrimPrefix(n, pre) }
			switch {
			case strings.HasPrefix(n, "VFInv_"), strings.HasPrefix(n, "VFDec_"):
				r := n[6:]
				i := strings.LastIndexByte(r, '_')
				if i < 0 {
					continue
				}
				// optional suffix letter after the loop index: VFInv_F_0b
				num := strings.TrimRight(r[i+1:], "abcdefghijklmnopqrstuvwxyz")
				k, err := strconv.Atoi(num)
				t := e.findTarget(p, r[:i])
				if err != nil || t == nil {
					continue // function gone: nothing to attach to
				}
				ct := e.contract(t)
				if strings.HasPrefix(n, "VFInv_") {
					ct.invs[k] = append(ct.invs[k], fn)
				} else {
					ct.decs[k] = append(ct.decs[k], fn)
				}
			case strings.HasPrefix(n, "VFC_"):
				t := e.findTarget(p, base("VFC_"))
				u := &Unit{name: us + "." + n, kind: "contract", fn: fn, target: t, inlineAll: map[string]bool{}}
				if t == nil {
					u.missing = "function under contract no longer exists"
				} else {
					ct := e.contract(t)
					ct.wrap = fn
					ct.wrapName = u.name
				}
				e.directives(u, p, fn)
				addUnit(u)
			case strings.HasPrefix(n, "VFL_"):
				u := &Unit{name: us + "." + n, kind: "lemma", fn: fn, inlineAll: map[string]bool{}}
				e.directives(u, p, fn)
				addUnit(u)
			case strings.HasPrefix(n, "VFDirectives"):
				for _, d := range docDirectives(fn) {
					switch d[0] {
					case "unroll":
						t := e.lookupFn(p, d[1])
						if t == nil {
							continue
						}
						k, _ := strconv.Atoi(d[2])
						m, _ := strconv.Atoi(d[3])
						e.contract(t).unroll[k] = m
					case "safe": // safe PROP target...
						for _, tn := range d[2:] {
							t := e.lookupFn(p, tn)
							u := &Unit{name: us + ".safe." + tn, kind: "safe", fn: t, target: t, props: strings.Split(d[1], ","), inlineAll: map[string]bool{}}
							if t == nil {
								u.missing = "function no longer exists"
							}
							if o, ok := e.units[u.name]; ok {
								o.props = append(o.props, u.props...)
								continue
							}
							addUnit(u)
						}
					}
				}
			}
		}
	}
}

func (e *Engine) directives(u *Unit, p *ssa.Package, fn *ssa.Function) {
	for _, d := range docDirectives(fn) {
		switch d[0] {
		case "prop":
			u.props = append(u.props, d[1:]...)
		case "inline":
			for _, n := range d[1:] {
				if t := e.lookupFn(p, n); t != nil {
					u.inlineAll[t.String()] = true
				}
			}
		case "thorough":
			u.thorough = true
		case "full":
			u.full = true
		case "nocand":
			u.noCand = true
		case "noterm":
			u.noTerm = true
		case "bounded":
			u.bounded = strings.Join(d[1:], " ")
		}
	}
	if d, ok := fn.Syntax().(*ast.FuncDecl); ok && d.Doc != nil {
		u.doc = d.Doc.Text()
	}
}

// ---- globals and package initialisation

func (e *Engine) globalPtr(g *ssa.Global) *Ptr {
	id, ok := e.globals[g]
	if !ok {
		id = uint64(len(e.globals)) + 16
		if id >= initObjLo {
			panic("too many globals")
		}
		e.globals[g] = id
		if g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
			e.repoGlobals[id] = true
		}
	}
	t := g.Type().(*types.Pointer).Elem()
	return &Ptr{BV(32, id), BV(64, 0), pointeeKey(t)}
}

// derived reports whether v only flows into reads.
func readOnlyUse(v ssa.Value, depth int, seen map[ssa.Value]bool) bool {
	if seen[v] || v.Referrers() == nil {
		return true
	}
	seen[v] = true
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr == v {
				return false
			}
		case *ssa.IndexAddr:
			if x.X == v && !readOnlyUse(x, depth+1, seen) {
				return false
			}
		case *ssa.FieldAddr:
			if !readOnlyUse(x, depth+1, seen) {
				return false
			}
		case *ssa.Slice:
			if !readOnlyUse(x, depth+1, seen) {
				return false
			}
		case *ssa.MapUpdate:
			if x.Map == v {
				return false
			}
		case *ssa.UnOp:
			switch under(x.Type()).(type) {
			case *types.Slice, *types.Map, *types.Pointer:
				if !readOnlyUse(x, depth+1, seen) {
					return false
				}
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok {
				if b.Name() == "copy" && x.Call.Args[0] == v {
					return false
				}
				if b.Name() == "append" && x.Call.Args[0] == v {
					return false
				}
			}
		}
	}
	return true
}

func (e *Engine) ensureInit(p *ssa.Package) {
	if e.initDone[p] || !strings.HasPrefix(p.Pkg.Path(), modPath) {
		return
	}
	e.initDone[p] = true
	for _, imp := range p.Pkg.Imports() {
		if q := e.pkgs[imp.Path()]; q != nil {
			e.ensureInit(q)
		}
	}
	if e.initCtx == nil {
		c := newCtx(e, nil)
		c.initMode = true
		e.initCtx = c
		e.initState = &State{pc: tTrue, heaps: map[string]*Heap{}, next: BV(32, initObjLo)}
	}
	// which globals are assigned outside the initialiser?
	mutable := map[*ssa.Global]bool{}
	var scan func(f *ssa.Function)
	scan = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if f.Name() == "init" && f.Synthetic != "" {
					continue
				}
				for _, op := range ins.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch x := ins.(type) {
					case *ssa.UnOp:
						if v := ssa.Value(x); !readOnlyUse(v, 0, map[ssa.Value]bool{}) {
							mutable[g] = true
						}
					case *ssa.DebugRef:
					case *ssa.IndexAddr:
						if !readOnlyUse(x, 0, map[ssa.Value]bool{}) {
							mutable[g] = true
						}
					case *ssa.FieldAddr:
						if !readOnlyUse(x, 0, map[ssa.Value]bool{}) {
							mutable[g] = true
						}
					case *ssa.Slice:
						if !readOnlyUse(x, 0, map[ssa.Value]bool{}) {
							mutable[g] = true
						}
					default:
						mutable[g] = true
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			scan(a)
		}
	}
	for _, m := range p.Members {
		switch x := m.(type) {
		case *ssa.Function:
			scan(x)
		case *ssa.Type:
			for _, ty := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
				ms := e.prog.MethodSets.MethodSet(ty)
				for i := 0; i < ms.Len(); i++ {
					if f := e.prog.MethodValue(ms.At(i)); f != nil && f.Pkg == p {
						scan(f)
					}
				}
			}
		}
	}
	ok := func() (ok bool) {
		defer func() {
			if r := recover(); r != nil {
				if u, is := r.(unsupported); is {
					if debug {
						fmt.Println("init of", p.Pkg.Path(), "unsupported:", u.msg)
					}
					ok = false
					return
				}
				panic(r)
			}
		}()
		c := e.initCtx
		c.steps = 0
		c.callDepth = map[*ssa.Function]int{}
		st, _ := c.callFn(p.Func("init"), nil, nil, e.initState)
		e.initState = st
		return true
	}()
	for k, h := range e.initState.heaps {
		e.initHeaps[k] = h
	}
	if n := e.initState.next; n.op == OConst {
		for i := uint64(initObjLo); i < n.val; i++ {
			e.immutable[i] = true
		}
		if n.val >= initObjHi {
			panic("too many initialiser objects")
		}
	}
	for _, m := range p.Members {
		if g, is := m.(*ssa.Global); is {
			e.globalPtr(g)
			if ok && !mutable[g] && !strings.HasPrefix(g.Name(), "init$") {
				e.globalOK[g] = true
				e.immutable[e.globals[g]] = true
			} else if debug && mutable[g] {
				fmt.Println("mutable global", g)
			}
		}
	}
}

// globalVal returns the value of an immutable package-level variable.
func (c *Ctx) globalVal(g *ssa.Global) (Val, bool) {
	if c.initMode {
		return nil, false
	}
	t := g.Type().(*types.Pointer).Elem()
	if g.Pkg == nil || !strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
		if isErrorType(t) {
			p := c.e.globalPtr(g)
			return &Iface{BV(32, errTag), p.obj, BV(64, 0)}, true
		}
		return nil, false
	}
	c.e.ensureInit(g.Pkg)
	if !c.e.globalOK[g] {
		return nil, false
	}
	p := c.e.globalPtr(g)
	v := loadVal(func(k string, w int) *Arr {
		if h, ok := c.e.initHeaps[k]; ok {
			return heapGet(h, p.obj)
		}
		return arrConst(BVz(w))
	}, p.idx, t, p.key)
	switch under(t).(type) {
	case *types.Map:
		// static map values live aside
		if h, ok := c.e.initHeaps[p.key+".h"]; ok {
			x := arrRead(heapGet(h, p.obj), BV(64, 0))
			if x.op == OConst {
				if sv, ok := sideVals[x.val]; ok {
					return sv, true
				}
			}
		}
		return nil, false
	case *types.Signature:
		return nil, false
	}
	return v, true
}

func newCtx(e *Engine, u *Unit) *Ctx {
	return &Ctx{e: e, unit: u, base: map[string]*Heap{}, assSet: map[*Term]bool{}, names: map[string]int{}, marks: map[string]*loopMark{},
		dropped: map[string]bool{}, oblNames: map[string]int{}, trusted: map[string]bool{}, used: map[string]bool{}, inlined: map[string]bool{},
		measures: map[string]bool{}, loopKinds: map[string]string{}, callDepth: map[*ssa.Function]int{}}
}

// prove: quick synchronous check used while executing specification code.
func (e *Engine) prove(c *Ctx, pc, cond *Term) bool {
	g := And(pc, Not(cond))
	if g == tFalse {
		return true
	}
	fs := append(relevant(c.ass, []*Term{g}), g)
	fs = append(fs, instantiate(fs, 2)...)
	return check(fs, nil, 3).status == "unsat"
}
