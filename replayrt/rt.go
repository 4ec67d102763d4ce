// Package vfrt runs contracts and functions of the repository on concrete inputs: inputs
// decoded from a verifier's counterexample, or searched for around the byte strings of the
// repository's own tests. It is added to the repository by an overlay when an obligation has
// failed, to look for an input that shows the failure on the real code.
package vfrt

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"strings"
	"time"
	"unsafe"

	"github.com/bluenviron/mediacommon/v2/internal/vf"
)

// Node is a serialized value.
type Node struct {
	K string  `json:"k"`
	V string  `json:"v,omitempty"`
	E []*Node `json:"e,omitempty"`
}

// UnitSpec is one function to run.
type UnitSpec struct {
	Name   string  `json:"name"`
	Safe   bool    `json:"safe"`
	Args   []*Node `json:"args,omitempty"` // counterexample
	Seed   int64   `json:"seed,omitempty"` // of vf.Any
	Budget int     `json:"budget_ms"`
	Recv   bool    `json:"recv"`
}

// Spec is the input file.
type Spec struct {
	Units  []*UnitSpec `json:"units"`
	Corpus []string    `json:"corpus"`
	Seed   int64       `json:"seed"`
	Out    string      `json:"out"`
	Log    string      `json:"log,omitempty"`
}

// Outcome of one unit.
type Outcome struct {
	Name    string  `json:"name"`
	Status  string  `json:"status"` // fail, none
	Message string  `json:"message,omitempty"`
	From    string  `json:"from,omitempty"`
	Args    []*Node `json:"args,omitempty"`
	Seed    int64   `json:"seed,omitempty"`
	Runs    int     `json:"runs"`
	Valid   int     `json:"valid"`
}

type gen struct {
	r      *rand.Rand
	corpus [][]byte
	big    int
}

func (g *gen) bytes() []byte {
	r := g.r
	var b []byte
	switch k := r.Intn(10); {
	case k < 6 && len(g.corpus) > 0:
		b = append(b, g.corpus[r.Intn(len(g.corpus))]...)
	case k < 8:
		b = make([]byte, r.Intn(24))
		for i := range b {
			b[i] = g.byte()
		}
	default:
		n := r.Intn(10)
		if r.Intn(20) == 0 {
			n = r.Intn(3000)
		}
		b = make([]byte, n)
		r.Read(b)
	}
	for n := r.Intn(4); n > 0; n-- {
		switch r.Intn(9) {
		case 0:
			if len(b) > 0 {
				b[r.Intn(len(b))] ^= 1 << r.Intn(8)
			}
		case 1:
			if len(b) > 0 {
				b[r.Intn(len(b))] = g.byte()
			}
		case 2:
			i := r.Intn(len(b) + 1)
			b = append(b[:i], append([]byte{g.byte()}, b[i:]...)...)
		case 3:
			if len(b) > 0 {
				i := r.Intn(len(b))
				b = append(b[:i], b[i+1:]...)
			}
		case 4:
			b = b[:r.Intn(len(b)+1)]
		case 5:
			if len(g.corpus) > 0 {
				c := g.corpus[r.Intn(len(g.corpus))]
				i := r.Intn(len(b) + 1)
				b = append(append([]byte{}, b[:i]...), c[r.Intn(len(c)+1):]...)
			}
		case 6:
			if len(b) > 0 {
				i := r.Intn(len(b))
				for j := i; j < len(b) && j < i+1+r.Intn(6); j++ {
					b[j] = []byte{0, 0xff, 0x80, 3, 1}[r.Intn(5)]
				}
			}
		case 7:
			for k := r.Intn(40); k > 0; k-- {
				b = append(b, g.byte())
			}
		case 8:
			if len(b) > 0 && len(b) < 1000 {
				i := r.Intn(len(b))
				b = append(append([]byte{}, b...), b[i:]...)
			}
		}
	}
	return b
}

func (g *gen) byte() byte {
	switch g.r.Intn(6) {
	case 0:
		return 0
	case 1:
		return 0xff
	case 2:
		return byte(1) << g.r.Intn(8)
	case 3:
		return byte(g.r.Intn(8))
	}
	return byte(g.r.Intn(256))
}

func (g *gen) int(bits int) uint64 {
	r := g.r
	switch r.Intn(11) {
	case 0:
		return 0
	case 1, 2, 3, 4:
		return uint64(r.Intn(9))
	case 5:
		return uint64(r.Intn(300))
	case 6:
		return 1 << r.Intn(bits)
	case 7:
		return 1<<r.Intn(bits) - 1
	case 8:
		return uint64(-int64(r.Intn(5)))
	case 9:
		return uint64([]int{8000, 11025, 16000, 22050, 44100, 48000, 90000, 96000, 1000, 960, 480, 1024, 576, 1152, 1 << 13, 1<<13 - 1}[r.Intn(16)])
	}
	return r.Uint64()
}

func settable(v reflect.Value) reflect.Value {
	if v.CanSet() {
		return v
	}
	return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
}

func (g *gen) fill(v reflect.Value, depth int, nonNil bool) {
	v = settable(v)
	r := g.r
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(int64(g.int(v.Type().Bits())) << (64 - v.Type().Bits()) >> (64 - v.Type().Bits()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(g.int(v.Type().Bits()) << (64 - v.Type().Bits()) >> (64 - v.Type().Bits()))
	case reflect.Float32, reflect.Float64:
		v.SetFloat(float64(r.Intn(1000)))
	case reflect.String:
		v.SetString(string(g.bytes()))
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			if r.Intn(30) == 0 {
				return
			}
			v.SetBytes(g.bytes())
			return
		}
		if depth > 6 {
			return
		}
		n := r.Intn(4)
		if r.Intn(12) == 0 {
			n = r.Intn(40)
		}
		if r.Intn(200) == 0 {
			n = r.Intn(600)
		}
		s := reflect.MakeSlice(v.Type(), n, n)
		for i := 0; i < n; i++ {
			g.fill(s.Index(i), depth+1, true)
		}
		v.Set(s)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			g.fill(v.Index(i), depth+1, true)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			g.fill(v.Field(i), depth+1, false)
		}
	case reflect.Pointer:
		if depth > 6 || (!nonNil && r.Intn(3) == 0) {
			return
		}
		p := reflect.New(v.Type().Elem())
		g.fill(p.Elem(), depth+1, true)
		v.Set(p)
	}
}

// dump serializes a value.
func dump(v reflect.Value, depth int) *Node {
	switch v.Kind() {
	case reflect.Bool:
		return &Node{K: "bool", V: fmt.Sprint(v.Bool())}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return &Node{K: "int", V: fmt.Sprint(v.Int())}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return &Node{K: "int", V: fmt.Sprint(v.Uint())}
	case reflect.Float32:
		return &Node{K: "int", V: fmt.Sprint(math.Float32bits(float32(v.Float())))}
	case reflect.Float64:
		return &Node{K: "int", V: fmt.Sprint(math.Float64bits(v.Float()))}
	case reflect.String:
		return &Node{K: "bytes", V: hex.EncodeToString([]byte(v.String()))}
	case reflect.Slice:
		if v.IsNil() {
			return &Node{K: "nil"}
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return &Node{K: "bytes", V: hex.EncodeToString(v.Bytes())}
		}
		n := &Node{K: "slice"}
		for i := 0; i < v.Len(); i++ {
			n.E = append(n.E, dump(v.Index(i), depth+1))
		}
		return n
	case reflect.Array:
		n := &Node{K: "array"}
		for i := 0; i < v.Len(); i++ {
			n.E = append(n.E, dump(v.Index(i), depth+1))
		}
		return n
	case reflect.Struct:
		n := &Node{K: "struct"}
		for i := 0; i < v.NumField(); i++ {
			n.E = append(n.E, dump(v.Field(i), depth+1))
		}
		return n
	case reflect.Pointer:
		if v.IsNil() || depth > 12 {
			return &Node{K: "nil"}
		}
		return &Node{K: "ptr", E: []*Node{dump(v.Elem(), depth+1)}}
	}
	return &Node{K: "zero"}
}

// build is the inverse of dump.
func build(n *Node, v reflect.Value) {
	v = settable(v)
	if n == nil {
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(n.V == "true")
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		var x int64
		fmt.Sscan(n.V, &x)
		v.SetInt(x)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		var x uint64
		fmt.Sscan(n.V, &x)
		v.SetUint(x)
	case reflect.Float32:
		var x uint32
		fmt.Sscan(n.V, &x)
		v.SetFloat(float64(math.Float32frombits(x)))
	case reflect.Float64:
		var x uint64
		fmt.Sscan(n.V, &x)
		v.SetFloat(math.Float64frombits(x))
	case reflect.String:
		b, _ := hex.DecodeString(n.V)
		v.SetString(string(b))
	case reflect.Slice:
		switch n.K {
		case "bytes":
			b, _ := hex.DecodeString(n.V)
			if b == nil {
				b = []byte{}
			}
			v.SetBytes(b)
		case "slice":
			s := reflect.MakeSlice(v.Type(), len(n.E), len(n.E))
			for i := range n.E {
				build(n.E[i], s.Index(i))
			}
			v.Set(s)
		}
	case reflect.Array:
		for i := range n.E {
			if i < v.Len() {
				build(n.E[i], v.Index(i))
			}
		}
	case reflect.Struct:
		for i := range n.E {
			if i < v.NumField() {
				build(n.E[i], v.Field(i))
			}
		}
	case reflect.Pointer:
		if n.K == "ptr" {
			p := reflect.New(v.Type().Elem())
			build(n.E[0], p.Elem())
			v.Set(p)
		}
	}
}

type verdict struct {
	status string // ok skip fail
	msg    string
}

// specPanic: was the panic raised by specification code (not the code under check)?
func specPanic() bool {
	pc := make([]uintptr, 40)
	n := runtime.Callers(3, pc)
	fr := runtime.CallersFrames(pc[:n])
	for {
		f, more := fr.Next()
		if strings.HasPrefix(f.Function, "runtime.") || strings.HasPrefix(f.Function, "internal/vfrt") {
			if !more {
				return false
			}
			continue
		}
		base := f.Function[strings.LastIndexByte(f.Function, '/')+1:]
		if i := strings.IndexByte(base, '.'); i >= 0 {
			base = base[i+1:]
		}
		return strings.HasPrefix(base, "VF")
	}
}

func call(fn reflect.Value, args []reflect.Value, seed int64, corpus [][]byte, unit string) verdict {
	ch := make(chan verdict, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case vf.Skip:
					ch <- verdict{"skip", ""}
				case vf.Fail:
					ch <- verdict{"fail", x.Error()}
				default:
					if specPanic() {
						ch <- verdict{"skip", "panic in specification code"}
						return
					}
					ch <- verdict{"fail", fmt.Sprintf("panic: %v", r)}
				}
			}
		}()
		ag := &gen{r: rand.New(rand.NewSource(seed)), corpus: corpus}
		vf.AnySource = func(p any) { ag.fill(reflect.ValueOf(p).Elem(), 3, true) }
		fn.Call(args)
		ch <- verdict{"ok", ""}
	}()
	select {
	case v := <-ch:
		return v
	case <-time.After(10 * time.Second):
		return verdict{"fail", "does not return within 10 s"}
	}
}

func dumpAll(args []reflect.Value) []*Node {
	var out []*Node
	for _, a := range args {
		out = append(out, dump(a, 0))
	}
	return out
}

func buildArgs(t reflect.Type, ns []*Node) []reflect.Value {
	var args []reflect.Value
	for i := 0; i < t.NumIn(); i++ {
		p := reflect.New(t.In(i))
		if i < len(ns) {
			build(ns[i], p.Elem())
		}
		args = append(args, p.Elem())
	}
	return args
}

// Run executes the specification named by VF_REPLAY.
func Run(fns map[string]any) {
	b, err := os.ReadFile(os.Getenv("VF_REPLAY"))
	if err != nil {
		panic(err)
	}
	var sp Spec
	if err = json.Unmarshal(b, &sp); err != nil {
		panic(err)
	}
	var corpus [][]byte
	for _, c := range sp.Corpus {
		x, _ := hex.DecodeString(c)
		corpus = append(corpus, x)
	}
	var outs []*Outcome
	save := func() {
		b, _ := json.MarshalIndent(outs, "", " ")
		os.WriteFile(sp.Out, b, 0o644)
	}
	for _, u := range sp.Units {
		o := &Outcome{Name: u.Name, Status: "none"}
		outs = append(outs, o)
		f, ok := fns[u.Name]
		if !ok {
			continue
		}
		fn := reflect.ValueOf(f)
		t := fn.Type()
		if t.IsVariadic() {
			continue
		}
		try := func(args []reflect.Value, seed int64, from string) bool {
			ser := dumpAll(args)
			if sp.Log != "" {
				b, _ := json.Marshal(&Outcome{Name: u.Name, Status: "fail", Message: "the process was ended while running this input", From: from, Args: ser, Seed: seed})
				os.WriteFile(sp.Log, b, 0o644)
			}
			v := call(fn, args, seed, corpus, u.Name)
			o.Runs++
			if v.status != "skip" {
				o.Valid++
			}
			if v.status == "fail" {
				o.Status, o.Message, o.From, o.Args, o.Seed = "fail", v.msg, from, ser, seed
				return true
			}
			return false
		}
		done := false
		if u.Args != nil {
			done = try(buildArgs(t, u.Args), u.Seed, "counterexample")
		}
		if !done && u.Budget > 0 {
			r := rand.New(rand.NewSource(sp.Seed + 7))
			g := &gen{r: r, corpus: corpus}
			end := time.Now().Add(time.Duration(u.Budget) * time.Millisecond)
			for time.Now().Before(end) && !done {
				var args []reflect.Value
				for i := 0; i < t.NumIn(); i++ {
					p := reflect.New(t.In(i))
					g.fill(p.Elem(), 0, u.Safe || (i == 0 && u.Recv) || r.Intn(20) != 0)
					args = append(args, p.Elem())
				}
				done = try(args, r.Int63(), "search")
			}
		}
		save()
		if done && strings.HasPrefix(o.Message, "does not return") {
			os.Exit(0)
		}
	}
	save()
}
