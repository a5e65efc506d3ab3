package main

import (
	"encoding/hex"
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type deferRec struct {
	fn   Value
	args []Value
	call *ssa.CallCommon
}

type Frame struct {
	fi        *FnInfo
	regs      []Value
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	ip        int
	defers    []deferRec
	retReg    int                      // register of the caller that receives the result; -1: discard
	deferCall bool                     // this frame is a deferred call
	unwinding bool                     // frame is running its defers because of a panic
	recov     bool                     // panic recovered: run the remaining defers then return
	onRet     func(st *State, v Value) // optional post-processing instead of retReg
}

type panicRec struct {
	val       Value
	msg       string
	runtime   bool
	recovered bool
	pos       token.Pos
}

type Observation struct {
	label string
	t     *Term // integer observation
	s     *StrV // byte-string observation
}

func (o Observation) eval(st *State) string {
	if o.t != nil {
		return fmt.Sprint(sext(st.evalModel(o.t), o.t.w))
	}
	n := st.evalModel(o.s.len)
	if n > 1<<20 {
		return "?"
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(st.evalModel(st.c.Read(o.s.arr, st.c.Add(o.s.off, st.c.Const(64, uint64(i))))))
	}
	return hex.EncodeToString(b)
}

type State struct {
	e        *Explorer
	c        *Ctx
	frames   []*Frame
	heap     pvec[Value]
	nobj     uint32
	own      *owner
	pc       []*Term
	known    map[*Term]bool
	rng      map[*Term]urange
	pins     map[int32]uint64
	simpMem  map[*Term]*Term
	model    Model
	evalMem  map[*Term]uint64
	panics   []*panicRec
	steps    int64
	obs      []Observation
	names    map[string]int // per-path name counters
	globals  map[*ssa.Global]uint32
	inited   map[*ssa.Package]bool
	syms     []*SymBase // symbolic bases created on this path
	inputs   []inputRec
	reached  map[string]bool
	records  map[string][]Value // engine-side records for ideal functionality
	out      *PathResult
	depth    int
	forks    int
	assumed  []string
	field    *fieldState
	guard    *guard
	noSample bool
	long     bool
}

type inputRec struct {
	name string
	kind string // "int","bytes"
	t    *Term  // value (int) or length (bytes)
	w    uint8
	sb   *SymBase
}

func (st *State) clone() *State {
	n := *st
	n.frames = make([]*Frame, len(st.frames))
	for i, f := range st.frames {
		g := *f
		g.regs = append([]Value(nil), f.regs...)
		g.defers = append([]deferRec(nil), f.defers...)
		n.frames[i] = &g
	}
	st.own = &owner{}
	n.own = &owner{}
	n.pc = append([]*Term(nil), st.pc...)
	n.known = cloneMap(st.known)
	n.rng = cloneMap(st.rng)
	n.evalMem = nil
	n.simpMem = nil
	n.panics = nil
	for _, p := range st.panics {
		q := *p
		n.panics = append(n.panics, &q)
	}
	n.obs = append([]Observation(nil), st.obs...)
	n.names = cloneMap(st.names)
	n.globals = cloneMap(st.globals)
	n.inited = cloneMap(st.inited)
	n.syms = append([]*SymBase(nil), st.syms...)
	n.inputs = append([]inputRec(nil), st.inputs...)
	n.reached = cloneMap(st.reached)
	n.field = st.field.clone()
	n.records = map[string][]Value{}
	for k, v := range st.records {
		n.records[k] = append([]Value(nil), v...)
	}
	return &n
}

func cloneMap[K comparable, V any](m map[K]V) map[K]V {
	r := make(map[K]V, len(m))
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (st *State) alloc(v Value) Ptr {
	st.nobj++
	st.heap = st.heap.set(st.nobj, v, st.own)
	return Ptr{obj: st.nobj}
}

func (st *State) obj(id uint32) Value {
	v, ok := st.heap.get(id)
	if !ok {
		panic(fmt.Sprintf("dangling object %d", id))
	}
	return v
}
func (st *State) setObj(id uint32, v Value) {
	if st.guard != nil {
		st.guardWrite(id)
	}
	st.heap = st.heap.set(id, v, st.own)
}

// load reads through a non-nil pointer.
func (st *State) load(p Ptr) Value {
	v := st.obj(p.obj)
	for _, s := range p.path {
		v = st.sub(v, s)
	}
	return v
}

func (st *State) sub(v Value, s Step) Value {
	switch x := v.(type) {
	case *StructV:
		return x.f[s.f]
	case *SArr:
		return st.c.Read(x, s.idx)
	case *ArrV:
		i := st.concretize(s.idx, 4096)
		if i >= uint64(len(x.e)) {
			panic(unsupported("array index outside its object"))
		}
		return x.e[i]
	}
	panic(unsupported(fmt.Sprintf("load path through %T", v)))
}

func (st *State) store(p Ptr, v Value) {
	if len(p.path) == 0 {
		st.setObj(p.obj, v)
		return
	}
	root := st.obj(p.obj)
	st.setObj(p.obj, st.update(root, p.path, v))
}

func (st *State) update(v Value, path []Step, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	s := path[0]
	switch x := v.(type) {
	case *StructV:
		f := append([]Value(nil), x.f...)
		f[s.f] = st.update(f[s.f], path[1:], nv)
		return &StructV{f}
	case *SArr:
		t, ok := nv.(*Term)
		if !ok || len(path) != 1 {
			panic(unsupported("store into scalar array"))
		}
		return st.c.Write(x, s.idx, t)
	case *ArrV:
		i := st.concretize(s.idx, 4096)
		e := append([]Value(nil), x.e...)
		e[i] = st.update(e[i], path[1:], nv)
		return &ArrV{e}
	}
	panic(unsupported(fmt.Sprintf("store path through %T", v)))
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

// sliceBytes views a slice of scalars as (array, off, len).
func (st *State) sliceArr(s *SliceV) *SArr {
	if s.base.obj == 0 {
		return st.c.ZeroArr(8, 0)
	}
	v := st.load(s.base)
	a, ok := v.(*SArr)
	if !ok {
		panic(unsupported(fmt.Sprintf("scalar slice over %T", v)))
	}
	return a
}

func (st *State) newBytes(a *SArr, n *Term) *SliceV {
	if n.IsConst() && a.n < 0 {
		b := *a
		b.n = int64(n.val)
		a = &b
	}
	return &SliceV{base: st.alloc(a), off: st.c.Const(64, 0), len: n, cap: n}
}

func typeKey(t types.Type) string { return types.TypeString(t, nil) }
