package main

// The symbolic interpreter for go/ssa.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/bits"
	"os"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type operand struct {
	kind uint8 // 0 reg, 1 const, 2 global, 3 func, 4 builtin
	reg  int
	val  Value
	g    *ssa.Global
}

type instrInfo struct {
	in  ssa.Instruction
	ops []operand
	reg int
}

type FnInfo struct {
	fn     *ssa.Function
	regs   map[ssa.Value]int
	n      int
	blocks [][]instrInfo
	pkgs   []*ssa.Package // packages whose globals are referenced
	name   string
}

type forkReq struct {
	cond     *Term
	val      bool // value under the current model
	otherMod Model
}

type goPanic struct{ rec *panicRec }
type pathEnd struct {
	kind string
	msg  string
}

func (e *Explorer) fnInfo(fn *ssa.Function) *FnInfo {
	if fi, ok := e.fns[fn]; ok {
		return fi
	}
	fi := &FnInfo{fn: fn, regs: map[ssa.Value]int{}, name: fn.String()}
	add := func(v ssa.Value) {
		fi.regs[v] = fi.n
		fi.n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	seen := map[*ssa.Package]bool{}
	var rands [16]*ssa.Value
	for _, b := range fn.Blocks {
		var l []instrInfo
		for _, in := range b.Instrs {
			ii := instrInfo{in: in, reg: -1}
			if v, ok := in.(ssa.Value); ok {
				ii.reg = fi.regs[v]
			}
			for _, op := range in.Operands(rands[:0]) {
				var o operand
				switch v := (*op).(type) {
				case nil:
					o = operand{kind: 1, val: nil}
				case *ssa.Const:
					o = operand{kind: 1, val: e.constVal(v)}
				case *ssa.Global:
					o = operand{kind: 2, g: v}
					if v.Pkg != nil && !seen[v.Pkg] {
						seen[v.Pkg] = true
						fi.pkgs = append(fi.pkgs, v.Pkg)
					}
				case *ssa.Function:
					o = operand{kind: 1, val: &FuncV{fn: v}}
				case *ssa.Builtin:
					o = operand{kind: 1, val: &FuncV{builtin: v}}
				default:
					r, ok := fi.regs[v]
					if !ok {
						panic(fmt.Sprintf("no register for %s in %s", v.Name(), fn))
					}
					o = operand{kind: 0, reg: r}
				}
				ii.ops = append(ii.ops, o)
			}
			l = append(l, ii)
		}
		fi.blocks = append(fi.blocks, l)
	}
	// the package's own init functions may set state used elsewhere (main's
	// init installs flag.Usage)
	if p := fn.Package(); p != nil && !seen[p] && strings.HasPrefix(p.Pkg.Path(), modPath) {
		fi.pkgs = append(fi.pkgs, p)
	}
	e.fns[fn] = fi
	e.encoded[fi.name] += 0
	return fi
}

func (e *Explorer) constVal(k *ssa.Const) Value {
	c := e.c
	t := k.Type()
	if k.Value == nil {
		return c.zero(t)
	}
	if w, _, ok := intWidth(t); ok {
		v := constant.ToInt(k.Value)
		if i, ok := constant.Int64Val(v); ok {
			return c.Const(w, uint64(i))
		}
		if u, ok := constant.Uint64Val(v); ok {
			return c.Const(w, u)
		}
	}
	if isBool(t) {
		return c.Bool(constant.BoolVal(k.Value))
	}
	if isString(t) {
		return c.str(constant.StringVal(k.Value))
	}
	if isFloat(t) {
		f, _ := constant.Float64Val(k.Value)
		return FloatV(f)
	}
	return OpaqueV{"constant of type " + t.String()}
}

func (st *State) get(f *Frame, o operand) Value {
	switch o.kind {
	case 0:
		v := f.regs[o.reg]
		if t, ok := v.(*Term); ok && len(st.pins) > 0 && t.op != OConst && t.w > 8 {
			return st.simp(t)
		}
		return v
	case 1:
		return o.val
	case 2:
		return st.globalPtr(o.g)
	}
	panic("operand")
}

func (st *State) globalPtr(g *ssa.Global) Ptr {
	if id, ok := st.globals[g]; ok {
		return Ptr{obj: id}
	}
	p := st.alloc(st.c.zero(g.Type().(*types.Pointer).Elem()))
	st.globals[g] = p.obj
	return p
}

func (st *State) throw(msg string) {
	// runtime error values implement error; model as a string-carrying error
	v := IfaceV{t: st.e.runtimeErrType, v: st.c.str("runtime error: " + msg)}
	panic(&goPanic{&panicRec{val: v, msg: "runtime error: " + msg, runtime: true}})
}

// pushCall enters fn.  Results go to register retReg of the current frame.
func (st *State) pushCall(fn *ssa.Function, args []Value, binds []Value, retReg int) *Frame {
	fi := st.e.fnInfo(fn)
	if len(fn.Blocks) == 0 {
		panic(unsupported("call of external function " + fn.String()))
	}
	if len(st.frames) > 400 {
		panic(unsupported("call depth"))
	}
	f := &Frame{fi: fi, regs: make([]Value, fi.n), block: fn.Blocks[0], retReg: retReg}
	if len(args) != len(fn.Params) {
		panic(unsupported(fmt.Sprintf("arity of %s: %d vs %d", fn, len(args), len(fn.Params))))
	}
	copy(f.regs, args)
	copy(f.regs[len(args):], binds)
	st.frames = append(st.frames, f)
	st.e.encoded[fi.name]++
	st.needInit(fi)
	return f
}

// needInit runs (lazily) the initialisers of packages whose globals fi uses.
func (st *State) needInit(fi *FnInfo) {
	for _, p := range fi.pkgs {
		st.initPkg(p)
	}
}

func (st *State) initPkg(p *ssa.Package) {
	if st.inited[p] {
		return
	}
	st.inited[p] = true
	if skipInit[p.Pkg.Path()] {
		return
	}
	init := p.Func("init")
	if init == nil {
		return
	}
	st.pushCall(init, nil, nil, -1)
}

// packages whose initialisers are never needed by the code under test
var skipInit = map[string]bool{"runtime": true, "os": true, "syscall": true, "reflect": true, "internal/godebug": true, "internal/cpu": true, "time": true, "unicode": false,
	"internal/poll": true, "crypto/internal/fips140/check": true, "fmt": true, "sync": true, "internal/godebugs": true}

func (st *State) setRet(retReg int, v Value) {
	if retReg >= 0 {
		st.top().regs[retReg] = v
	}
}

// run executes until the path ends; it returns extra states through e.push.
func (st *State) run() {
	for {
		if st.runSlice() {
			return
		}
	}
}

func (st *State) runSlice() (done bool) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch x := r.(type) {
		case *forkReq:
			st.e.stats.forks++
			st.forks++
			if st.forks > st.e.maxForks {
				st.finish("bound", "fork bound reached")
				done = true
				return
			}
			other := st.clone()
			st.addPC(x.cond, x.val)
			other.model = x.otherMod
			other.addPC(x.cond, !x.val)
			st.pinCheck(x.cond)
			other.pinCheck(x.cond)
			st.e.push(other)
			done = false
		case *goPanic:
			x.rec.pos = st.curPos()
			st.panics = append(st.panics, x.rec)
			done = st.unwind()
		case *pathEnd:
			st.finish(x.kind, x.msg)
			done = true
		case *unsupportedErr:
			st.finish("unsupported", x.msg+" at "+st.where())
			done = true
		default:
			if st.e.debug {
				panic(r)
			}
			st.finish("unsupported", fmt.Sprintf("engine: %v at %s", r, st.where()))
			done = true
		}
	}()
	for {
		if len(st.frames) == 0 {
			st.finish("done", "")
			return true
		}
		st.steps++
		st.e.stats.steps++
		if st.steps > st.e.maxSteps && (!st.long || st.steps > 20*st.e.maxSteps) {
			st.finish("bound", "step bound reached at "+st.where())
			return true
		}
		if st.steps&0x3fff == 0 && st.e.expired() {
			st.finish("bound", "time bound reached at "+st.where())
			return true
		}
		f := st.frames[len(st.frames)-1]
		if f.unwinding {
			if st.unwind() {
				return true
			}
			continue
		}
		ii := &f.fi.blocks[f.block.Index][f.ip]
		st.step(f, ii)
	}
}

func (st *State) addPC(cond *Term, val bool) {
	if !val {
		cond = st.c.Not(cond)
	}
	st.known[cond] = true
	st.known[st.c.Not(cond)] = false
	st.pc = append(st.pc, cond)
	st.learn(cond)
	st.learnRange(cond, true)
}

// learn records consequences useful for syntactic decisions.
func (st *State) learn(cond *Term) {
	if cond.op == OBAnd {
		for _, x := range []*Term{cond.a, cond.b} {
			if _, ok := st.known[x]; !ok {
				st.known[x] = true
				st.known[st.c.Not(x)] = false
				st.learn(x)
			}
		}
	}
}

func (st *State) curPos() token.Pos {
	for i := len(st.frames) - 1; i >= 0; i-- {
		f := st.frames[i]
		if f.ip < len(f.fi.blocks[f.block.Index]) {
			if p := f.fi.blocks[f.block.Index][f.ip].in.Pos(); p.IsValid() {
				return p
			}
		}
	}
	return token.NoPos
}

func (st *State) where() string {
	var s []string
	for i := len(st.frames) - 1; i >= 0 && len(s) < 6; i-- {
		f := st.frames[i]
		pos := ""
		if f.ip < len(f.fi.blocks[f.block.Index]) {
			if p := f.fi.blocks[f.block.Index][f.ip].in.Pos(); p.IsValid() {
				pp := st.e.prog.Fset.Position(p)
				pos = fmt.Sprintf("@%s:%d", pp.Filename[strings.LastIndex(pp.Filename, "/")+1:], pp.Line)
			}
		}
		s = append(s, f.fi.name+pos)
	}
	return strings.Join(s, " < ")
}

// unwind continues a panic: runs deferred calls, pops frames.
func (st *State) unwind() (done bool) {
	for {
		if len(st.frames) == 0 {
			p := st.panics[len(st.panics)-1]
			st.finish("panic", p.msg+" at "+st.posStr(p.pos))
			return true
		}
		f := st.top()
		f.unwinding = true
		if f.recov {
			if len(f.defers) > 0 {
				d := f.defers[len(f.defers)-1]
				f.defers = f.defers[:len(f.defers)-1]
				st.callDeferred(d)
				return false
			}
			f.unwinding, f.recov = false, false
			if f.fi.fn.Recover != nil {
				f.prev, f.block, f.ip = f.block, f.fi.fn.Recover, 0
				return false
			}
			st.popFrame(st.c.zero(f.fi.fn.Signature.Results()))
			return false
		}
		p := st.panics[len(st.panics)-1]
		if p.recovered {
			st.panics = st.panics[:len(st.panics)-1]
			f.recov = true
			continue
		}
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			st.callDeferred(d)
			return false
		}
		st.frames = st.frames[:len(st.frames)-1]
	}
}

func (st *State) posStr(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	pp := st.e.prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d", pp.Filename, pp.Line)
}

func (st *State) callDeferred(d deferRec) {
	n := len(st.frames)
	st.doCall(d.fn, d.args, -1, d.call)
	if len(st.frames) > n {
		st.frames[n].deferCall = true
	}
}

func (st *State) popFrame(v Value) {
	f := st.top()
	st.frames = st.frames[:len(st.frames)-1]
	if f.onRet != nil {
		f.onRet(st, v)
		return
	}
	if f.retReg >= 0 && len(st.frames) > 0 {
		if tv, ok := v.(TupleV); ok && len(tv) == 1 {
			v = tv[0]
		}
		st.top().regs[f.retReg] = v
	}
}

func (st *State) jump(f *Frame, b *ssa.BasicBlock) {
	f.prev, f.block, f.ip = f.block, b, 0
	// evaluate phis in parallel
	ins := f.fi.blocks[b.Index]
	if len(ins) == 0 {
		return
	}
	if _, ok := ins[0].in.(*ssa.Phi); !ok {
		return
	}
	pi := -1
	for i, p := range b.Preds {
		if p == f.prev {
			pi = i
			break
		}
	}
	n := 0
	var tmp [8]Value
	vals := tmp[:0]
	for n < len(ins) {
		if _, ok := ins[n].in.(*ssa.Phi); !ok {
			break
		}
		vals = append(vals, st.get(f, ins[n].ops[pi]))
		n++
	}
	for i := 0; i < n; i++ {
		f.regs[ins[i].reg] = vals[i]
	}
	f.ip = n
}

func (st *State) step(f *Frame, ii *instrInfo) {
	c := st.c
	switch in := ii.in.(type) {
	case *ssa.Alloc:
		f.regs[ii.reg] = st.alloc(c.zero(in.Type().(*types.Pointer).Elem()))
	case *ssa.BinOp:
		f.regs[ii.reg] = st.binop(in, st.get(f, ii.ops[0]), st.get(f, ii.ops[1]))
	case *ssa.UnOp:
		f.regs[ii.reg] = st.unop(in, st.get(f, ii.ops[0]))
	case *ssa.Call:
		st.call(f, ii, &in.Call, ii.reg)
		return
	case *ssa.Defer:
		fn, args := st.callee(f, ii, &in.Call)
		f.defers = append(f.defers, deferRec{fn, args, &in.Call})
	case *ssa.RunDefers:
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			st.callDeferred(d)
			return
		}
	case *ssa.Return:
		var v Value
		switch len(ii.ops) {
		case 0:
		case 1:
			v = st.get(f, ii.ops[0])
		default:
			tv := make(TupleV, len(ii.ops))
			for i, o := range ii.ops {
				tv[i] = st.get(f, o)
			}
			v = tv
		}
		st.popFrame(v)
		return
	case *ssa.If:
		t := st.get(f, ii.ops[0]).(*Term)
		if st.decide(t) {
			st.jump(f, f.block.Succs[0])
		} else {
			st.jump(f, f.block.Succs[1])
		}
		return
	case *ssa.Jump:
		st.jump(f, f.block.Succs[0])
		return
	case *ssa.Panic:
		v := st.get(f, ii.ops[0]).(IfaceV)
		panic(&goPanic{&panicRec{val: v, msg: "panic: " + st.describe(v)}})
	case *ssa.Store:
		p := st.get(f, ii.ops[0])
		st.storePtr(p, st.get(f, ii.ops[1]))
	case *ssa.FieldAddr:
		p := st.ptr(st.get(f, ii.ops[0]))
		if p.obj == 0 {
			st.throw("invalid memory address or nil pointer dereference")
		}
		f.regs[ii.reg] = p.field(in.Field)
	case *ssa.Field:
		f.regs[ii.reg] = st.get(f, ii.ops[0]).(*StructV).f[in.Field]
	case *ssa.IndexAddr:
		f.regs[ii.reg] = st.indexAddr(in, st.get(f, ii.ops[0]), st.get(f, ii.ops[1]))
	case *ssa.Index:
		f.regs[ii.reg] = st.index(in, st.get(f, ii.ops[0]), st.get(f, ii.ops[1]))
	case *ssa.Lookup:
		f.regs[ii.reg] = st.lookup(in, st.get(f, ii.ops[0]), st.get(f, ii.ops[1]))
	case *ssa.MapUpdate:
		st.mapUpdate(st.get(f, ii.ops[0]), st.get(f, ii.ops[1]), st.get(f, ii.ops[2]))
	case *ssa.Slice:
		f.regs[ii.reg] = st.slice(f, in, ii)
	case *ssa.Convert:
		f.regs[ii.reg] = st.convert(st.get(f, ii.ops[0]), in.X.Type(), in.Type())
	case *ssa.MultiConvert:
		f.regs[ii.reg] = st.convert(st.get(f, ii.ops[0]), in.X.Type(), in.Type())
	case *ssa.ChangeType, *ssa.ChangeInterface:
		f.regs[ii.reg] = st.get(f, ii.ops[0])
	case *ssa.MakeInterface:
		f.regs[ii.reg] = IfaceV{t: in.X.Type(), v: st.get(f, ii.ops[0])}
	case *ssa.MakeClosure:
		b := make([]Value, len(ii.ops)-1)
		for i := range b {
			b[i] = st.get(f, ii.ops[i+1])
		}
		f.regs[ii.reg] = &FuncV{fn: in.Fn.(*ssa.Function), binds: b}
	case *ssa.MakeMap:
		f.regs[ii.reg] = MapV{st.alloc(&MapObj{}).obj}
	case *ssa.MakeSlice:
		f.regs[ii.reg] = st.makeSlice(in.Type(), st.get(f, ii.ops[0]).(*Term), st.get(f, ii.ops[1]).(*Term))
	case *ssa.Extract:
		f.regs[ii.reg] = st.get(f, ii.ops[0]).(TupleV)[in.Index]
	case *ssa.TypeAssert:
		f.regs[ii.reg] = st.typeAssert(in, st.get(f, ii.ops[0]).(IfaceV))
	case *ssa.SliceToArrayPointer:
		s := st.get(f, ii.ops[0]).(*SliceV)
		n := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if !st.decide(c.Ule(c.Const(64, uint64(n)), s.len)) {
			st.throw("cannot convert slice to array pointer")
		}
		if !s.off.IsConst() || s.off.val != 0 {
			panic(unsupported("slice-to-array conversion at an offset"))
		}
		f.regs[ii.reg] = s.base
	case *ssa.Range:
		x := st.get(f, ii.ops[0])
		it := &IterObj{}
		switch v := x.(type) {
		case *StrV:
			it.str, it.pos = v, c.Const(64, 0)
		case MapV:
			if v.obj != 0 {
				it.m = v.obj
				it.keys = st.obj(v.obj).(*MapObj).k
			}
		default:
			panic(unsupported("range over " + fmt.Sprintf("%T", x)))
		}
		f.regs[ii.reg] = IterV{st.alloc(it).obj}
	case *ssa.Next:
		if st.next(f, ii, in) {
			return
		}
	case *ssa.Phi:
		panic("phi executed")
	case *ssa.DebugRef:
	case *ssa.Go:
		panic(unsupported("go statement"))
	case *ssa.Select, *ssa.Send, *ssa.MakeChan:
		panic(unsupported("channel operation"))
	default:
		panic(unsupported(fmt.Sprintf("instruction %T", in)))
	}
	f.ip++
}

func (st *State) ptr(v Value) Ptr {
	switch p := v.(type) {
	case Ptr:
		return p
	case UnsafeV:
		return st.ptr(p.p)
	}
	panic(unsupported(fmt.Sprintf("pointer value %T", v)))
}

func (st *State) storePtr(pv Value, v Value) {
	p := st.ptr(pv)
	if p.obj == 0 {
		st.throw("invalid memory address or nil pointer dereference")
	}
	st.store(p, v)
}

func (st *State) idx64(v Value, t types.Type) *Term {
	x := v.(*Term)
	_, signed, _ := intWidth(t)
	if x.w < 64 {
		if signed {
			return st.c.Sext(x, 64)
		}
		return st.c.Zext(x, 64)
	}
	return x
}

func (st *State) bounds(idx, n *Term, what string) {
	if !st.decide(st.c.Ult(idx, n)) {
		st.throw(what)
	}
}

func (st *State) indexAddr(in *ssa.IndexAddr, x, iv Value) Value {
	idx := st.idx64(iv, in.Index.Type())
	switch v := x.(type) {
	case *SliceV:
		st.bounds(idx, v.len, "index out of range")
		return v.base.elem(st.simp(st.c.Add(v.off, idx)))
	case Ptr:
		if v.obj == 0 {
			st.throw("invalid memory address or nil pointer dereference")
		}
		n := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		st.bounds(idx, st.c.Const(64, uint64(n)), "index out of range")
		return v.elem(idx)
	}
	panic(unsupported(fmt.Sprintf("IndexAddr of %T", x)))
}

func (st *State) index(in *ssa.Index, x, iv Value) Value {
	idx := st.idx64(iv, in.Index.Type())
	switch v := x.(type) {
	case *StrV:
		st.bounds(idx, v.len, "index out of range")
		return st.c.Read(v.arr, st.simp(st.c.Add(v.off, idx)))
	case *SArr:
		st.bounds(idx, st.c.Const(64, uint64(in.X.Type().Underlying().(*types.Array).Len())), "index out of range")
		return st.c.Read(v, idx)
	case *ArrV:
		st.bounds(idx, st.c.Const(64, uint64(len(v.e))), "index out of range")
		return v.e[st.concretize(idx, 4096)]
	}
	panic(unsupported(fmt.Sprintf("Index of %T", x)))
}

func (st *State) lookup(in *ssa.Lookup, x, k Value) Value {
	switch v := x.(type) {
	case *StrV:
		idx := st.idx64(k, in.Index.Type())
		st.bounds(idx, v.len, "index out of range")
		return st.c.Read(v.arr, st.c.Add(v.off, idx))
	case MapV:
		mt := in.X.Type().Underlying().(*types.Map)
		val, ok := st.mapGet(v, k)
		if !ok {
			val = st.c.zero(mt.Elem())
		}
		if in.CommaOk {
			return TupleV{val, st.c.Bool(ok)}
		}
		return val
	}
	panic(unsupported(fmt.Sprintf("Lookup in %T", x)))
}

func (st *State) mapGet(m MapV, k Value) (Value, bool) {
	if m.obj == 0 {
		return nil, false
	}
	o := st.obj(m.obj).(*MapObj)
	for i := range o.k {
		if st.decide(st.equal(o.k[i], k)) {
			return o.v[i], true
		}
	}
	return nil, false
}

func (st *State) mapUpdate(mv, k, v Value) {
	m := mv.(MapV)
	if m.obj == 0 {
		st.throw("assignment to entry in nil map")
	}
	o := st.obj(m.obj).(*MapObj)
	at := -1
	for i := range o.k {
		if st.decide(st.equal(o.k[i], k)) {
			at = i
			break
		}
	}
	n := &MapObj{append([]Value(nil), o.k...), append([]Value(nil), o.v...)}
	if at >= 0 {
		n.v[at] = v
	} else {
		n.k = append(n.k, k)
		n.v = append(n.v, v)
	}
	st.setObj(m.obj, n)
}

func (st *State) next(f *Frame, ii *instrInfo, in *ssa.Next) (reexec bool) {
	c := st.c
	itv := st.get(f, ii.ops[0]).(IterV)
	it := st.obj(itv.obj).(*IterObj)
	if it.str != nil {
		if !st.decide(c.Ult(it.pos, it.str.len)) {
			f.regs[ii.reg] = TupleV{c.False, c.Const(64, 0), c.Const(32, 0)}
			return false
		}
		b := c.Read(it.str.arr, c.Add(it.str.off, it.pos))
		if st.decide(c.Ult(b, c.Const(8, 0x80))) {
			f.regs[ii.reg] = TupleV{c.True, it.pos, c.Zext(b, 32)}
			st.setObj(itv.obj, &IterObj{str: it.str, pos: c.Add(it.pos, c.Const(64, 1))})
			return false
		}
		// multi-byte: call utf8.DecodeRuneInString on the rest
		dec := st.e.fnByName("unicode/utf8.DecodeRuneInString")
		if dec == nil {
			panic(unsupported("range over non-ASCII string"))
		}
		rest := &StrV{it.str.arr, c.Add(it.str.off, it.pos), c.Sub(it.str.len, it.pos)}
		reg := ii.reg
		pos := it.pos
		str := it.str
		f.ip++
		fr := st.pushCall(dec, []Value{rest}, nil, -1)
		fr.onRet = func(st *State, v Value) {
			tv := v.(TupleV)
			st.top().regs[reg] = TupleV{st.c.True, pos, tv[0]}
			st.setObj(itv.obj, &IterObj{str: str, pos: st.c.Add(pos, tv[1].(*Term))})
		}
		return true
	}
	if it.i >= len(it.keys) {
		mt := in.Type().(*types.Tuple)
		f.regs[ii.reg] = TupleV{c.False, c.zero(mt.At(1).Type()), c.zero(mt.At(2).Type())}
		return false
	}
	k := it.keys[it.i]
	val, ok := st.mapGet(MapV{it.m}, k)
	st.setObj(itv.obj, &IterObj{keys: it.keys, m: it.m, i: it.i + 1})
	if !ok { // deleted during iteration
		return true // ip not advanced: re-execute
	}
	f.regs[ii.reg] = TupleV{c.True, k, val}
	return false
}

func (st *State) slice(f *Frame, in *ssa.Slice, ii *instrInfo) Value {
	c := st.c
	x := st.get(f, ii.ops[0])
	opn := 1
	arg := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		t := st.idx64(st.get(f, ii.ops[opn]), v.Type())
		opn++
		return t
	}
	// Operands() includes only non-nil ones in order Low, High, Max; nil ones appear as nil consts
	var lo, hi, mx *Term
	for i, v := range []ssa.Value{in.Low, in.High, in.Max} {
		if v == nil {
			// nil operands are listed too
			if len(ii.ops) == 4 {
				opn++
			}
			continue
		}
		t := arg(v)
		switch i {
		case 0:
			lo = t
		case 1:
			hi = t
		case 2:
			mx = t
		}
	}
	z := c.Const(64, 0)
	if lo == nil {
		lo = z
	}
	switch v := x.(type) {
	case *StrV:
		if hi == nil {
			hi = v.len
		}
		if !st.decide(c.Ule(hi, v.len)) || !st.decide(c.Ule(lo, hi)) {
			st.throw("slice bounds out of range")
		}
		return &StrV{v.arr, st.simp(c.Add(v.off, lo)), st.simp(c.Sub(hi, lo))}
	case *SliceV:
		if hi == nil {
			hi = v.len
		}
		if mx == nil {
			mx = v.cap
		} else if !st.decide(c.Ule(mx, v.cap)) {
			st.throw("slice bounds out of range")
		}
		if !st.decide(c.Ule(hi, mx)) || !st.decide(c.Ule(lo, hi)) {
			st.throw("slice bounds out of range")
		}
		return &SliceV{base: v.base, off: st.simp(c.Add(v.off, lo)), len: st.simp(c.Sub(hi, lo)), cap: st.simp(c.Sub(mx, lo))}
	case Ptr:
		if v.obj == 0 {
			st.throw("invalid memory address or nil pointer dereference")
		}
		n := c.Const(64, uint64(in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()))
		if hi == nil {
			hi = n
		}
		if mx == nil {
			mx = n
		} else if !st.decide(c.Ule(mx, n)) {
			st.throw("slice bounds out of range")
		}
		if !st.decide(c.Ule(hi, mx)) || !st.decide(c.Ule(lo, hi)) {
			st.throw("slice bounds out of range")
		}
		return &SliceV{base: v, off: lo, len: c.Sub(hi, lo), cap: c.Sub(mx, lo)}
	}
	panic(unsupported(fmt.Sprintf("slice of %T", x)))
}

func (st *State) makeSlice(t types.Type, n, cp *Term) Value {
	c := st.c
	elem := t.Underlying().(*types.Slice).Elem()
	n, cp = st.simp(c.Sext(n, 64)), st.simp(c.Sext(cp, 64))
	lim := c.Const(64, 1<<47)
	if !st.decide(c.Ule(n, lim)) {
		st.throw("makeslice: len out of range")
	}
	if !st.decide(c.Ule(n, cp)) || !st.decide(c.Ule(cp, lim)) {
		st.throw("makeslice: cap out of range")
	}
	var arr Value
	if w, _, ok := intWidth(elem); ok {
		k := int64(-1)
		if cp.IsConst() {
			k = int64(cp.val)
		}
		arr = c.ZeroArr(w, k)
	} else {
		k := st.concretize(cp, 256)
		arr = c.zeroArray(elem, int64(k))
	}
	return &SliceV{base: st.alloc(arr), off: c.Const(64, 0), len: n, cap: cp}
}

// ---------- decisions ----------

func (st *State) evalModel(t *Term) uint64 {
	if st.evalMem == nil {
		st.evalMem = map[*Term]uint64{}
	}
	if len(st.evalMem) > 1<<20 {
		st.evalMem = map[*Term]uint64{}
	}
	return st.c.eval(t, st.model, st.evalMem)
}

// decide resolves a branch condition, forking when both sides are feasible.
func (st *State) decide(t *Term) bool {
	if t.op == OConst {
		return t.val != 0
	}
	if v, ok := st.known[t]; ok {
		return v
	}
	if t = st.simp(t); t.op == OConst {
		return t.val != 0
	}
	if v, ok := st.byRange(t, 0); ok {
		st.known[t] = v
		st.known[st.c.Not(t)] = !v
		st.e.stats.byRange++
		return v
	}
	v := st.evalModel(t) != 0
	other := t
	if v {
		other = st.c.Not(t)
	}
	r, applies := st.fieldBranch(other)
	var m Model
	if !applies {
		r, m = st.feasible(other)
	} else if r != Unsat { // both sides are followed, without values
		st.noSample = true
		r, m = Sat, st.model
	}
	switch r {
	case Unsat:
		st.known[t] = v
		st.known[st.c.Not(t)] = !v
		return v
	case Unknown:
		st.e.inconclusive("solver returned unknown on a branch at " + st.where())
		st.addPC(t, v)
		return v
	}
	panic(&forkReq{t, v, m})
}

// feasible checks pc ∧ t; a Sat model extends the state's current model.
func (st *State) feasible(t *Term) (SatResult, Model) {
	if t.op == OConst {
		if t.val != 0 {
			return Sat, st.model
		}
		return Unsat, nil
	}
	sl := st.sliceFor(t)
	r, m := st.e.check(append(sl, t))
	if st.e.debug {
		qhist(st.where()+" "+r.String(), t)
	}
	if r != Sat {
		return r, nil
	}
	nm := make(Model, len(st.model)+len(m))
	for k, v := range st.model {
		nm[k] = v
	}
	for k, v := range m {
		nm[k] = v
	}
	return Sat, nm
}

// sliceFor returns the path constraints that (transitively) share variables with t.
func (st *State) sliceFor(t *Term) []*Term {
	vs := map[int32]bool{}
	for _, v := range st.c.Vars(t) {
		vs[v] = true
	}
	used := make([]bool, len(st.pc))
	var out []*Term
	pcs := st.pc
	if len(st.pins) > 0 {
		pcs = make([]*Term, len(st.pc))
		for i, p := range st.pc {
			pcs[i] = st.simp(p)
		}
	}
	for changed := true; changed; {
		changed = false
		for i, p := range pcs {
			if used[i] {
				continue
			}
			pv := st.c.Vars(p)
			hit := false
			for _, v := range pv {
				if vs[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				out = append(out, p)
				for _, v := range pv {
					vs[v] = true
				}
			}
		}
	}
	return out
}

// concretize forces a term to a concrete value by enumeration.
func (st *State) concretize(t *Term, limit uint64) uint64 {
	for i := 0; ; i++ {
		if t.IsConst() {
			return t.val
		}
		v := st.evalModel(t)
		if v >= limit {
			// prefer a value inside the limit, if any
			small := st.c.Ult(t, st.c.Const(t.w, limit))
			r, _ := st.feasible(small)
			if r != Sat {
				panic(unsupported(fmt.Sprintf("value too large to enumerate (%d)", v)))
			}
			if st.decide(small) {
				continue
			}
			panic(unsupported("value too large to enumerate"))
		}
		if st.decide(st.c.Eq(t, st.c.Const(t.w, v))) {
			return v
		}
	}
}

// assume adds a constraint; it ends the path when infeasible.
func (st *State) assume(t *Term) {
	if t.op == OConst {
		if t.val == 0 {
			panic(&pathEnd{"assume", ""})
		}
		return
	}
	if v, ok := st.known[t]; ok {
		if !v {
			panic(&pathEnd{"assume", ""})
		}
		return
	}
	if st.evalModel(t) == 0 {
		r, m := st.feasible(t)
		if r == Unsat {
			panic(&pathEnd{"assume", ""})
		}
		if r == Unknown {
			st.e.inconclusive("solver returned unknown on an assumption")
			panic(&pathEnd{"assume", ""})
		}
		st.model = m
		st.evalMem = nil
	}
	st.addPC(t, true)
}

// ---------- operators ----------

func (st *State) binop(in *ssa.BinOp, x, y Value) Value {
	c := st.c
	switch in.Op {
	case token.EQL:
		return st.equal(x, y)
	case token.NEQ:
		return c.Not(st.equal(x, y))
	}
	switch a := x.(type) {
	case *Term:
		b, ok := y.(*Term)
		if !ok {
			panic(unsupported(fmt.Sprintf("binop %T %T", x, y)))
		}
		return st.intop(in.Op, a, b, in.X.Type(), in.Y.Type())
	case *StrV:
		b := y.(*StrV)
		if in.Op == token.ADD {
			return st.concat(a, b)
		}
		return st.strLess(in.Op, a, b)
	case FloatV:
		b := y.(FloatV)
		switch in.Op {
		case token.ADD:
			return a + b
		case token.SUB:
			return a - b
		case token.MUL:
			return a * b
		case token.QUO:
			return a / b
		case token.LSS:
			return c.Bool(a < b)
		case token.LEQ:
			return c.Bool(a <= b)
		case token.GTR:
			return c.Bool(a > b)
		case token.GEQ:
			return c.Bool(a >= b)
		}
	}
	panic(unsupported(fmt.Sprintf("binop %s on %T", in.Op, x)))
}

func (st *State) intop(op token.Token, a, b *Term, ta, tb types.Type) Value {
	c := st.c
	if a.w == 0 { // bools
		switch op {
		case token.AND:
			return c.BAnd(a, b)
		case token.OR:
			return c.BOr(a, b)
		}
	}
	_, signed, _ := intWidth(ta)
	switch op {
	case token.ADD:
		return c.Add(a, b)
	case token.SUB:
		return c.Sub(a, b)
	case token.MUL:
		return c.Mul(a, b)
	case token.QUO, token.REM:
		if !st.decide(c.Not(c.Eq(b, c.Const(b.w, 0)))) {
			st.throw("integer divide by zero")
		}
		switch {
		case op == token.QUO && signed:
			return c.SDiv(a, b)
		case op == token.QUO:
			return c.UDiv(a, b)
		case signed:
			return c.SRem(a, b)
		}
		return c.URem(a, b)
	case token.AND:
		return c.And(a, b)
	case token.OR:
		return c.Or(a, b)
	case token.XOR:
		return c.Xor(a, b)
	case token.AND_NOT:
		return c.And(a, c.NotBV(b))
	case token.SHL, token.SHR:
		_, sb, _ := intWidth(tb)
		if sb && !b.IsConst() {
			if !st.decide(c.Sle(c.Const(b.w, 0), b)) {
				st.throw("negative shift amount")
			}
		} else if sb && b.Int() < 0 {
			st.throw("negative shift amount")
		}
		// bring the count to a's width, saturating
		var cnt *Term
		if b.IsConst() {
			cnt = c.Const(a.w, min(b.val, uint64(a.w)))
		} else if b.w > a.w {
			big := c.Ule(c.Const(b.w, uint64(a.w)), b)
			cnt = c.Ite(big, c.Const(a.w, uint64(a.w)), c.Extract(b, a.w, 0))
		} else {
			cnt = c.Zext(b, a.w)
		}
		if op == token.SHL {
			return c.Shl(a, cnt)
		}
		if signed {
			if cnt.IsConst() && cnt.val >= uint64(a.w) {
				cnt = c.Const(a.w, uint64(a.w)-1)
			}
			return c.Ashr(a, cnt)
		}
		return c.Lshr(a, cnt)
	case token.LSS:
		if signed {
			return c.Slt(a, b)
		}
		return c.Ult(a, b)
	case token.LEQ:
		if signed {
			return c.Sle(a, b)
		}
		return c.Ule(a, b)
	case token.GTR:
		if signed {
			return c.Slt(b, a)
		}
		return c.Ult(b, a)
	case token.GEQ:
		if signed {
			return c.Sle(b, a)
		}
		return c.Ule(b, a)
	}
	panic(unsupported("integer op " + op.String()))
}

func (st *State) concat(a, b *StrV) *StrV {
	c := st.c
	if a.len.IsConst() && a.len.val == 0 {
		return b
	}
	if b.len.IsConst() && b.len.val == 0 {
		return a
	}
	if x, ok := c.concreteStr(a); ok {
		if y, ok := c.concreteStr(b); ok {
			return c.str(x + y)
		}
	}
	n := c.Add(a.len, b.len)
	k := int64(-1)
	if n.IsConst() {
		k = int64(n.val)
	}
	z := c.Const(64, 0)
	arr := c.ZeroArr(8, k)
	arr = c.Blit(arr, z, a.arr, a.off, a.len)
	arr = c.Blit(arr, a.len, b.arr, b.off, b.len)
	return &StrV{arr, z, n}
}

func (st *State) strEq(a, b *StrV) *Term {
	c := st.c
	le := c.Eq(a.len, b.len)
	if le == c.False {
		return le
	}
	n := a.len
	if b.len.IsConst() {
		n = b.len
	}
	if n.IsConst() {
		// under le, a symbolic length is known too
		sub := map[*Term]uint64{}
		solveEq(a.len, n.val, sub)
		solveEq(b.len, n.val, sub)
		return c.BAnd(le, c.eqRange(a.arr, a.off, b.arr, b.off, n, sub))
	}
	return c.BAnd(le, c.EqRange(a.arr, a.off, b.arr, b.off, n))
}

// strLess compares lexicographically, byte by byte with concrete lengths.
func (st *State) strLess(op token.Token, a, b *StrV) Value {
	c := st.c
	switch op {
	case token.GTR:
		return st.strLess(token.LSS, b, a)
	case token.GEQ:
		return st.strLess(token.LEQ, b, a)
	}
	la, lb := st.concretize(a.len, 256), st.concretize(b.len, 256)
	// result when one is a prefix of the other
	r := c.Bool(la < lb)
	if op == token.LEQ {
		r = c.Bool(la <= lb)
	}
	for i := int(min(la, lb)) - 1; i >= 0; i-- {
		it := c.Const(64, uint64(i))
		x, y := c.Read(a.arr, c.Add(a.off, it)), c.Read(b.arr, c.Add(b.off, it))
		r = c.Ite(c.Eq(x, y), r, c.Ult(x, y))
	}
	return r
}

// equal is Go's == as a term.
func (st *State) equal(x, y Value) *Term {
	c := st.c
	switch a := x.(type) {
	case *Term:
		return c.Eq(a, y.(*Term))
	case *StrV:
		return st.strEq(a, y.(*StrV))
	case Ptr:
		b := st.ptr(y)
		if a.obj != b.obj || len(a.path) != len(b.path) {
			return c.False
		}
		r := c.True
		for i := range a.path {
			p, q := a.path[i], b.path[i]
			if (p.idx == nil) != (q.idx == nil) {
				return c.False
			}
			if p.idx == nil {
				if p.f != q.f {
					return c.False
				}
			} else {
				r = c.BAnd(r, c.Eq(p.idx, q.idx))
			}
		}
		return r
	case IfaceV:
		b, ok := y.(IfaceV)
		if !ok {
			panic(unsupported("interface comparison"))
		}
		if a.t == nil || b.t == nil {
			return c.Bool(a.t == nil && b.t == nil)
		}
		if !types.Identical(a.t, b.t) {
			return c.False
		}
		switch a.v.(type) {
		case *SliceV, MapV, *FuncV:
			st.throw("comparing uncomparable type")
		}
		return st.equal(a.v, b.v)
	case *SliceV: // only against nil
		b := y.(*SliceV)
		return c.Bool(a.base.obj == 0 && b.base.obj == 0)
	case MapV:
		return c.Bool(a.obj == y.(MapV).obj)
	case *FuncV:
		b := y.(*FuncV)
		return c.Bool((a == nil) == (b == nil))
	case *StructV:
		b := y.(*StructV)
		r := c.True
		for i := range a.f {
			r = c.BAnd(r, st.equal(a.f[i], b.f[i]))
		}
		return r
	case *SArr:
		b := y.(*SArr)
		if a.n < 0 || a.n != b.n {
			panic(unsupported("array comparison"))
		}
		z := c.Const(64, 0)
		return c.EqRange(a, z, b, z, c.Const(64, uint64(a.n)))
	case *ArrV:
		b := y.(*ArrV)
		r := c.True
		for i := range a.e {
			r = c.BAnd(r, st.equal(a.e[i], b.e[i]))
		}
		return r
	case FloatV:
		return c.Bool(a == y.(FloatV))
	case nil:
		return c.Bool(y == nil)
	}
	panic(unsupported(fmt.Sprintf("comparison of %T", x)))
}

func (st *State) unop(in *ssa.UnOp, x Value) Value {
	c := st.c
	switch in.Op {
	case token.MUL:
		p := st.ptr(x)
		if p.obj == 0 {
			st.throw("invalid memory address or nil pointer dereference")
		}
		return st.load(p)
	case token.NOT:
		return c.Not(x.(*Term))
	case token.SUB:
		if f, ok := x.(FloatV); ok {
			return -f
		}
		return c.Neg(x.(*Term))
	case token.XOR:
		return c.NotBV(x.(*Term))
	}
	panic(unsupported("unop " + in.Op.String()))
}

func (st *State) convert(x Value, from, to types.Type) Value {
	c := st.c
	fu, tu := from.Underlying(), to.Underlying()
	if tp, ok := fu.(*types.TypeParam); ok {
		_ = tp
		panic(unsupported("conversion of type parameter"))
	}
	if w, _, ok := intWidth(to); ok {
		switch v := x.(type) {
		case *Term:
			_, fs, _ := intWidth(from)
			if v.w == w {
				return v
			}
			if v.w > w {
				return c.Extract(v, w, 0)
			}
			if fs {
				return c.Sext(v, w)
			}
			return c.Zext(v, w)
		case FloatV:
			return c.Const(w, uint64(int64(v)))
		case UnsafeV, Ptr:
			panic(unsupported("pointer to integer"))
		}
	}
	switch {
	case isString(to):
		switch v := x.(type) {
		case *StrV:
			return v
		case *SliceV:
			el := fu.(*types.Slice).Elem()
			if w, _, ok := intWidth(el); ok && w == 8 {
				a, off := c.normalize(st.sliceArr(v), v.off, v.len)
				return &StrV{a, off, v.len}
			}
			panic(unsupported("string([]rune)"))
		case *Term:
			if v.IsConst() {
				return c.str(string(rune(v.Int())))
			}
			if st.decide(c.Ult(v, c.Const(v.w, 0x80))) {
				return &StrV{c.Write(c.ZeroArr(8, 1), c.Const(64, 0), c.Extract(c.Zext(v, max(v.w, 8)), 8, 0)), c.Const(64, 0), c.Const(64, 1)}
			}
			panic(unsupported("string(rune) of a symbolic non-ASCII rune"))
		}
	case isFloat(to):
		switch v := x.(type) {
		case FloatV:
			return v
		case *Term:
			if v.IsConst() {
				_, s, _ := intWidth(from)
				if s {
					return FloatV(v.Int())
				}
				return FloatV(v.val)
			}
			panic(unsupported("symbolic int to float"))
		}
	}
	if sl, ok := tu.(*types.Slice); ok {
		if s, ok := x.(*StrV); ok {
			if w, _, ok := intWidth(sl.Elem()); ok && w == 8 {
				k := int64(-1)
				if s.len.IsConst() {
					k = int64(s.len.val)
				}
				z := c.Const(64, 0)
				return st.newBytes(c.Blit(c.ZeroArr(8, k), z, s.arr, s.off, s.len), s.len)
			}
			if str, ok := c.concreteStr(s); ok {
				rs := []rune(str)
				a := c.ZeroArr(32, int64(len(rs)))
				for i, r := range rs {
					a = c.Write(a, c.Const(64, uint64(i)), c.Const(32, uint64(r)))
				}
				return st.newBytes(a, c.Const(64, uint64(len(rs))))
			}
			panic(unsupported("[]rune of a symbolic string"))
		}
		return x
	}
	switch v := x.(type) {
	case Ptr:
		if b, ok := tu.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
			return UnsafeV{v}
		}
		return v
	case UnsafeV:
		if b, ok := tu.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
			return v
		}
		return v.p
	}
	return x
}

func (st *State) typeAssert(in *ssa.TypeAssert, x IfaceV) Value {
	ok := false
	if x.t != nil {
		if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
			ok = types.Implements(x.t, it)
		} else {
			ok = types.Identical(x.t, in.AssertedType)
		}
	}
	var v Value
	if ok {
		if _, isI := in.AssertedType.Underlying().(*types.Interface); isI {
			v = x
		} else {
			v = x.v
		}
	} else {
		if !in.CommaOk {
			st.throw("interface conversion")
		}
		v = st.c.zero(in.AssertedType)
	}
	if in.CommaOk {
		return TupleV{v, st.c.Bool(ok)}
	}
	return v
}

// ---------- calls ----------

// callee evaluates the function value and arguments of a call.
func (st *State) callee(f *Frame, ii *instrInfo, call *ssa.CallCommon) (Value, []Value) {
	// Operands: [Value] then args (for invoke: Value is the receiver)
	ops := ii.ops
	fv := st.get(f, ops[0])
	args := make([]Value, 0, len(ops))
	if call.IsInvoke() {
		iv := fv.(IfaceV)
		if iv.t == nil {
			st.throw("invalid memory address or nil pointer dereference")
		}
		m := st.e.lookupMethod(iv.t, call.Method)
		if m == nil {
			panic(unsupported(fmt.Sprintf("method %s of %s", call.Method.Name(), iv.t)))
		}
		args = append(args, iv.v)
		fv = &FuncV{fn: m}
	}
	for _, o := range ops[1 : 1+len(call.Args)] {
		args = append(args, st.get(f, o))
	}
	return fv, args
}

func (e *Explorer) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	e.progMu.Lock()
	defer e.progMu.Unlock()
	return e.prog.LookupMethod(t, m.Pkg(), m.Name())
}

func (st *State) call(f *Frame, ii *instrInfo, call *ssa.CallCommon, reg int) {
	fv, args := st.callee(f, ii, call)
	// doCall may fork (re-execute): it must not mutate before deciding.
	// ip is advanced first because a pushed frame resumes after the call.
	f.ip++
	ok := false
	defer func() {
		if !ok {
			f.ip--
		}
	}()
	st.doCall(fv, args, reg, call)
	ok = true
}

func (st *State) doCall(fv Value, args []Value, reg int, call *ssa.CallCommon) {
	fn, _ := fv.(*FuncV)
	if fn == nil {
		st.throw("invalid memory address or nil pointer dereference")
	}
	if fn.builtin != nil {
		v := st.builtin(fn.builtin, args, call)
		st.setRet(reg, v)
		return
	}
	st.invoke(fn.fn, args, fn.binds, reg)
}

func (st *State) invoke(target *ssa.Function, args, binds []Value, reg int) {
	e := st.e
	name := e.fnName(target)
	if target.Synthetic != "" && target.Name() == "init" && target.Pkg != nil && target.Parent() == nil && len(target.Params) == 0 && strings.HasSuffix(name, ".init") {
		return // package initialisers are run lazily
	}
	if h, ok := intrinsics[name]; ok {
		h(st, args, reg)
		return
	}
	if len(e.preHooks) > 0 {
		if h, ok := e.preHooks[name]; ok {
			if h(st, target, args, reg) {
				return
			}
		}
	}
	if e.redirectOff[name] {
		// fallthrough to the real body
	} else if r, ok := e.redirects[name]; ok {
		st.pushCall(r, args, nil, reg)
		return
	}
	st.pushCall(target, args, binds, reg)
}

func (e *Explorer) fnName(fn *ssa.Function) string {
	if n, ok := e.names[fn]; ok {
		return n
	}
	n := fn.String()
	if o := fn.Origin(); o != nil && o != fn {
		n = o.String()
	}
	e.names[fn] = n
	return n
}

func (st *State) builtin(b *ssa.Builtin, args []Value, call *ssa.CallCommon) Value {
	c := st.c
	switch b.Name() {
	case "len":
		switch v := args[0].(type) {
		case *SliceV:
			return v.len
		case *StrV:
			return v.len
		case MapV:
			if v.obj == 0 {
				return c.Const(64, 0)
			}
			return c.Const(64, uint64(len(st.obj(v.obj).(*MapObj).k)))
		case *SArr:
			return c.Const(64, uint64(v.n))
		case *ArrV:
			return c.Const(64, uint64(len(v.e)))
		}
	case "cap":
		if v, ok := args[0].(*SliceV); ok {
			return v.cap
		}
	case "copy":
		return st.copySlice(args[0].(*SliceV), args[1])
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		return st.appendSlice(args[0].(*SliceV), args[1], call)
	case "min", "max":
		r := args[0].(*Term)
		_, s, _ := intWidth(call.Args[0].Type())
		for _, a := range args[1:] {
			t := a.(*Term)
			var lt *Term
			if s {
				lt = c.Slt(t, r)
			} else {
				lt = c.Ult(t, r)
			}
			if b.Name() == "max" {
				if s {
					lt = c.Slt(r, t)
				} else {
					lt = c.Ult(r, t)
				}
			}
			r = c.Ite(lt, t, r)
		}
		return r
	case "recover":
		// valid only in a frame running as a deferred call of a panicking frame
		n := len(st.panics)
		if n == 0 || st.panics[n-1].recovered || !st.top().deferCall {
			return nilIface
		}
		st.panics[n-1].recovered = true
		return st.panics[n-1].val
	case "print", "println":
		return nil
	case "delete":
		m := args[0].(MapV)
		if m.obj == 0 {
			return nil
		}
		o := st.obj(m.obj).(*MapObj)
		for i := range o.k {
			if st.decide(st.equal(o.k[i], args[1])) {
				n := &MapObj{append(append([]Value(nil), o.k[:i]...), o.k[i+1:]...), append(append([]Value(nil), o.v[:i]...), o.v[i+1:]...)}
				st.setObj(m.obj, n)
				return nil
			}
		}
		return nil
	case "clear":
		switch v := args[0].(type) {
		case MapV:
			if v.obj != 0 {
				st.setObj(v.obj, &MapObj{})
			}
			return nil
		case *SliceV:
			if v.base.obj == 0 {
				return nil
			}
			if a, ok := st.load(v.base).(*SArr); ok {
				st.store(v.base, c.Blit(a, v.off, c.ZeroArr(a.ew, -1), c.Const(64, 0), v.len))
				return nil
			}
			panic(unsupported("clear of composite slice"))
		}
	case "SliceData":
		s := args[0].(*SliceV)
		if s.base.obj == 0 {
			return Ptr{}
		}
		return s.base.elem(s.off)
	case "StringData":
		s := args[0].(*StrV)
		return st.alloc(s.arr).elem(s.off)
	case "String": // unsafe.String(ptr, len)
		p := st.ptr(args[0])
		n := st.idx64(args[1], call.Args[1].Type())
		if p.obj == 0 {
			return c.str("")
		}
		last := p.path[len(p.path)-1]
		arr := st.load(Ptr{p.obj, p.path[:len(p.path)-1]}).(*SArr)
		return &StrV{arr, last.idx, n}
	case "Slice": // unsafe.Slice(ptr, len)
		p := st.ptr(args[0])
		n := st.idx64(args[1], call.Args[1].Type())
		z := c.Const(64, 0)
		if p.obj == 0 {
			return &SliceV{off: z, len: z, cap: z}
		}
		last := p.path[len(p.path)-1]
		return &SliceV{base: Ptr{p.obj, p.path[:len(p.path)-1]}, off: last.idx, len: n, cap: n}
	case "ssa:wrapnilchk":
		p := st.ptr(args[0])
		if p.obj == 0 {
			st.throw("value method called using nil pointer")
		}
		return args[0]
	case "close":
		panic(unsupported("close"))
	}
	panic(unsupported("builtin " + b.Name()))
}

func (st *State) copySlice(d *SliceV, src Value) Value {
	c := st.c
	var sa *SArr
	var soff, slen *Term
	switch s := src.(type) {
	case *StrV:
		sa, soff, slen = s.arr, s.off, s.len
	case *SliceV:
		soff, slen = s.off, s.len
		if s.base.obj != 0 {
			v := st.load(s.base)
			if av, ok := v.(*ArrV); ok {
				n := min(st.concretize(d.len, 4096), st.concretize(slen, 4096))
				do, so := st.concretize(d.off, 4096), st.concretize(soff, 4096)
				if n == 0 {
					return c.Const(64, 0)
				}
				dv := st.load(d.base).(*ArrV)
				e := append([]Value(nil), dv.e...)
				copy(e[do:do+n], av.e[so:so+n])
				st.store(d.base, &ArrV{e})
				return c.Const(64, n)
			}
			sa = v.(*SArr)
		}
	}
	n := c.Ite(c.Ule(slen, d.len), slen, d.len)
	if !n.IsConst() {
		// resolve the min when the path already knows it
		if v, ok := st.known[c.Ule(slen, d.len)]; ok {
			if v {
				n = slen
			} else {
				n = d.len
			}
		} else if st.decide(c.Ule(slen, d.len)) {
			n = slen
		} else {
			n = d.len
		}
	}
	if n.IsConst() && n.val == 0 || sa == nil || d.base.obj == 0 {
		return c.Const(64, 0)
	}
	da := st.load(d.base).(*SArr)
	st.store(d.base, c.Blit(da, d.off, sa, soff, n))
	return n
}

func (st *State) appendSlice(s *SliceV, add Value, call *ssa.CallCommon) Value {
	c := st.c
	var alen *Term
	switch a := add.(type) {
	case *SliceV:
		alen = a.len
	case *StrV:
		alen = a.len
	}
	if alen.IsConst() && alen.val == 0 {
		return s
	}
	n := c.Add(s.len, alen)
	elem := call.Args[0].Type().Underlying().(*types.Slice).Elem()
	fits := st.decide(c.Ule(n, s.cap))
	var out *SliceV
	w, _, scalar := intWidth(elem)
	if !scalar {
		// composite elements: concrete lengths
		ol := st.concretize(s.len, 4096)
		al := st.concretize(alen, 4096)
		a := add.(*SliceV)
		so := st.concretize(a.off, 4096)
		src := st.load(a.base).(*ArrV)
		if fits {
			off := st.concretize(s.off, 4096)
			dv := st.load(s.base).(*ArrV)
			e := append([]Value(nil), dv.e...)
			copy(e[off+ol:], src.e[so:so+al])
			st.store(s.base, &ArrV{e})
			return &SliceV{base: s.base, off: s.off, len: n, cap: s.cap}
		}
		nc := growCap(st.concretize(s.cap, 4096), ol+al, 8)
		e := make([]Value, nc)
		z := c.zero(elem)
		for i := range e {
			e[i] = z
		}
		if ol > 0 {
			off := st.concretize(s.off, 4096)
			copy(e, st.load(s.base).(*ArrV).e[off:off+ol])
		}
		copy(e[ol:], src.e[so:so+al])
		return &SliceV{base: st.alloc(&ArrV{e}), off: c.Const(64, 0), len: n, cap: c.Const(64, nc)}
	}
	var sa *SArr
	var soff *Term
	switch a := add.(type) {
	case *SliceV:
		sa, soff = st.sliceArr(a), a.off
	case *StrV:
		sa, soff = a.arr, a.off
	}
	if fits {
		da := st.sliceArr(s)
		st.store(s.base, c.Blit(da, c.Add(s.off, s.len), sa, soff, alen))
		return &SliceV{base: s.base, off: s.off, len: n, cap: s.cap}
	}
	cp := n
	k := int64(-1)
	if n.IsConst() && s.cap.IsConst() {
		cp = c.Const(64, growCap(s.cap.val, n.val, uint64(w/8)))
		k = int64(cp.val)
	}
	arr := c.ZeroArr(w, k)
	if s.base.obj != 0 {
		arr = c.Blit(arr, c.Const(64, 0), st.sliceArr(s), s.off, s.len)
	}
	arr = c.Blit(arr, s.len, sa, soff, alen)
	out = &SliceV{base: st.alloc(arr), off: c.Const(64, 0), len: n, cap: cp}
	return out
}

var sizeClasses = []uint64{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

// growCap mirrors runtime.growslice (capacities are not semantically
// guaranteed; mirroring keeps replays in step).
func growCap(old, need, es uint64) uint64 {
	nc := old
	if need > 2*old {
		nc = need
	} else if old < 256 {
		nc = 2 * old
	} else {
		for nc < need {
			nc += (nc + 3*256) / 4
		}
	}
	b := nc * es
	for _, s := range sizeClasses {
		if b <= s {
			return s / es
		}
	}
	const page = 8192
	b = (b + page - 1) / page * page
	return b / es
}

func (st *State) describe(v Value) string {
	c := st.c
	switch x := v.(type) {
	case IfaceV:
		if x.t == nil {
			return "nil"
		}
		return st.describe(x.v) + " (" + x.t.String() + ")"
	case *StrV:
		if s, ok := c.concreteStr(x); ok {
			return s
		}
		return "<symbolic string>"
	case *Term:
		return x.String()
	case Ptr:
		if x.obj == 0 {
			return "nil"
		}
		if sv, ok := st.load(x).(*StructV); ok && len(sv.f) > 0 {
			return "&{" + st.describe(sv.f[0]) + "}"
		}
		return "&"
	}
	return fmt.Sprintf("%T", v)
}

var _ = bits.Len

var qh = map[string]int{}
var qmu sync.Mutex

func qhist(k string, t *Term) {
	qmu.Lock()
	defer qmu.Unlock()
	qh[k]++
	if n := qh[k]; n == 1 || n == 10 || n == 100 || n == 1000 {
		x := t.str(0 - 12)
		if len(x) > 1500 {
			x = x[:1500]
		}
		fmt.Fprintln(os.Stderr, "Q", n, k, x)
	}
}
