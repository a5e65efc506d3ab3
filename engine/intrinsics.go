package main

import (
	"fmt"
	"go/types"
	"math/bits"
	"strings"
)

const vrtPath = "github.com/kisom/psignify/internal/vrt"
const vmodelPath = "github.com/kisom/psignify/internal/vmodel"

type intrinsic func(st *State, args []Value, reg int)

var intrinsics map[string]intrinsic

var extraIntrinsics = map[string]intrinsic{} // filled by initialisers of earlier files

func (st *State) strArg(v Value) string {
	s, ok := st.c.concreteStr(v.(*StrV))
	if !ok {
		panic(unsupported("symbolic label"))
	}
	return s
}

func (st *State) key(name string) string {
	n := st.names[name]
	st.names[name]++
	return fmt.Sprintf("%s#%d", name, n)
}

func (st *State) intInput(name string, w uint8) *Term {
	t := st.c.Var(name, w)
	st.inputs = append(st.inputs, inputRec{name: name, kind: "int", t: t, w: w})
	return t
}

// boundedVar makes a 64-bit term ranging over [lo,hi].
func (st *State) boundedVar(name string, lo, hi int64) (*Term, *Term) {
	c := st.c
	if lo == hi {
		return c.I64(lo), c.True
	}
	span := uint64(hi - lo)
	w := uint8(bits.Len64(span))
	v := c.Var(name, w)
	c.vars[v.val].pin = true
	t := c.Add(c.Zext(v, 64), c.I64(lo))
	cond := c.Ule(v, c.Const(w, span))
	return t, cond
}

func (st *State) newSym(name string, ew uint8) *SymBase {
	sb := &SymBase{name: name, ew: ew, konst: map[uint64]*Term{}, memo: map[*Term]*Term{}}
	st.syms = append(st.syms, sb)
	return sb
}

func (st *State) sliceStr(v Value) *StrV {
	s := v.(*SliceV)
	a, off := st.c.normalize(st.sliceArr(s), s.off, s.len)
	return &StrV{a, off, s.len}
}

// concreteBytes extracts a fully concrete byte slice.
func (st *State) concreteBytes(v Value) ([]byte, bool) {
	s := st.sliceStr(v)
	x, ok := st.c.concreteStr(s)
	return []byte(x), ok
}

func (st *State) bytesValue(b []byte) *SliceV {
	return st.newBytes(st.c.StrArr(string(b)), st.c.Const(64, uint64(len(b))))
}

func (st *State) assertion(cond *Term, label string) {
	e := st.e
	e.stats.asserts++
	cond = st.simp(cond)
	if cond == st.c.True {
		e.stats.trivial++
		return
	}
	if v, ok := st.known[cond]; ok && v {
		e.stats.trivial++
		return
	}
	if st.evalModel(cond) == 0 {
		st.candidate(label, "assertion fails", st.model)
	} else {
		e.stats.assertQ++
		r, m := st.feasible(st.c.Not(cond))
		switch r {
		case Unknown:
			e.inconclusive("solver returned unknown on assertion " + label)
			return
		case Unsat:
			st.known[cond] = true
			st.known[st.c.Not(cond)] = false
			return
		}
		st.candidate(label, "assertion fails", m)
	}
	// continue on the part of the path where the assertion holds
	st.assume(cond)
}

func init() {
	m := map[string]intrinsic{}
	V := func(n string, f intrinsic) { m[vrtPath+"."+n] = f }
	V("Symbolic", func(st *State, a []Value, reg int) { st.setRet(reg, st.c.True) })
	V("Case", func(st *State, a []Value, reg int) { st.setRet(reg, st.c.I64(int64(st.e.caseNo))) })
	V("Thorough", func(st *State, a []Value, reg int) { st.setRet(reg, st.c.Bool(st.e.opts["thorough"] != 0)) })
	V("Register", func(st *State, a []Value, reg int) {})
	V("OnReset", func(st *State, a []Value, reg int) {})
	V("Int", func(st *State, a []Value, reg int) {
		lo, hi := a[1].(*Term), a[2].(*Term)
		if !lo.IsConst() || !hi.IsConst() {
			panic(unsupported("vrt.Int with symbolic bounds"))
		}
		k := st.key(st.strArg(a[0]))
		t, cond := st.boundedVar(k, lo.Int(), hi.Int())
		st.inputs = append(st.inputs, inputRec{name: k, kind: "int", t: t, w: 64})
		st.assume(cond)
		st.setRet(reg, t)
	})
	for n, w := range map[string]uint8{"Byte": 8, "Uint32": 32, "Uint64": 64, "Int32": 32, "Int64": 64} {
		w := w
		V(n, func(st *State, a []Value, reg int) { st.setRet(reg, st.intInput(st.key(st.strArg(a[0])), w)) })
	}
	V("Bool", func(st *State, a []Value, reg int) {
		t := st.intInput(st.key(st.strArg(a[0])), 1)
		st.setRet(reg, st.c.Eq(t, st.c.Const(1, 1)))
	})
	V("Choose", func(st *State, a []Value, reg int) {
		n := a[1].(*Term)
		if !n.IsConst() {
			panic(unsupported("Choose of symbolic bound"))
		}
		name := st.strArg(a[0])
		k := fmt.Sprintf("%s#%d", name, st.names[name])
		// the variable is created once and survives the re-execution after a fork
		ck := "choose:" + k
		var t *Term
		if r := st.records[ck]; r != nil {
			t = r[0].(*Term)
		} else {
			var cond *Term
			t, cond = st.boundedVar(k, 0, n.Int()-1)
			st.records[ck] = []Value{t}
			st.assume(cond)
		}
		v := st.concretize(t, 1<<32)
		st.names[name]++
		st.inputs = append(st.inputs, inputRec{name: k, kind: "int", t: st.c.Const(64, v), w: 64})
		st.setRet(reg, st.c.Const(64, v))
	})
	V("Bytes", func(st *State, a []Value, reg int) {
		lo, hi := a[1].(*Term), a[2].(*Term)
		if !lo.IsConst() || !hi.IsConst() {
			panic(unsupported("vrt.Bytes with symbolic bounds"))
		}
		k := st.key(st.strArg(a[0]))
		n, cond := st.boundedVar("len:"+k, lo.Int(), hi.Int())
		sb := st.newSym(k, 8)
		st.inputs = append(st.inputs, inputRec{name: k, kind: "bytes", t: n, sb: sb})
		st.assume(cond)
		arr := SymArr(sb, hi.Int())
		st.setRet(reg, &SliceV{base: st.alloc(arr), off: st.c.Const(64, 0), len: n, cap: n})
	})
	V("Fresh", func(st *State, a []Value, reg int) {
		n := a[1].(*Term)
		k := int64(-1)
		if n.IsConst() {
			k = int64(n.val)
		}
		sb := st.newSym(st.key("fresh:"+st.strArg(a[0])), 8)
		st.setRet(reg, &SliceV{base: st.alloc(SymArr(sb, k)), off: st.c.Const(64, 0), len: n, cap: n})
	})
	V("Assume", func(st *State, a []Value, reg int) { st.assume(a[0].(*Term)) })
	V("Assert", func(st *State, a []Value, reg int) { st.assertion(a[0].(*Term), st.strArg(a[1])) })
	V("Reach", func(st *State, a []Value, reg int) { st.reached[st.strArg(a[0])] = true })
	V("guardInit", func(st *State, a []Value, reg int) { st.guardInit() })
	V("guardStart", func(st *State, a []Value, reg int) { st.guardStart(st.strArg(a[0]), a[1:]) })
	V("Unguard", func(st *State, a []Value, reg int) {
		if st.guard != nil {
			st.e.stats.asserts++
			if !st.guard.hit {
				st.e.stats.trivial++
			}
		}
		st.guard = nil
	})
	V("Stop", func(st *State, a []Value, reg int) { panic(&pathEnd{"done", ""}) })
	V("Cut", func(st *State, a []Value, reg int) { panic(unsupported("cut: " + st.strArg(a[0]))) })
	V("Long", func(st *State, a []Value, reg int) { st.long = true })
	V("NoSample", func(st *State, a []Value, reg int) { st.noSample = true })
	V("Observe", func(st *State, a []Value, reg int) {
		st.obs = append(st.obs, Observation{label: st.strArg(a[0]), t: a[1].(*Term)})
	})
	V("ObserveBool", func(st *State, a []Value, reg int) {
		c := st.c
		st.obs = append(st.obs, Observation{label: st.strArg(a[0]), t: c.Ite(a[1].(*Term), c.I64(1), c.I64(0))})
	})
	V("ObserveBytes", func(st *State, a []Value, reg int) {
		st.obs = append(st.obs, Observation{label: st.strArg(a[0]), s: st.sliceStr(a[1])})
	})
	V("And", func(st *State, a []Value, reg int) { st.setRet(reg, st.c.BAnd(a[0].(*Term), a[1].(*Term))) })
	V("Or", func(st *State, a []Value, reg int) { st.setRet(reg, st.c.BOr(a[0].(*Term), a[1].(*Term))) })
	V("Not", func(st *State, a []Value, reg int) { st.setRet(reg, st.c.Not(a[0].(*Term))) })
	V("Implies", func(st *State, a []Value, reg int) {
		st.setRet(reg, st.c.BOr(st.c.Not(a[0].(*Term)), a[1].(*Term)))
	})
	V("IteInt", func(st *State, a []Value, reg int) {
		st.setRet(reg, st.c.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term)))
	})
	V("IteByte", func(st *State, a []Value, reg int) {
		st.setRet(reg, st.c.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term)))
	})
	V("EqBytes", func(st *State, a []Value, reg int) { st.setRet(reg, st.strEq(st.sliceStr(a[0]), st.sliceStr(a[1]))) })
	V("EqStr", func(st *State, a []Value, reg int) { st.setRet(reg, st.strEq(a[0].(*StrV), a[1].(*StrV))) })
	V("Concrete", func(st *State, a []Value, reg int) {
		st.setRet(reg, st.c.Const(64, st.concretize(a[0].(*Term), 1<<20)))
	})
	V("IsConcrete", func(st *State, a []Value, reg int) {
		_, ok := st.concreteBytes(a[0])
		st.setRet(reg, st.c.Bool(ok))
	})
	V("IsConcreteInt", func(st *State, a []Value, reg int) { st.setRet(reg, st.c.Bool(a[0].(*Term).IsConst())) })
	V("IsStop", func(st *State, a []Value, reg int) { st.setRet(reg, st.c.False) })

	// internal/bytealg
	indexByte := func(st *State, s *StrV, b *Term) *Term {
		c := st.c
		for i := uint64(0); ; i++ {
			it := c.Const(64, i)
			if !st.decide(c.Ult(it, s.len)) {
				return c.I64(-1)
			}
			if st.decide(c.Eq(c.Read(s.arr, c.Add(s.off, it)), b)) {
				return it
			}
		}
	}
	m["internal/bytealg.IndexByte"] = func(st *State, a []Value, reg int) {
		st.setRet(reg, indexByte(st, st.sliceStr(a[0]), a[1].(*Term)))
	}
	m["internal/bytealg.IndexByteString"] = func(st *State, a []Value, reg int) {
		st.setRet(reg, indexByte(st, a[0].(*StrV), a[1].(*Term)))
	}
	lastIndexByte := func(st *State, s *StrV, b *Term) *Term {
		c := st.c
		n := st.concretize(s.len, 1<<20)
		for i := int64(n) - 1; i >= 0; i-- {
			if st.decide(c.Eq(c.Read(s.arr, c.Add(s.off, c.I64(i))), b)) {
				return c.I64(i)
			}
		}
		return c.I64(-1)
	}
	m["internal/bytealg.LastIndexByte"] = func(st *State, a []Value, reg int) {
		st.setRet(reg, lastIndexByte(st, st.sliceStr(a[0]), a[1].(*Term)))
	}
	m["internal/bytealg.LastIndexByteString"] = func(st *State, a []Value, reg int) {
		st.setRet(reg, lastIndexByte(st, a[0].(*StrV), a[1].(*Term)))
	}
	count := func(st *State, s *StrV, b *Term) *Term {
		c := st.c
		n := st.concretize(s.len, 1<<20)
		r := c.I64(0)
		for i := uint64(0); i < n; i++ {
			r = c.Add(r, c.Ite(c.Eq(c.Read(s.arr, c.Add(s.off, c.Const(64, i))), b), c.I64(1), c.I64(0)))
		}
		return r
	}
	m["internal/bytealg.Count"] = func(st *State, a []Value, reg int) {
		st.setRet(reg, count(st, st.sliceStr(a[0]), a[1].(*Term)))
	}
	m["internal/bytealg.CountString"] = func(st *State, a []Value, reg int) {
		st.setRet(reg, count(st, a[0].(*StrV), a[1].(*Term)))
	}
	m["internal/bytealg.Equal"] = func(st *State, a []Value, reg int) {
		st.setRet(reg, st.strEq(st.sliceStr(a[0]), st.sliceStr(a[1])))
	}
	m["bytes.Equal"] = m["internal/bytealg.Equal"]
	m["internal/bytealg.MakeNoZero"] = func(st *State, a []Value, reg int) {
		n := a[0].(*Term)
		st.setRet(reg, st.makeSlice(types.NewSlice(types.Typ[types.Byte]), n, n))
	}
	cmp := func(st *State, x, y *StrV) *Term {
		c := st.c
		lt := st.strLess(tokLSS, x, y).(*Term)
		eq := st.strEq(x, y)
		return c.Ite(eq, c.I64(0), c.Ite(lt, c.I64(-1), c.I64(1)))
	}
	m["internal/bytealg.Compare"] = func(st *State, a []Value, reg int) {
		st.setRet(reg, cmp(st, st.sliceStr(a[0]), st.sliceStr(a[1])))
	}
	m["internal/bytealg.CompareString"] = func(st *State, a []Value, reg int) {
		st.setRet(reg, cmp(st, a[0].(*StrV), a[1].(*StrV)))
	}
	concIndex := func(st *State, x, y *StrV) *Term {
		c := st.c
		n, k := st.concretize(x.len, 1<<16), st.concretize(y.len, 1<<16)
		for i := uint64(0); i+k <= n; i++ {
			if st.decide(c.EqRange(x.arr, c.Add(x.off, c.Const(64, i)), y.arr, y.off, c.Const(64, k))) {
				return c.Const(64, i)
			}
		}
		return c.I64(-1)
	}
	m["internal/bytealg.IndexString"] = func(st *State, a []Value, reg int) {
		st.setRet(reg, concIndex(st, a[0].(*StrV), a[1].(*StrV)))
	}
	m["internal/bytealg.Index"] = func(st *State, a []Value, reg int) {
		st.setRet(reg, concIndex(st, st.sliceStr(a[0]), st.sliceStr(a[1])))
	}
	m["strings.Index"] = m["internal/bytealg.IndexString"]
	m["bytes.Index"] = m["internal/bytealg.Index"]
	m["internal/bytealg.IndexRabinKarp"] = m["internal/bytealg.Index"]

	nop := func(st *State, a []Value, reg int) {}
	retTrue := func(st *State, a []Value, reg int) { st.setRet(reg, st.c.True) }
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock",
		"(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "runtime.KeepAlive", "runtime.GC", "runtime.SetFinalizer", "(*sync.Pool).Put",
		"internal/race.Acquire", "internal/race.Release", "(*strings.Builder).copyCheck", "internal/msan.Read", "internal/asan.Read",
		"crypto/internal/fips140.RecordApproved", "crypto/internal/fips140.RecordNonApproved", "crypto/internal/boring.Unreachable",
		"crypto/internal/boring/sig.StandardCrypto", "runtime.Gosched", "time.Sleep"} {
		m[n] = nop
	}
	m["(*sync.Mutex).TryLock"] = retTrue
	m["(*sync.Once).Do"] = func(st *State, a []Value, reg int) {
		p := a[0].(Ptr)
		k := fmt.Sprintf("once:%d:%v", p.obj, p.path)
		if st.records[k] != nil {
			return
		}
		st.records[k] = []Value{st.c.True}
		f := a[1].(*FuncV)
		st.invoke(f.fn, nil, f.binds, -1)
	}
	m["(*sync.Pool).Get"] = func(st *State, a []Value, reg int) {
		// always take the New path
		p := a[0].(Ptr)
		sv := st.load(p).(*StructV)
		f, _ := sv.f[len(sv.f)-1].(*FuncV)
		if f == nil {
			st.setRet(reg, nilIface)
			return
		}
		st.invoke(f.fn, nil, f.binds, reg)
	}
	ident := func(st *State, a []Value, reg int) { st.setRet(reg, a[0]) }
	m["internal/abi.NoEscape"] = ident
	m["strings.noescape"] = ident
	m["bytes.noescape"] = ident
	m["internal/abi.Escape"] = ident
	m["internal/stringslite.Clone"] = ident
	m["strings.Clone"] = ident
	m["internal/race.Enabled"] = nop
	m["crypto/internal/fips140/subtle.ConstantTimeCompare"] = func(st *State, a []Value, reg int) {
		c := st.c
		st.setRet(reg, c.Ite(st.strEq(st.sliceStr(a[0]), st.sliceStr(a[1])), c.I64(1), c.I64(0)))
	}
	m["crypto/subtle.ConstantTimeCompare"] = m["crypto/internal/fips140/subtle.ConstantTimeCompare"]
	m["(*internal/godebug.Setting).Value"] = func(st *State, a []Value, reg int) { st.setRet(reg, st.c.str("")) }
	m["(*internal/godebug.Setting).IncNonDefault"] = nop
	m["crypto/internal/constanttime.boolToUint8"] = func(st *State, a []Value, reg int) {
		st.setRet(reg, st.c.Ite(a[0].(*Term), st.c.Const(8, 1), st.c.Const(8, 0)))
	}
	m["crypto/subtle.XORBytes"] = func(st *State, a []Value, reg int) {
		st.pushCall(st.e.ld.mustFn(vmodelPath+".XORBytes"), a, nil, reg)
	}
	m["crypto/internal/fips140/subtle.XORBytes"] = m["crypto/subtle.XORBytes"]
	overlap := func(st *State, a []Value, reg int) {
		x, y := a[0].(*SliceV), a[1].(*SliceV)
		c := st.c
		if x.base.obj != y.base.obj || x.base.obj == 0 {
			st.setRet(reg, c.False)
			return
		}
		// slices of one object: of the same array if nothing else is known
		st.setRet(reg, c.And(c.And(c.Ult(x.off, c.Add(y.off, y.len)), c.Ult(y.off, c.Add(x.off, x.len))), c.Bool(len(x.base.path) == len(y.base.path))))
	}
	m["crypto/internal/fips140/alias.AnyOverlap"] = overlap
	m["golang.org/x/crypto/internal/alias.AnyOverlap"] = overlap
	m["errors.As"] = func(st *State, a []Value, reg int) {
		st.pushCall(st.e.ld.mustFn(vmodelPath+".ErrorsAs"), a, nil, reg)
	}
	m[vmodelPath+".asTarget"] = func(st *State, a []Value, reg int) {
		err, tg := a[0].(IfaceV), a[1].(IfaceV)
		pt, ok := tg.t.Underlying().(*types.Pointer)
		if !ok {
			panic(unsupported("errors.As target"))
		}
		ok = types.AssignableTo(err.t, pt.Elem())
		if ok {
			if _, isI := pt.Elem().Underlying().(*types.Interface); isI {
				st.store(tg.v.(Ptr), err)
			} else {
				st.store(tg.v.(Ptr), err.v)
			}
		}
		st.setRet(reg, st.c.Bool(ok))
	}
	m["errors.Is"] = func(st *State, a []Value, reg int) {
		st.pushCall(st.e.ld.mustFn(vmodelPath+".ErrorsIs"), a, nil, reg)
	}

	// math/bits: let the pure-Go bodies run except for the costly ones
	m["math/bits.TrailingZeros64"] = func(st *State, a []Value, reg int) {
		t := a[0].(*Term)
		if t.IsConst() {
			st.setRet(reg, st.c.I64(int64(bits.TrailingZeros64(t.val))))
			return
		}
		r := st.c.I64(64)
		for i := 63; i >= 0; i-- {
			r = st.c.Ite(st.c.Eq(st.c.Extract(t, 1, uint64(i)), st.c.Const(1, 1)), st.c.I64(int64(i)), r)
		}
		st.setRet(reg, r)
	}
	for n, f := range extraIntrinsics {
		m[n] = f
	}
	intrinsics = m
	addCryptoIntrinsics(m)
}

func hasPrefixAny(s string, ps ...string) bool {
	for _, p := range ps {
		if strings.HasPrefix(s, p) {
			return true
		}
	}
	return false
}
