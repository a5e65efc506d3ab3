package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type Value any

type Step struct {
	f   int32 // field index when idx == nil
	idx *Term
}

// Ptr points into heap object obj; obj==0 is nil.
type Ptr struct {
	obj  uint32
	path []Step
}

func (p Ptr) field(i int) Ptr {
	return Ptr{p.obj, append(p.path[:len(p.path):len(p.path)], Step{f: int32(i)})}
}
func (p Ptr) elem(i *Term) Ptr {
	return Ptr{p.obj, append(p.path[:len(p.path):len(p.path)], Step{idx: i})}
}

type SliceV struct {
	base          Ptr // pointer to the backing array (obj==0: nil slice)
	off, len, cap *Term
}

type StrV struct {
	arr      *SArr
	off, len *Term
}

type StructV struct{ f []Value }
type ArrV struct{ e []Value }
type IfaceV struct {
	t types.Type // nil: nil interface
	v Value
}
type FuncV struct {
	fn      *ssa.Function
	binds   []Value
	builtin *ssa.Builtin
}
type TupleV []Value
type FloatV float64
type MapV struct{ obj uint32 }
type MapObj struct{ k, v []Value }
type IterV struct{ obj uint32 }
type IterObj struct {
	str  *StrV
	pos  *Term
	keys []Value
	m    uint32
	i    int
}
type UnsafeV struct{ p Value } // unsafe.Pointer wrapping a Ptr
type OpaqueV struct{ why string }

var nilIface = IfaceV{}

func intWidth(t types.Type) (w uint8, signed bool, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.UntypedInt:
		return 64, true, true
	}
	return 0, false, false
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func (c *Ctx) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, _, ok := intWidth(t); ok {
			return c.Const(w, 0)
		}
		switch {
		case u.Info()&types.IsBoolean != 0:
			return c.False
		case u.Info()&types.IsString != 0:
			return c.str("")
		case u.Info()&types.IsFloat != 0:
			return FloatV(0)
		case u.Kind() == types.UnsafePointer:
			return Ptr{}
		case u.Kind() == types.UntypedNil:
			return nil
		}
		return OpaqueV{"zero of " + t.String()}
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		z := c.Const(64, 0)
		return &SliceV{off: z, len: z, cap: z}
	case *types.Struct:
		f := make([]Value, u.NumFields())
		for i := range f {
			f[i] = c.zero(u.Field(i).Type())
		}
		return &StructV{f}
	case *types.Array:
		return c.zeroArray(u.Elem(), u.Len())
	case *types.Interface:
		return nilIface
	case *types.Map:
		return MapV{}
	case *types.Signature:
		return (*FuncV)(nil)
	case *types.Chan:
		return Ptr{}
	case *types.Tuple:
		tv := make(TupleV, u.Len())
		for i := range tv {
			tv[i] = c.zero(u.At(i).Type())
		}
		return tv
	}
	panic(unsupported(fmt.Sprintf("zero value of %s", t)))
}

func (c *Ctx) zeroArray(elem types.Type, n int64) Value {
	if w, _, ok := intWidth(elem); ok {
		return c.ZeroArr(w, n)
	}
	if n > 1<<16 {
		panic(unsupported("large composite array"))
	}
	e := make([]Value, n)
	if n > 0 {
		z := c.zero(elem)
		for i := range e {
			e[i] = z
		}
	}
	return &ArrV{e}
}

func (c *Ctx) str(s string) *StrV {
	return &StrV{c.StrArr(s), c.Const(64, 0), c.Const(64, uint64(len(s)))}
}

// concreteStr extracts a fully concrete string.
func (c *Ctx) concreteStr(s *StrV) (string, bool) {
	if !s.len.IsConst() || !s.off.IsConst() {
		return "", false
	}
	if s.arr.kind == aStr && s.off.val+s.len.val <= uint64(len(s.arr.str)) {
		return s.arr.str[s.off.val : s.off.val+s.len.val], true
	}
	b := make([]byte, s.len.val)
	if !c.fillConst(s.arr, s.off.val, b) {
		return "", false
	}
	return string(b), true
}
