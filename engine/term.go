package main

// Hash-consed bit-vector / boolean terms with aggressive local simplification.

import (
	"fmt"
	"math/bits"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OAnd
	OOr
	OXor
	ONot // bitwise
	ONeg
	OShl
	OLshr
	OAshr
	OConcat
	OExtract // val = lo ; w = width
	OZext
	OSext
	OIte
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OBNot
	OBAnd
	OBOr
	OFn // table lookup: val = table id, a = 8-bit leaf
)

// Term is an immutable hash-consed expression.  w==0 means Bool.
type Term struct {
	op       Op
	w        uint8
	id       uint32
	val      uint64
	a, b, c  *Term
	zeros    uint64 // bits known to be 0
	lo, hi   uint64 // unsigned range
	vars     []int32
	varsOK   bool
	manyVars bool
	emitted  uint32 // solver generation in which this term has been defined
}

type termKey struct {
	op      Op
	w       uint8
	val     uint64
	a, b, c uint32
}

type VarInfo struct {
	name string
	w    uint8
	t    *Term
	pin  bool // worth testing for a forced value (lengths, counts)
}

type Table struct {
	id   int
	w    uint8 // result width (0 = bool)
	vals [256]uint64
}

// Ctx owns the terms of one exploration.  Not safe for concurrent use.
type Ctx struct {
	terms   map[termKey]*Term
	nextID  uint32
	vars    []VarInfo
	tables  []*Table
	tabKey  map[string]int
	tabOp   map[termKey]int // memo: (op,w,val, tidA, tidB/const) -> table id
	True    *Term
	False   *Term
	evalMem map[*Term]uint64
	extMem  map[extKey]*Term
}

type extKey struct {
	t  *Term
	w  uint8
	lo uint8
}

func NewCtx() *Ctx {
	c := &Ctx{terms: map[termKey]*Term{}, tabKey: map[string]int{}, tabOp: map[termKey]int{}, extMem: map[extKey]*Term{}}
	c.nextID = 1
	c.True = c.mk(OConst, 0, 1, nil, nil, nil)
	c.False = c.mk(OConst, 0, 0, nil, nil, nil)
	return c
}

func mask(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func tid(t *Term) uint32 {
	if t == nil {
		return 0
	}
	return t.id
}

func (c *Ctx) mk(op Op, w uint8, val uint64, a, b, d *Term) *Term {
	k := termKey{op, w, val, tid(a), tid(b), tid(d)}
	if t, ok := c.terms[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, val: val, a: a, b: b, c: d, id: c.nextID}
	c.nextID++
	c.analyse(t)
	c.terms[k] = t
	return t
}

func lowMaskFor(hi uint64) uint64 {
	if hi == 0 {
		return 0
	}
	return mask(uint8(bits.Len64(hi)))
}

// analyse computes known-zero bits and unsigned ranges.
func (c *Ctx) analyse(t *Term) {
	m := mask(t.w)
	t.lo, t.hi = 0, m
	t.zeros = ^m
	switch t.op {
	case OConst:
		t.lo, t.hi = t.val, t.val
		t.zeros = ^t.val
		return
	case OVar:
		return
	case OFn:
		tab := c.tables[t.val]
		lo, hi, or := ^uint64(0), uint64(0), uint64(0)
		for i := t.a.lo; i <= t.a.hi; i++ {
			v := tab.vals[i]
			if v < lo {
				lo = v
			}
			if v > hi {
				hi = v
			}
			or |= v
		}
		t.lo, t.hi, t.zeros = lo, hi, ^or
		return
	case OAnd:
		t.zeros = t.a.zeros | t.b.zeros | ^m
		t.hi = min(t.a.hi, t.b.hi)
	case OOr, OXor:
		t.zeros = t.a.zeros & t.b.zeros
		if t.op == OOr {
			t.lo = max(t.a.lo, t.b.lo)
		}
	case OAdd:
		s, carry := bits.Add64(t.a.hi, t.b.hi, 0)
		if carry == 0 && s <= m {
			t.lo, t.hi = t.a.lo+t.b.lo, s
			t.zeros = ^lowMaskFor(s)
		}
		tz := min(bits.TrailingZeros64(^t.a.zeros), bits.TrailingZeros64(^t.b.zeros))
		t.zeros |= mask(uint8(tz)) & boolMask(tz > 0)
	case OSub:
		if t.a.lo >= t.b.hi {
			t.lo, t.hi = t.a.lo-t.b.hi, t.a.hi-t.b.lo
			t.zeros = ^lowMaskFor(t.hi)
		}
	case OMul:
		h, l := bits.Mul64(t.a.hi, t.b.hi)
		if h == 0 && l <= m {
			t.lo, t.hi = t.a.lo*t.b.lo, l
			t.zeros = ^lowMaskFor(l)
		}
		tz := bits.TrailingZeros64(^t.a.zeros) + bits.TrailingZeros64(^t.b.zeros)
		if tz > 0 {
			if tz > 64 {
				tz = 64
			}
			t.zeros |= mask(uint8(tz))
		}
	case OUDiv:
		if t.b.lo > 0 {
			t.lo, t.hi = t.a.lo/t.b.hi, t.a.hi/t.b.lo
			t.zeros = ^lowMaskFor(t.hi)
		}
	case OURem:
		t.hi = t.a.hi
		if t.b.lo > 0 && t.b.hi-1 < t.hi {
			t.hi = t.b.hi - 1
		}
		t.zeros = ^lowMaskFor(t.hi)
	case OShl:
		if t.b.op == OConst && t.b.val < uint64(t.w) {
			s := t.b.val
			t.zeros = (t.a.zeros << s) | (uint64(1)<<s - 1) | ^m
			if t.a.hi <= m>>s {
				t.lo, t.hi = t.a.lo<<s, t.a.hi<<s
			}
		}
	case OLshr:
		if t.b.op == OConst && t.b.val < 64 {
			s := t.b.val
			t.zeros = ^((^t.a.zeros & m) >> s)
			t.lo, t.hi = t.a.lo>>s, t.a.hi>>s
		} else {
			t.hi = t.a.hi
		}
	case OAshr:
		if t.a.hi <= m>>1 {
			t.hi = t.a.hi
			if t.b.op == OConst && t.b.val < 64 {
				t.lo, t.hi = t.a.lo>>t.b.val, t.a.hi>>t.b.val
				t.zeros = ^((^t.a.zeros & m) >> t.b.val)
			}
		}
	case OConcat:
		s := t.b.w
		t.zeros = (t.a.zeros << s) | (t.b.zeros & mask(s))
		t.zeros = ^(^t.zeros & m)
		t.lo, t.hi = t.a.lo<<s|t.b.lo, t.a.hi<<s|t.b.hi
	case OExtract:
		t.zeros = ^((^t.a.zeros >> t.val) & m)
		if t.a.hi>>t.val <= m {
			t.lo, t.hi = t.a.lo>>t.val, t.a.hi>>t.val
		}
	case OZext:
		t.zeros = t.a.zeros
		t.lo, t.hi = t.a.lo, t.a.hi
	case OSext:
		if t.a.hi <= mask(t.a.w)>>1 {
			t.zeros = t.a.zeros
			t.lo, t.hi = t.a.lo, t.a.hi
		}
	case OIte:
		t.zeros = t.b.zeros & t.c.zeros
		t.lo, t.hi = min(t.b.lo, t.c.lo), max(t.b.hi, t.c.hi)
	}
	if k := ^t.zeros & m; k < t.hi {
		t.hi = k
	}
	t.zeros |= ^lowMaskFor(t.hi)
	if t.lo > t.hi {
		t.lo = 0
	}
}

func boolMask(b bool) uint64 {
	if b {
		return ^uint64(0)
	}
	return 0
}

func (c *Ctx) Const(w uint8, v uint64) *Term { return c.mk(OConst, w, v&mask(w), nil, nil, nil) }
func (c *Ctx) I64(v int64) *Term             { return c.Const(64, uint64(v)) }
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}
func (t *Term) IsConst() bool { return t.op == OConst }
func (t *Term) Int() int64 { // signed value of a constant
	return sext(t.val, t.w)
}
func sext(v uint64, w uint8) int64 {
	if w == 0 || w >= 64 {
		return int64(v)
	}
	s := 64 - w
	return int64(v<<s) >> s
}

func (c *Ctx) Var(name string, w uint8) *Term {
	id := len(c.vars)
	t := c.mk(OVar, w, uint64(id), nil, nil, nil)
	c.vars = append(c.vars, VarInfo{name: name, w: w, t: t})
	return t
}

// ---------- tables ----------

func (c *Ctx) internTable(w uint8, vals *[256]uint64) int {
	var sb strings.Builder
	sb.Grow(256*8 + 1)
	sb.WriteByte(w)
	for _, v := range vals {
		for s := 0; s < 64; s += 8 {
			sb.WriteByte(byte(v >> s))
		}
	}
	k := sb.String()
	if id, ok := c.tabKey[k]; ok {
		return id
	}
	t := &Table{id: len(c.tables), w: w, vals: *vals}
	c.tables = append(c.tables, t)
	c.tabKey[k] = t.id
	return t.id
}

// mkFn builds Fn(table, leaf) canonicalised over the leaf's range.
func (c *Ctx) mkFn(w uint8, vals *[256]uint64, leaf *Term) *Term {
	if leaf.IsConst() {
		return c.Const(w, vals[leaf.val&255])
	}
	same, ident := true, true
	first := vals[leaf.lo]
	for i := leaf.lo; i <= leaf.hi; i++ {
		if leaf.zeros&i != 0 {
			continue
		}
		if vals[i] != first {
			same = false
		}
		if vals[i] != i {
			ident = false
		}
	}
	if same {
		return c.Const(w, first)
	}
	if ident && w > 0 {
		switch {
		case w == leaf.w:
			return leaf
		case w > leaf.w:
			return c.Zext(leaf, w)
		default:
			return c.Extract(leaf, w, 0)
		}
	}
	// clear entries outside the range to intern more
	v := *vals
	for i := range v {
		if uint64(i) < leaf.lo || uint64(i) > leaf.hi || leaf.zeros&uint64(i) != 0 {
			v[i] = first
		}
	}
	id := c.internTable(w, &v)
	return c.mk(OFn, w, uint64(id), leaf, nil, nil)
}

// Lookup reads a constant table of <=256 entries at idx.
func (c *Ctx) Lookup(w uint8, vals *[256]uint64, idx *Term) *Term {
	leaf := idx
	for leaf.op == OZext {
		leaf = leaf.a
	}
	if leaf.w > 8 {
		leaf = c.Extract(leaf, 8, 0)
	}
	for leaf.op == OZext {
		leaf = leaf.a
	}
	if leaf.op == OFn {
		inner := c.tables[leaf.val]
		var v [256]uint64
		for i := 0; i < 256; i++ {
			v[i] = vals[inner.vals[i]&255]
		}
		return c.mkFn(w, &v, leaf.a)
	}
	return c.mkFn(w, vals, leaf)
}

// fnLeaf reports the leaf a term is a table function of (for folding).
func fnLeaf(t *Term) *Term {
	if t.op == OFn {
		return t.a
	}
	return nil
}

// foldFn tries to fold op(a,b) where at least one argument is a Fn over a leaf
// and the others are constants, the same leaf or Fns over the same leaf.
func (c *Ctx) foldFn(op Op, w uint8, val uint64, a, b, d *Term) *Term {
	var leaf *Term
	for _, x := range [3]*Term{a, b, d} {
		if x == nil {
			continue
		}
		if l := fnLeaf(x); l != nil {
			if leaf == nil {
				leaf = l
			} else if leaf != l {
				return nil
			}
		}
	}
	if leaf == nil {
		return nil
	}
	for _, x := range [3]*Term{a, b, d} {
		if x == nil || x.op == OConst || x.op == OFn || x == leaf || (x.op == OZext && x.a == leaf) {
			continue
		}
		return nil
	}
	var out [256]uint64
	get := func(x *Term, i int) uint64 {
		if x == nil {
			return 0
		}
		switch x.op {
		case OConst:
			return x.val
		case OFn:
			return c.tables[x.val].vals[i]
		}
		return uint64(i)
	}
	wa := uint8(0)
	if a != nil {
		wa = a.w
	}
	wb := uint8(0)
	if b != nil {
		wb = b.w
	}
	for i := 0; i < 256; i++ {
		out[i] = evalOp(op, w, wa, wb, val, get(a, i), get(b, i), get(d, i))
	}
	return c.mkFn(w, &out, leaf)
}

// evalOp computes an operation on concrete values.
func evalOp(op Op, w, wa, wb uint8, val, a, b, d uint64) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (a + b) & m
	case OSub:
		return (a - b) & m
	case OMul:
		return (a * b) & m
	case OUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case OURem:
		if b == 0 {
			return a
		}
		return a % b
	case OSDiv:
		x, y := sext(a, wa), sext(b, wa)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return m
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OSRem:
		x, y := sext(a, wa), sext(b, wa)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OAnd:
		return a & b
	case OOr:
		return a | b
	case OXor:
		return a ^ b
	case ONot:
		return ^a & m
	case ONeg:
		return -a & m
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return a << b & m
	case OLshr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAshr:
		x := sext(a, wa)
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(x>>b) & m
	case OConcat:
		return a<<wb | b
	case OExtract:
		return a >> val & m
	case OZext:
		return a
	case OSext:
		return uint64(sext(a, wa)) & m
	case OIte:
		if a != 0 {
			return b
		}
		return d
	case OEq:
		return b2u(a == b)
	case OUlt:
		return b2u(a < b)
	case OUle:
		return b2u(a <= b)
	case OSlt:
		return b2u(sext(a, wa) < sext(b, wa))
	case OSle:
		return b2u(sext(a, wa) <= sext(b, wa))
	case OBNot:
		return a ^ 1
	case OBAnd:
		return a & b
	case OBOr:
		return a | b
	}
	panic("evalOp")
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// ---------- constructors ----------

func (c *Ctx) bin(op Op, w uint8, a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		return c.Const(w, evalOp(op, w, a.w, b.w, 0, a.val, b.val, 0))
	}
	if a.op == OFn || b.op == OFn {
		if t := c.foldFn(op, w, 0, a, b, nil); t != nil {
			return t
		}
	}
	return c.mk(op, w, 0, a, b, nil)
}

func (c *Ctx) Add(a, b *Term) *Term {
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		if b.val == 0 {
			return a
		}
		if a.op == OAdd && a.b.op == OConst {
			return c.Add(a.a, c.Const(a.w, a.b.val+b.val))
		}
		if a.op == OSub && a.a.op == OConst { // (k-x)+b
			return c.Sub(c.Const(a.w, a.a.val+b.val), a.b)
		}
	} else {
		// (x - y) + y = x
		if a.op == OSub && a.b == b {
			return a.a
		}
		if b.op == OSub && b.b == a {
			return b.a
		}
		if a.zeros|b.zeros == ^uint64(0) {
			return c.Or(a, b)
		}
		// hoist constants
		if a.op == OAdd && a.b.op == OConst {
			return c.Add(c.Add(a.a, b), a.b)
		}
		if b.op == OAdd && b.b.op == OConst {
			return c.Add(c.Add(a, b.a), b.b)
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return c.bin(OAdd, a.w, a, b)
}

func (c *Ctx) Sub(a, b *Term) *Term {
	if b.op == OConst {
		return c.Add(a, c.Const(a.w, -b.val))
	}
	if a == b {
		return c.Const(a.w, 0)
	}
	if a.op == OAdd {
		if a.a == b {
			return a.b
		}
		if a.b == b {
			return a.a
		}
		if a.b.op == OConst { // (x+k)-b
			return c.Add(c.Sub(a.a, b), a.b)
		}
	}
	if b.op == OAdd && b.b.op == OConst { // a-(x+k)
		return c.Add(c.Sub(a, b.a), c.Const(a.w, -b.b.val))
	}
	if a.op == OSub && a.a == b { // (b - y) - b = -y
		return c.Neg(a.b)
	}
	if b.op == OSub && b.a == a { // a - (a - y) = y
		return b.b
	}
	return c.bin(OSub, a.w, a, b)
}

func (c *Ctx) Mul(a, b *Term) *Term {
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		if b.val == 0 {
			return b
		}
		if b.val == 1 {
			return a
		}
		if a.op == OMul && a.b.op == OConst {
			return c.Mul(a.a, c.Const(a.w, a.b.val*b.val))
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return c.bin(OMul, a.w, a, b)
}

func (c *Ctx) UDiv(a, b *Term) *Term {
	if b.op == OConst && b.val != 0 && b.val&(b.val-1) == 0 {
		return c.Lshr(a, c.Const(a.w, uint64(bits.TrailingZeros64(b.val))))
	}
	if b.lo > 0 && a.hi < b.lo {
		return c.Const(a.w, 0)
	}
	return c.bin(OUDiv, a.w, a, b)
}
func (c *Ctx) URem(a, b *Term) *Term {
	if b.op == OConst && b.val != 0 && b.val&(b.val-1) == 0 {
		return c.And(a, c.Const(a.w, b.val-1))
	}
	if b.lo > 0 && a.hi < b.lo {
		return a
	}
	return c.bin(OURem, a.w, a, b)
}
func (c *Ctx) SDiv(a, b *Term) *Term {
	if a.hi <= mask(a.w)>>1 && b.hi <= mask(b.w)>>1 {
		return c.UDiv(a, b)
	}
	return c.bin(OSDiv, a.w, a, b)
}
func (c *Ctx) SRem(a, b *Term) *Term {
	if a.hi <= mask(a.w)>>1 && b.hi <= mask(b.w)>>1 {
		return c.URem(a, b)
	}
	return c.bin(OSRem, a.w, a, b)
}

func (c *Ctx) And(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.op == OConst {
		a, b = b, a
	}
	if a.zeros|b.zeros == ^uint64(0) {
		return c.Const(a.w, 0)
	}
	if b.op == OConst {
		if (^a.zeros)&^b.val == 0 { // all possibly-set bits kept
			return a
		}
		if a.op == OAnd && a.b.op == OConst {
			return c.And(a.a, c.Const(a.w, a.b.val&b.val))
		}
		if a.op == OOr { // distribute mask over or
			return c.Or(c.And(a.a, b), c.And(a.b, b))
		}
		if a.op == OZext {
			return c.Zext(c.And(a.a, c.Const(a.a.w, b.val)), a.w)
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return c.bin(OAnd, a.w, a, b)
}

func (c *Ctx) Or(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		if b.val == 0 {
			return a
		}
		if b.val == mask(a.w) {
			return b
		}
	}
	if a.op != OConst && b.op != OConst && a.id > b.id {
		a, b = b, a
	}
	// merge adjacent bit-fields of one source: (x & m1) | (x & m2), shifts, zexts
	if m := c.mergeOr(a, b); m != nil {
		return m
	}
	return c.bin(OOr, a.w, a, b)
}

// field decomposes t as ((src >> r) & m) << l, with src of width w.
func (c *Ctx) mergeOr(a, b *Term) *Term {
	if a.op == OConst || b.op == OConst {
		return nil
	}
	sa, sha, ma, ok := fieldOf(a)
	if !ok {
		return nil
	}
	// search through b's or-tree for a field of the same source with same net shift
	sb, shb, mb, ok := fieldOf(b)
	if ok && sa == sb && sha == shb {
		return c.fromField(sa, sha, ma|mb, a.w)
	}
	if b.op == OOr {
		for i := 0; i < 2; i++ {
			x, y := b.a, b.b
			if i == 1 {
				x, y = y, x
			}
			if s, sh, m, ok := fieldOf(x); ok && s == sa && sh == sha {
				return c.Or(c.fromField(sa, sha, ma|m, a.w), y)
			}
		}
	}
	if a.op == OOr {
		for i := 0; i < 2; i++ {
			x, y := a.a, a.b
			if i == 1 {
				x, y = y, x
			}
			if s, sh, m, ok := fieldOf(x); ok {
				if s2, sh2, m2, ok2 := fieldOf(b); ok2 && s == s2 && sh == sh2 {
					return c.Or(c.fromField(s, sh, m|m2, a.w), y)
				}
			}
		}
	}
	return nil
}

// fieldOf views t as (shift(zext(src), net) & mask) where mask is in result
// coordinates; net>0 is a left shift.
func fieldOf(t *Term) (src *Term, net int, m uint64, ok bool) {
	if t.w == 0 {
		return nil, 0, 0, false
	}
	m = mask(t.w)
	sh := 0
	cur := t
	for {
		switch cur.op {
		case OAnd:
			if cur.b.op != OConst {
				goto done
			}
			m &= shiftMask(cur.b.val, sh)
			cur = cur.a
		case OShl:
			if cur.b.op != OConst || cur.b.val >= uint64(cur.w) {
				goto done
			}
			m &= shiftMask(mask(cur.w), sh)
			sh += int(cur.b.val)
			m &= shiftMask(mask(cur.w), sh)
			cur = cur.a
		case OLshr:
			if cur.b.op != OConst || cur.b.val >= uint64(cur.w) {
				goto done
			}
			m &= shiftMask(mask(cur.w), sh)
			sh -= int(cur.b.val)
			m &= shiftMask(mask(cur.w), sh)
			cur = cur.a
		case OZext:
			m &= shiftMask(mask(cur.a.w), sh)
			cur = cur.a
		case OExtract:
			m &= shiftMask(mask(cur.w), sh)
			sh -= int(cur.val)
			cur = cur.a
		default:
			goto done
		}
	}
done:
	m &= shiftMask(mask(cur.w), sh)
	m &= shiftMask(^cur.zeros, sh)
	return cur, sh, m, true
}

func shiftMask(m uint64, sh int) uint64 {
	if sh >= 64 || sh <= -64 {
		return 0
	}
	if sh >= 0 {
		return m << sh
	}
	return m >> -sh
}

// fromField rebuilds (shift(src,net) & m) at width w.
func (c *Ctx) fromField(src *Term, net int, m uint64, w uint8) *Term {
	x := src
	if net < 0 {
		x = c.Lshr(x, c.Const(x.w, uint64(-net)))
	}
	if x.w < w {
		x = c.Zext(x, w)
	} else if x.w > w {
		x = c.Extract(x, w, 0)
	}
	if net > 0 {
		x = c.Shl(x, c.Const(w, uint64(net)))
	}
	return c.And(x, c.Const(w, m))
}

func (c *Ctx) Xor(a, b *Term) *Term {
	if a == b {
		return c.Const(a.w, 0)
	}
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		if b.val == 0 {
			return a
		}
		if a.op == OXor && a.b.op == OConst {
			return c.Xor(a.a, c.Const(a.w, a.b.val^b.val))
		}
	} else {
		if a.op == OXor {
			if a.a == b {
				return a.b
			}
			if a.b == b {
				return a.a
			}
		}
		if b.op == OXor {
			if b.a == a {
				return b.b
			}
			if b.b == a {
				return b.a
			}
		}
		if a.zeros|b.zeros == ^uint64(0) {
			return c.Or(a, b)
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return c.bin(OXor, a.w, a, b)
}

func (c *Ctx) un(op Op, w uint8, val uint64, a *Term) *Term {
	if a.op == OConst {
		return c.Const(w, evalOp(op, w, a.w, 0, val, a.val, 0, 0))
	}
	if a.op == OFn {
		if t := c.foldFn(op, w, val, a, nil, nil); t != nil {
			return t
		}
	}
	return c.mk(op, w, val, a, nil, nil)
}

func (c *Ctx) NotBV(a *Term) *Term {
	if a.op == ONot {
		return a.a
	}
	return c.un(ONot, a.w, 0, a)
}
func (c *Ctx) Neg(a *Term) *Term {
	if a.op == ONeg {
		return a.a
	}
	if a.op == OSub {
		return c.Sub(a.b, a.a)
	}
	return c.un(ONeg, a.w, 0, a)
}

func (c *Ctx) Shl(a, b *Term) *Term {
	if b.op == OConst {
		if b.val == 0 {
			return a
		}
		if b.val >= uint64(a.w) {
			return c.Const(a.w, 0)
		}
		if a.op == OShl && a.b.op == OConst {
			return c.Shl(a.a, c.Const(a.w, a.b.val+b.val))
		}
		if a.op == OOr {
			return c.Or(c.Shl(a.a, b), c.Shl(a.b, b))
		}
		if a.op == OLshr && a.b.op == OConst && a.b.val == b.val {
			return c.And(a.a, c.Const(a.w, mask(a.w)<<b.val))
		}
		if ^a.zeros<<b.val&mask(a.w) == 0 {
			return c.Const(a.w, 0)
		}
	}
	return c.bin(OShl, a.w, a, b)
}
func (c *Ctx) Lshr(a, b *Term) *Term {
	if b.op == OConst {
		if b.val == 0 {
			return a
		}
		if b.val >= uint64(a.w) || a.hi>>b.val == 0 {
			return c.Const(a.w, 0)
		}
		if a.op == OLshr && a.b.op == OConst {
			return c.Lshr(a.a, c.Const(a.w, a.b.val+b.val))
		}
		if a.op == OOr {
			return c.Or(c.Lshr(a.a, b), c.Lshr(a.b, b))
		}
		if a.op == OAnd && a.b.op == OConst {
			return c.And(c.Lshr(a.a, b), c.Const(a.w, a.b.val>>b.val))
		}
		if a.op == OZext {
			if b.val >= uint64(a.a.w) {
				return c.Const(a.w, 0)
			}
			return c.Zext(c.Lshr(a.a, c.Const(a.a.w, b.val)), a.w)
		}
		if a.op == OShl && a.b.op == OConst {
			// (x << s) >> r with no bits lost
			s, r := a.b.val, b.val
			if ^a.a.zeros&mask(a.w) <= mask(a.w)>>s {
				if s >= r {
					return c.Shl(a.a, c.Const(a.w, s-r))
				}
				return c.Lshr(a.a, c.Const(a.w, r-s))
			}
		}
	}
	return c.bin(OLshr, a.w, a, b)
}
func (c *Ctx) Ashr(a, b *Term) *Term {
	if b.op == OConst && b.val == 0 {
		return a
	}
	if a.hi <= mask(a.w)>>1 {
		return c.Lshr(a, b)
	}
	return c.bin(OAshr, a.w, a, b)
}

func (c *Ctx) Zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.op == OZext {
		return c.Zext(a.a, w)
	}
	return c.un(OZext, w, 0, a)
}
func (c *Ctx) Sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.hi <= mask(a.w)>>1 {
		return c.Zext(a, w)
	}
	return c.un(OSext, w, 0, a)
}

// Extract takes w bits starting at lo.
func (c *Ctx) Extract(a *Term, w uint8, lo uint64) *Term {
	if lo == 0 && w == a.w {
		return a
	}
	if ^a.zeros>>lo&mask(w) == 0 {
		return c.Const(w, 0)
	}
	switch a.op {
	case OAnd, OOr, OXor, OAdd, OSub, OMul, OShl, OLshr, OAshr, OIte:
		k := extKey{a, w, uint8(lo)}
		if t, ok := c.extMem[k]; ok {
			return t
		}
		t := c.extract(a, w, lo)
		c.extMem[k] = t
		return t
	}
	return c.extract(a, w, lo)
}

func (c *Ctx) extract(a *Term, w uint8, lo uint64) *Term {
	switch a.op {
	case OExtract:
		return c.Extract(a.a, w, lo+a.val)
	case OZext:
		if lo == 0 && w >= a.a.w {
			return c.Zext(a.a, w)
		}
		if lo+uint64(w) <= uint64(a.a.w) {
			return c.Extract(a.a, w, lo)
		}
		if lo < uint64(a.a.w) {
			return c.Zext(c.Extract(a.a, uint8(uint64(a.a.w)-lo), lo), w)
		}
	case OSext:
		if lo+uint64(w) <= uint64(a.a.w) {
			return c.Extract(a.a, w, lo)
		}
	case OConcat:
		if lo+uint64(w) <= uint64(a.b.w) {
			return c.Extract(a.b, w, lo)
		}
		if lo >= uint64(a.b.w) {
			return c.Extract(a.a, w, lo-uint64(a.b.w))
		}
	case OAnd:
		return c.And(c.Extract(a.a, w, lo), c.Extract(a.b, w, lo))
	case OOr:
		return c.Or(c.Extract(a.a, w, lo), c.Extract(a.b, w, lo))
	case OXor:
		return c.Xor(c.Extract(a.a, w, lo), c.Extract(a.b, w, lo))
	case OAdd, OSub, OMul:
		if lo == 0 {
			x, y := c.Extract(a.a, w, 0), c.Extract(a.b, w, 0)
			switch a.op {
			case OAdd:
				return c.Add(x, y)
			case OSub:
				return c.Sub(x, y)
			}
			return c.Mul(x, y)
		}
	case OShl:
		if a.b.op == OConst {
			s := a.b.val
			if lo >= s {
				return c.Extract(a.a, w, lo-s)
			}
			if lo == 0 {
				if s >= uint64(w) {
					return c.Const(w, 0)
				}
				return c.Shl(c.Extract(a.a, w, 0), c.Const(w, s))
			}
			if lo+uint64(w) <= s {
				return c.Const(w, 0)
			}
		}
	case OLshr:
		if a.b.op == OConst && lo+uint64(w)+a.b.val <= uint64(a.w) {
			return c.Extract(a.a, w, lo+a.b.val)
		}
	case OAshr:
		if a.b.op == OConst && lo+uint64(w)+a.b.val <= uint64(a.w) {
			return c.Extract(a.a, w, lo+a.b.val)
		}
	case OIte:
		if a.b.op == OConst || a.c.op == OConst {
			return c.Ite(a.a, c.Extract(a.b, w, lo), c.Extract(a.c, w, lo))
		}
	}
	return c.un(OExtract, w, lo, a)
}

func (c *Ctx) Concat(a, b *Term) *Term { // a is high
	if a.IsConst() && a.val == 0 {
		return c.Zext(b, a.w+b.w)
	}
	return c.bin(OConcat, a.w+b.w, a, b)
}

func (c *Ctx) Not(a *Term) *Term {
	if a.op == OConst {
		return c.Bool(a.val == 0)
	}
	if a.op == OBNot {
		return a.a
	}
	switch a.op {
	case OUlt:
		return c.Ule(a.b, a.a)
	case OUle:
		return c.Ult(a.b, a.a)
	case OSlt:
		return c.Sle(a.b, a.a)
	case OSle:
		return c.Slt(a.b, a.a)
	}
	return c.un(OBNot, 0, 0, a)
}
func (c *Ctx) BAnd(a, b *Term) *Term {
	if a == c.False || b == c.False {
		return c.False
	}
	if a == c.True || a == b {
		return b
	}
	if b == c.True {
		return a
	}
	if a.op == OBNot && a.a == b || b.op == OBNot && b.a == a {
		return c.False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.bin(OBAnd, 0, a, b)
}
func (c *Ctx) BOr(a, b *Term) *Term {
	if a == c.True || b == c.True {
		return c.True
	}
	if a == c.False || a == b {
		return b
	}
	if b == c.False {
		return a
	}
	if a.op == OBNot && a.a == b || b.op == OBNot && b.a == a {
		return c.True
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.bin(OBOr, 0, a, b)
}
func (c *Ctx) Ite(p, a, b *Term) *Term {
	if p == c.True || a == b {
		return a
	}
	if p == c.False {
		return b
	}
	if p.op == OBNot {
		return c.Ite(p.a, b, a)
	}
	if a.w == 0 {
		if a == c.True && b == c.False {
			return p
		}
		if a == c.False && b == c.True {
			return c.Not(p)
		}
		if a == c.True {
			return c.BOr(p, b)
		}
		if b == c.False {
			return c.BAnd(p, a)
		}
		if a == c.False {
			return c.BAnd(c.Not(p), b)
		}
		if b == c.True {
			return c.BOr(c.Not(p), a)
		}
		return c.BOr(c.BAnd(p, a), c.BAnd(c.Not(p), b))
	}
	if b.op == OIte && b.a == p {
		b = b.c
	}
	if a.op == OIte && a.a == p {
		a = a.b
	}
	if a == b {
		return a
	}
	if p.op == OFn || a.op == OFn || b.op == OFn {
		if t := c.foldFn(OIte, a.w, 0, p, a, b); t != nil {
			return t
		}
	}
	return c.mk(OIte, a.w, 0, p, a, b)
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.w == 0 {
		if a == c.True {
			return b
		}
		if b == c.True {
			return a
		}
		if a == c.False {
			return c.Not(b)
		}
		if b == c.False {
			return c.Not(a)
		}
		return c.BOr(c.BAnd(a, b), c.BAnd(c.Not(a), c.Not(b)))
	}
	if a.op == OConst {
		a, b = b, a
	}
	if a.hi < b.lo || b.hi < a.lo {
		return c.False
	}
	if b.op == OConst {
		if a.zeros&b.val != 0 {
			return c.False
		}
		switch a.op {
		case OZext:
			if b.val > mask(a.a.w) {
				return c.False
			}
			return c.Eq(a.a, c.Const(a.a.w, b.val))
		case OAdd:
			if a.b.op == OConst {
				return c.Eq(a.a, c.Const(a.w, b.val-a.b.val))
			}
		case OXor:
			if a.b.op == OConst {
				return c.Eq(a.a, c.Const(a.w, b.val^a.b.val))
			}
			if b.val == 0 {
				return c.Eq(a.a, a.b)
			}
		case OSub:
			if b.val == 0 {
				return c.Eq(a.a, a.b)
			}
			if a.a.op == OConst {
				return c.Eq(a.b, c.Const(a.w, a.a.val-b.val))
			}
		case OIte:
			if a.b.op == OConst && a.c.op == OConst {
				return c.Ite(a.a, c.Bool(a.b.val == b.val), c.Bool(a.c.val == b.val))
			}
			if a.b.op == OConst && a.b.val != b.val {
				return c.BAnd(c.Not(a.a), c.Eq(a.c, b))
			}
			if a.c.op == OConst && a.c.val != b.val {
				return c.BAnd(a.a, c.Eq(a.b, b))
			}
		case OOr:
			if b.val == 0 {
				return c.BAnd(c.Eq(a.a, b), c.Eq(a.b, b))
			}
		}
		if a.w == 1 && b.val == 0 && a.op == OXor {
			return c.Eq(a.a, a.b)
		}
	} else {
		if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
			return c.Eq(a.a, b.a)
		}
		if a.op == OAdd && a.b.op == OConst && b.op == OAdd && b.b == a.b {
			return c.Eq(a.a, b.a)
		}
		if a.op == OAdd && b.op == OAdd && a.a == b.a {
			return c.Eq(a.b, b.b)
		}
		if a.op == OAdd && a.a == b {
			return c.Eq(a.b, c.Const(a.w, 0))
		}
		if b.op == OAdd && b.a == a {
			return c.Eq(b.b, c.Const(a.w, 0))
		}
		// x ^ k == y ^ k
		if a.op == OXor && b.op == OXor {
			if a.a == b.a {
				return c.Eq(a.b, b.b)
			}
			if a.b == b.b {
				return c.Eq(a.a, b.a)
			}
			if a.a == b.b {
				return c.Eq(a.b, b.a)
			}
			if a.b == b.a {
				return c.Eq(a.a, b.b)
			}
		}
		if a.op == OXor {
			if a.a == b {
				return c.Eq(a.b, c.Const(a.w, 0))
			}
			if a.b == b {
				return c.Eq(a.a, c.Const(a.w, 0))
			}
		}
		if b.op == OXor {
			if b.a == a {
				return c.Eq(b.b, c.Const(a.w, 0))
			}
			if b.b == a {
				return c.Eq(b.a, c.Const(a.w, 0))
			}
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return c.bin(OEq, 0, a, b)
}

func (c *Ctx) Ult(a, b *Term) *Term {
	if a == b || b.hi <= a.lo {
		return c.False
	}
	if a.hi < b.lo {
		return c.True
	}
	if a.op == OZext && b.op == OConst {
		return c.Ult(a.a, c.Const(a.a.w, b.val))
	}
	return c.bin(OUlt, 0, a, b)
}
func (c *Ctx) Ule(a, b *Term) *Term {
	if a == b || a.hi <= b.lo {
		return c.True
	}
	if b.hi < a.lo {
		return c.False
	}
	return c.bin(OUle, 0, a, b)
}
func (c *Ctx) signedRange(t *Term) (int64, int64) {
	half := mask(t.w) >> 1
	if t.hi <= half {
		return int64(t.lo), int64(t.hi)
	}
	if t.lo > half {
		return sext(t.lo, t.w), sext(t.hi, t.w)
	}
	if t.op == OSext {
		return c.signedRange(t.a)
	}
	return sext(half+1, t.w), int64(half)
}
func (c *Ctx) Slt(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	al, ah := c.signedRange(a)
	bl, bh := c.signedRange(b)
	if ah < bl {
		return c.True
	}
	if al >= bh {
		return c.False
	}
	if al >= 0 && bl >= 0 {
		return c.Ult(a, b)
	}
	return c.bin(OSlt, 0, a, b)
}
func (c *Ctx) Sle(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	al, ah := c.signedRange(a)
	bl, bh := c.signedRange(b)
	if ah <= bl {
		return c.True
	}
	if al > bh {
		return c.False
	}
	if al >= 0 && bl >= 0 {
		return c.Ule(a, b)
	}
	return c.bin(OSle, 0, a, b)
}

// ---------- variables of a term ----------

// smallVars memoises the variables of every subterm that has only a few;
// false: there are many.
func (c *Ctx) smallVars(t *Term) bool {
	if t == nil || t.varsOK {
		return true
	}
	if t.op == OConst {
		t.varsOK = true
		return true
	}
	if t.op == OVar {
		t.vars, t.varsOK = []int32{int32(t.val)}, true
		return true
	}
	if t.manyVars {
		return false
	}
	ok := c.smallVars(t.a)
	ok = c.smallVars(t.b) && ok
	ok = c.smallVars(t.c) && ok
	if !ok {
		t.manyVars = true
		return false
	}
	var out []int32
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x == nil {
			continue
		}
		if out == nil {
			out = x.vars
			continue
		}
	next:
		for _, v := range x.vars {
			for _, o := range out {
				if o == v {
					continue next
				}
			}
			out = append(out[:len(out):len(out)], v)
			if len(out) > 16 {
				t.manyVars = true
				return false
			}
		}
	}
	if len(out) > 16 {
		t.manyVars = true
		return false
	}
	t.vars, t.varsOK = out, true
	return true
}

func (c *Ctx) Vars(t *Term) []int32 {
	if t.varsOK || c.smallVars(t) {
		return t.vars
	}
	seen := map[*Term]bool{}
	var out []int32
	got := map[int32]bool{}
	var walk func(*Term)
	walk = func(x *Term) {
		if x == nil || seen[x] || x.op == OConst {
			return
		}
		seen[x] = true
		if x.varsOK {
			for _, v := range x.vars {
				if !got[v] {
					got[v] = true
					out = append(out, v)
				}
			}
			return
		}
		if x.op == OVar {
			v := int32(x.val)
			if !got[v] {
				got[v] = true
				out = append(out, v)
			}
			return
		}
		walk(x.a)
		walk(x.b)
		walk(x.c)
	}
	walk(t)
	t.vars, t.varsOK = out, true
	return out
}

// ---------- evaluation ----------

type Model map[int32]uint64

func (c *Ctx) Eval(t *Term, m Model) uint64 {
	mem := map[*Term]uint64{}
	return c.eval(t, m, mem)
}

func (c *Ctx) eval(t *Term, m Model, mem map[*Term]uint64) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OVar:
		return m[int32(t.val)]
	}
	if v, ok := mem[t]; ok {
		return v
	}
	var r uint64
	switch t.op {
	case OFn:
		r = c.tables[t.val].vals[c.eval(t.a, m, mem)&255]
	case OIte:
		if c.eval(t.a, m, mem) != 0 {
			r = c.eval(t.b, m, mem)
		} else {
			r = c.eval(t.c, m, mem)
		}
	case OBAnd:
		r = c.eval(t.a, m, mem)
		if r != 0 {
			r = c.eval(t.b, m, mem)
		}
	case OBOr:
		r = c.eval(t.a, m, mem)
		if r == 0 {
			r = c.eval(t.b, m, mem)
		}
	default:
		var a, b, d uint64
		var wa, wb uint8
		if t.a != nil {
			a = c.eval(t.a, m, mem)
			wa = t.a.w
		}
		if t.b != nil {
			b = c.eval(t.b, m, mem)
			wb = t.b.w
		}
		if t.c != nil {
			d = c.eval(t.c, m, mem)
		}
		r = evalOp(t.op, t.w, wa, wb, t.val, a, b, d)
	}
	mem[t] = r
	return r
}

var opNames = map[Op]string{OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv",
	OSRem: "bvsrem", OAnd: "bvand", OOr: "bvor", OXor: "bvxor", ONot: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr",
	OConcat: "concat", OIte: "ite", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OBNot: "not", OBAnd: "and", OBOr: "or"}

func (t *Term) String() string {
	return t.str(4)
}
func (t *Term) str(d int) string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			return fmt.Sprint(t.val != 0)
		}
		return fmt.Sprintf("%d:%d", t.val, t.w)
	case OVar:
		return fmt.Sprintf("v%d", t.val)
	}
	if d == 0 {
		return fmt.Sprintf("t%d", t.id)
	}
	n := opNames[t.op]
	switch t.op {
	case OExtract:
		n = fmt.Sprintf("ext[%d+%d]", t.val, t.w)
	case OZext:
		n = fmt.Sprintf("zext%d", t.w)
	case OSext:
		n = fmt.Sprintf("sext%d", t.w)
	case OFn:
		n = fmt.Sprintf("fn%d", t.val)
	}
	s := "(" + n
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			s += " " + x.str(d-1)
		}
	}
	return s + ")"
}
