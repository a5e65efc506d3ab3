package main

// Symbolic arrays of scalars: immutable, layered.

type akind uint8

const (
	aZero  akind = iota
	aStr         // constant bytes
	aSym         // unconstrained symbolic base
	aVec         // concrete-index writes over parent
	aBlit        // block copy over parent
	aStore       // one symbolic-index write over parent
)

type SArr struct {
	kind            akind
	ew              uint8
	n               int64 // length if known, else -1
	str             string
	sym             *SymBase
	parent          *SArr
	vec             pvec[*Term]
	doff, soff, cnt *Term
	src             *SArr
	idx, val        *Term
	depth           int
}

// SymBase is an unconstrained array; reads are Ackermann-expanded lazily.
type SymBase struct {
	name  string
	ew    uint8
	konst map[uint64]*Term
	memo  map[*Term]*Term
	reads []symRead
	syms  int // number of reads at non-constant index
}
type symRead struct{ idx, val *Term }

func (c *Ctx) ZeroArr(ew uint8, n int64) *SArr { return &SArr{kind: aZero, ew: ew, n: n} }
func (c *Ctx) StrArr(s string) *SArr           { return &SArr{kind: aStr, ew: 8, n: int64(len(s)), str: s} }
func SymArr(b *SymBase, n int64) *SArr         { return &SArr{kind: aSym, ew: b.ew, n: n, sym: b} }

func (c *Ctx) symBaseRead(b *SymBase, idx *Term) *Term {
	if idx.IsConst() {
		if t, ok := b.konst[idx.val]; ok {
			return t
		}
	} else if t, ok := b.memo[idx]; ok {
		return t
	}
	v := c.Var(b.name+"["+idx.String()+"]", b.ew)
	if !idx.IsConst() || b.syms > 0 {
		for i := range b.reads { // earliest read ends up innermost
			r := b.reads[i]
			eq := c.Eq(idx, r.idx)
			v = c.Ite(eq, r.val, v)
		}
	}
	b.reads = append(b.reads, symRead{idx, v})
	if idx.IsConst() {
		b.konst[idx.val] = v
	} else {
		b.memo[idx] = v
		b.syms++
	}
	return v
}

// maxChain bounds the number of candidate positions of a symbolic-index read.
const maxChain = 2048

// Read returns element idx (64-bit term).
func (c *Ctx) Read(a *SArr, idx *Term) *Term {
	if idx.IsConst() {
		return c.readConst(a, idx.val)
	}
	return c.readSym(a, idx)
}

func (c *Ctx) readConst(a *SArr, i uint64) *Term {
	for {
		switch a.kind {
		case aZero:
			return c.Const(a.ew, 0)
		case aStr:
			if i < uint64(len(a.str)) {
				return c.Const(8, uint64(a.str[i]))
			}
			return c.Const(8, 0)
		case aSym:
			return c.symBaseRead(a.sym, c.Const(64, i))
		case aVec:
			if i < 1<<32 {
				if t, ok := a.vec.get(uint32(i)); ok && t != nil {
					return t
				}
			}
			a = a.parent
		case aBlit:
			if a.doff.IsConst() && a.cnt.IsConst() {
				if rel := i - a.doff.val; rel >= a.cnt.val {
					a = a.parent
					continue
				} else if a.soff.IsConst() {
					a, i = a.src, rel+a.soff.val
					continue
				}
			}
			it := c.Const(64, i)
			rel := c.Sub(it, a.doff)
			in := c.Ult(rel, a.cnt)
			if in == c.True {
				j := c.Add(rel, a.soff)
				if j.IsConst() {
					a, i = a.src, j.val
					continue
				}
				return c.readSym(a.src, j)
			}
			if in == c.False {
				a = a.parent
				continue
			}
			return c.Ite(in, c.Read(a.src, c.Add(rel, a.soff)), c.readConst(a.parent, i))
		case aStore:
			eq := c.Eq(a.idx, c.Const(64, i))
			if eq == c.True {
				return a.val
			}
			if eq == c.False {
				a = a.parent
				continue
			}
			return c.Ite(eq, a.val, c.readConst(a.parent, i))
		}
	}
}

// fillConst stores a[off:off+len(dst)] into dst if all of it is constant.
func (c *Ctx) fillConst(a *SArr, off uint64, dst []byte) bool {
	for len(dst) > 0 {
		switch a.kind {
		case aZero:
			for i := range dst {
				dst[i] = 0
			}
			return true
		case aStr:
			n := 0
			if off < uint64(len(a.str)) {
				n = copy(dst, a.str[off:])
			}
			for i := n; i < len(dst); i++ {
				dst[i] = 0
			}
			return true
		case aVec:
			// runs of unwritten elements come from the parent
			run := 0
			for i := 0; i <= len(dst); i++ {
				var t *Term
				if i < len(dst) && off+uint64(i) < 1<<32 {
					if x, ok := a.vec.get(uint32(off + uint64(i))); ok {
						t = x
					}
				}
				if t == nil && i < len(dst) {
					continue
				}
				if i > run && !c.fillConst(a.parent, off+uint64(run), dst[run:i]) {
					return false
				}
				run = i + 1
				if t != nil {
					if !t.IsConst() {
						return false
					}
					dst[i] = byte(t.val)
				}
			}
			return true
		case aBlit:
			if a.doff.IsConst() && a.cnt.IsConst() && a.soff.IsConst() {
				lo, hi := a.doff.val, a.doff.val+a.cnt.val
				end := off + uint64(len(dst))
				if hi < lo || end < off {
					return false
				}
				if lo < off {
					lo = off
				}
				if hi > end {
					hi = end
				}
				if lo >= hi {
					a = a.parent
					continue
				}
				if !c.fillConst(a.src, a.soff.val+lo-a.doff.val, dst[lo-off:hi-off]) {
					return false
				}
				if hi < end && !c.fillConst(a.parent, hi, dst[hi-off:]) {
					return false
				}
				dst = dst[:lo-off]
				a = a.parent
				continue
			}
			fallthrough
		default:
			for i := range dst {
				t := c.readConst(a, off+uint64(i))
				if !t.IsConst() {
					return false
				}
				dst[i] = byte(t.val)
			}
			return true
		}
	}
	return true
}

func (c *Ctx) readSym(a *SArr, idx *Term) *Term {
	switch a.kind {
	case aZero:
		return c.Const(a.ew, 0)
	case aSym:
		return c.symBaseRead(a.sym, idx)
	case aBlit:
		rel := c.Sub(idx, a.doff)
		in := c.Ult(rel, a.cnt)
		if in == c.True {
			return c.Read(a.src, c.Add(rel, a.soff))
		}
		if in == c.False {
			return c.Read(a.parent, idx)
		}
		return c.Ite(in, c.Read(a.src, c.Add(rel, a.soff)), c.Read(a.parent, idx))
	case aStore:
		return c.Ite(c.Eq(a.idx, idx), a.val, c.readSym(a.parent, idx))
	}
	// aStr or aVec: gather the candidate range
	lo, hi := idx.lo, idx.hi
	if a.n >= 0 {
		if a.n == 0 {
			return c.Const(a.ew, 0)
		}
		hi = min(hi, uint64(a.n-1))
	}
	if lo > hi {
		return c.Const(a.ew, 0)
	}
	if hi-lo < 256 && hi < 256 {
		var vals [256]uint64
		all := true
		for i := lo; i <= hi; i++ {
			t := c.readConst(a, i)
			if !t.IsConst() {
				all = false
				break
			}
			vals[i] = t.val
		}
		if all {
			return c.Lookup(a.ew, &vals, idx)
		}
	}
	if a.kind == aVec {
		// ite over the overwritten entries, falling back to the parent
		var ents []symRead
		a.vec.each(func(i uint32, t *Term) {
			if t != nil && uint64(i) >= lo && uint64(i) <= hi {
				ents = append(ents, symRead{c.Const(64, uint64(i)), t})
			}
		})
		if len(ents) > maxChain {
			panic(unsupported("symbolic index into a large array"))
		}
		var r *Term
		if uint64(len(ents)) == hi-lo+1 {
			r = ents[len(ents)-1].val
		} else {
			r = c.readSym(a.parent, idx)
		}
		for _, e := range ents {
			r = c.Ite(c.Eq(idx, e.idx), e.val, r)
		}
		return r
	}
	if hi-lo >= maxChain {
		panic(unsupported("symbolic index into a large constant"))
	}
	r := c.readConst(a, hi)
	for i := lo; i < hi; i++ {
		r = c.Ite(c.Eq(idx, c.Const(64, i)), c.readConst(a, i), r)
	}
	return r
}

func (c *Ctx) Write(a *SArr, idx, val *Term) *SArr {
	if idx.IsConst() && idx.val < 1<<32 {
		b := &SArr{kind: aVec, ew: a.ew, n: a.n}
		if a.kind == aVec {
			b.parent, b.vec = a.parent, a.vec
		} else {
			b.parent = a
		}
		b.vec = b.vec.set(uint32(idx.val), val, nil)
		return b
	}
	return &SArr{kind: aStore, ew: a.ew, n: a.n, parent: a, idx: idx, val: val}
}

// Blit copies cnt elements src[soff..] to dst[doff..].
func (c *Ctx) Blit(dst *SArr, doff *Term, src *SArr, soff, cnt *Term) *SArr {
	if cnt.IsConst() && cnt.val == 0 {
		return dst
	}
	if cnt.IsConst() && doff.IsConst() && soff.IsConst() && cnt.val <= 64 {
		out := dst
		for i := uint64(0); i < cnt.val; i++ {
			out = c.Write(out, c.Const(64, doff.val+i), c.readConst(src, soff.val+i))
		}
		return out
	}
	src, soff = c.normalize(src, soff, cnt)
	// full overwrite of a concrete-size array: drop the parent
	parent := dst
	if dst.n >= 0 && doff.IsConst() && doff.val == 0 && cnt.IsConst() && int64(cnt.val) == dst.n {
		parent = c.ZeroArr(dst.ew, dst.n)
	}
	return &SArr{kind: aBlit, ew: dst.ew, n: dst.n, parent: parent, doff: doff, cnt: cnt, src: src, soff: soff}
}

// normalize resolves [off,off+cnt) of a through covering blits.
func (c *Ctx) normalize(a *SArr, off, cnt *Term) (*SArr, *Term) {
	for a.kind == aBlit {
		if off == a.doff && cnt == a.cnt {
			a, off = a.src, a.soff
			continue
		}
		if off.IsConst() && cnt.IsConst() && a.doff.IsConst() && a.cnt.IsConst() {
			if off.val >= a.doff.val && off.val+cnt.val <= a.doff.val+a.cnt.val {
				a, off = a.src, c.Add(c.Const(64, off.val-a.doff.val), a.soff)
				continue
			}
			if off.val+cnt.val <= a.doff.val || off.val >= a.doff.val+a.cnt.val {
				a = a.parent
				continue
			}
		}
		// a sub-range starting at the blit's start
		if off == a.doff && c.Ule(cnt, a.cnt) == c.True {
			a, off = a.src, a.soff
			continue
		}
		break
	}
	return a, off
}

// EqRange is the term "a[ao..ao+n) == b[bo..bo+n)".
func (c *Ctx) EqRange(a *SArr, ao *Term, b *SArr, bo, n *Term) *Term {
	return c.eqRange(a, ao, b, bo, n, nil)
}

func (c *Ctx) eqRange(a *SArr, ao *Term, b *SArr, bo, n *Term, sub map[*Term]uint64) *Term {
	a, ao = c.normalize(a, ao, n)
	b, bo = c.normalize(b, bo, n)
	if ao == bo && (a == b || a.kind == aSym && b.kind == aSym && a.sym == b.sym) {
		return c.True
	}
	if n.IsConst() {
		if a.ew == 8 && n.val > 32 && ao.IsConst() && bo.IsConst() {
			x, y := make([]byte, n.val), make([]byte, n.val)
			if c.fillConst(a, ao.val, x) && c.fillConst(b, bo.val, y) {
				return c.Bool(string(x) == string(y))
			}
		}
		if n.val > 64 && ao.IsConst() && bo.IsConst() {
			return c.eqLong(a, ao.val, b, bo.val, n.val, sub)
		}
		if n.val > maxUnroll {
			panic(unsupported("comparison of long ranges at symbolic offsets"))
		}
		r := c.True
		for i := uint64(0); i < n.val; i++ {
			it := c.Const(64, i)
			e := c.Eq(c.Read(a, c.Add(ao, it)), c.Read(b, c.Add(bo, it)))
			if e == c.False {
				return e
			}
			r = c.BAnd(r, e)
		}
		return r
	}
	if n.hi > 4200 {
		panic(unsupported("comparison of long symbolic-length ranges"))
	}
	r := c.True
	for i := uint64(0); i < n.hi; i++ {
		it := c.Const(64, i)
		e := c.Eq(c.Read(a, c.Add(ao, it)), c.Read(b, c.Add(bo, it)))
		r = c.BAnd(r, c.BOr(c.Ule(n, it), e))
	}
	return r
}

type unsupportedErr struct{ msg string }

func unsupported(msg string) *unsupportedErr { return &unsupportedErr{msg} }
func (u *unsupportedErr) Error() string      { return u.msg }
