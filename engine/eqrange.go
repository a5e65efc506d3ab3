package main

// Equality of long ranges without unrolling: both sides are flattened into
// pieces over simple bases; only positions where the bases may differ, and
// positions hit by a symbolic-index write, are compared one by one.

const maxUnroll = 70000

// eqPiece is a part of a range whose elements come, each of them, from one of
// the alternatives (none: unknown).
type eqPiece struct {
	at, n uint64
	alts  []eqAlt
}

type eqAlt struct {
	base *SArr
	off  uint64 // of the piece's first element
}

type eqFlat struct {
	c      *Ctx
	sub    map[*Term]uint64
	pieces []eqPiece
	stores []*Term // positions (relative to the range) of symbolic writes
}

func (f *eqFlat) subst(t *Term) *Term {
	if t.IsConst() {
		return t
	}
	if v, ok := f.sub[t]; ok {
		return f.c.Const(t.w, v)
	}
	switch t.op {
	case OAdd:
		return f.c.Add(f.subst(t.a), f.subst(t.b))
	case OSub:
		return f.c.Sub(f.subst(t.a), f.subst(t.b))
	case OZext:
		return f.c.Zext(f.subst(t.a), t.w)
	}
	return t
}

// solveEq records what t == v says about the parts of t.
func solveEq(t *Term, v uint64, sub map[*Term]uint64) {
	for !t.IsConst() {
		sub[t] = v
		switch {
		case t.op == OAdd && t.b.IsConst():
			t, v = t.a, (v-t.b.val)&mask(t.w)
		case t.op == OAdd && t.a.IsConst():
			t, v = t.b, (v-t.a.val)&mask(t.w)
		case t.op == OSub && t.b.IsConst():
			t, v = t.a, (v+t.b.val)&mask(t.w)
		case t.op == OZext:
			t = t.a
		default:
			return
		}
	}
}

func (f *eqFlat) emit(at, n uint64, base *SArr, off uint64) {
	if n > 0 {
		var alts []eqAlt
		if base != nil {
			alts = []eqAlt{{base, off}}
		}
		f.pieces = append(f.pieces, eqPiece{at, n, alts})
	}
}

// either merges two descriptions of the same range.
func either(x, y []eqPiece) []eqPiece {
	var r []eqPiece
	for len(x) > 0 && len(y) > 0 {
		a, b := x[0], y[0]
		end := min(a.at+a.n, b.at+b.n)
		p := eqPiece{at: a.at, n: end - a.at}
		if a.alts != nil && b.alts != nil && len(a.alts)+len(b.alts) <= 8 {
			p.alts = append(append(p.alts, a.alts...), b.alts...)
		}
		r = append(r, p)
		x, y = a.cut(end, x), b.cut(end, y)
	}
	return r
}

// cut drops what lies before end from the first piece.
func (p eqPiece) cut(end uint64, ps []eqPiece) []eqPiece {
	d := end - p.at
	if d == p.n {
		return ps[1:]
	}
	alts := append([]eqAlt(nil), p.alts...)
	for i := range alts {
		alts[i].off += d
	}
	return append([]eqPiece{{end, p.n - d, alts}}, ps[1:]...)
}

// flat describes a[off..off+n) as range positions at..at+n, in order.
func (f *eqFlat) flat(a *SArr, off, at, n uint64) {
	for n > 0 {
		switch a.kind {
		case aZero, aStr, aSym:
			f.emit(at, n, a, off)
			return
		case aStore:
			ix := f.subst(a.idx)
			if ix.hi >= off && ix.lo < off+n {
				f.stores = append(f.stores, f.c.Add(ix, f.c.Const(64, at-off)))
			}
			a = a.parent
		case aVec:
			pos := off
			for pos < off+n && pos < 1<<32 {
				// next written element
				next, ok := vecNext(a.vec, uint32(pos))
				if !ok || uint64(next) >= off+n {
					break
				}
				f.flat(a.parent, pos, at+pos-off, uint64(next)-pos)
				f.emit(at+uint64(next)-off, 1, nil, 0)
				pos = uint64(next) + 1
			}
			at, n, off = at+pos-off, off+n-pos, pos
			a = a.parent
		case aBlit:
			d, s, k := f.subst(a.doff), f.subst(a.soff), f.subst(a.cnt)
			if !d.IsConst() || !s.IsConst() || !k.IsConst() || d.val+k.val < d.val {
				if !d.IsConst() || !s.IsConst() || off < d.val {
					f.emit(at, n, nil, 0)
					return
				}
				// an unknown number of elements comes from the source
				g, h := &eqFlat{c: f.c, sub: f.sub}, &eqFlat{c: f.c, sub: f.sub}
				g.flat(a.src, s.val+off-d.val, at, n)
				h.flat(a.parent, off, at, n)
				f.pieces = append(f.pieces, either(g.pieces, h.pieces)...)
				f.stores = append(append(f.stores, g.stores...), h.stores...)
				return
			}
			lo, hi, end := d.val, d.val+k.val, off+n
			if lo < off {
				lo = off
			}
			if hi > end {
				hi = end
			}
			if lo >= hi {
				a = a.parent
				continue
			}
			f.flat(a.parent, off, at, lo-off)
			f.flat(a.src, s.val+lo-d.val, at+lo-off, hi-lo)
			at, n, off = at+hi-off, end-hi, hi
			a = a.parent
		}
	}
}

func constBase(a *SArr) bool { return a.kind == aZero || a.kind == aStr }

func constAt(a *SArr, i uint64) byte {
	if a.kind == aStr && i < uint64(len(a.str)) {
		return a.str[i]
	}
	return 0
}

// eqLong is EqRange for constant offsets and length.
func (c *Ctx) eqLong(a *SArr, ao uint64, b *SArr, bo, n uint64, sub map[*Term]uint64) *Term {
	fa, fb := &eqFlat{c: c, sub: sub}, &eqFlat{c: c, sub: sub}
	fa.flat(a, ao, 0, n)
	fb.flat(b, bo, 0, n)
	var conj []*Term
	work := 0
	at := func(pos *Term) *Term {
		return c.Eq(c.Read(a, c.Add(c.Const(64, ao), pos)), c.Read(b, c.Add(c.Const(64, bo), pos)))
	}
	for x, y := fa.pieces, fb.pieces; len(x) > 0; {
		u, v := x[0], y[0]
		end := min(u.at+u.n, v.at+v.n)
		for d := uint64(0); d < end-u.at; d++ {
			eq, rest := altsEqual(u.alts, v.alts, d)
			if rest {
				break
			}
			if eq {
				continue
			}
			if work++; work > maxUnroll {
				panic(unsupported("comparison of long ranges"))
			}
			e := at(c.Const(64, u.at+d))
			if e == c.False {
				return e
			}
			if e != c.True {
				conj = append(conj, e)
			}
		}
		x, y = u.cut(end, x), v.cut(end, y)
	}
	for _, s := range append(fa.stores, fb.stores...) {
		conj = append(conj, c.BOr(c.Ule(c.Const(64, n), s), at(s)))
	}
	return c.conj(conj)
}

// conj is the conjunction of ts, as a balanced tree.
func (c *Ctx) conj(ts []*Term) *Term {
	if len(ts) == 0 {
		return c.True
	}
	if len(ts) == 1 {
		return ts[0]
	}
	m := len(ts) / 2
	return c.BAnd(c.conj(ts[:m]), c.conj(ts[m:]))
}

// altsEqual tells whether the elements at d surely agree; rest: all following
// ones do as well.
func altsEqual(x, y []eqAlt, d uint64) (eq, rest bool) {
	if len(x) == 0 || len(y) == 0 {
		return false, false
	}
	eq, rest = true, true
	for _, a := range x {
		for _, b := range y {
			switch {
			case a.off == b.off && (a.base == b.base || a.base.kind == aSym && b.base.kind == aSym && a.base.sym == b.base.sym):
			case a.base.kind == aZero && b.base.kind == aZero:
			case constBase(a.base) && constBase(b.base):
				rest = false
				eq = eq && constAt(a.base, a.off+d) == constAt(b.base, b.off+d)
			default:
				return false, false
			}
		}
	}
	return eq, rest
}
