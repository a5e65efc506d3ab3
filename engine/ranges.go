package main

import "math/rand"

// Cheap interval reasoning over the path constraints: it answers branch
// conditions whose outcome follows from recorded bounds, sparing a query.

type urange struct{ lo, hi uint64 }

func (st *State) rangeOf(t *Term, depth int) urange {
	r := urange{t.lo, t.hi}
	if t.op == OConst {
		return r
	}
	if q, ok := st.rng[t]; ok {
		r = meet(r, q)
	}
	if depth > 6 || t.w == 0 {
		return r
	}
	switch t.op {
	case OZext:
		r = meet(r, st.rangeOf(t.a, depth+1))
	case OAdd:
		a, b := st.rangeOf(t.a, depth+1), st.rangeOf(t.b, depth+1)
		m := mask(t.w)
		switch {
		case a.hi <= m-b.hi: // no wrap
			r = meet(r, urange{a.lo + b.lo, a.hi + b.hi})
		case b.lo == b.hi && a.lo+b.lo < a.lo || b.lo == b.hi && (a.lo+b.lo)&m < a.lo: // always wraps
			r = meet(r, urange{(a.lo + b.lo) & m, (a.hi + b.lo) & m})
		}
	case OSub:
		a, b := st.rangeOf(t.a, depth+1), st.rangeOf(t.b, depth+1)
		if a.lo >= b.hi {
			r = meet(r, urange{a.lo - b.hi, a.hi - b.lo})
		}
	case OIte:
		a, b := st.rangeOf(t.b, depth+1), st.rangeOf(t.c, depth+1)
		if a.lo > b.lo {
			a.lo = b.lo
		}
		if a.hi < b.hi {
			a.hi = b.hi
		}
		r = meet(r, a)
	}
	return r
}

func meet(a, b urange) urange {
	c := a
	if b.lo > c.lo {
		c.lo = b.lo
	}
	if b.hi < c.hi {
		c.hi = b.hi
	}
	if c.lo > c.hi { // inconsistent path: keep the first, the solver will tell
		return a
	}
	return c
}

func (st *State) setRange(t *Term, lo, hi uint64, depth int) {
	if t.op == OConst || lo > hi || depth > 6 {
		return
	}
	old := st.rangeOf(t, 0)
	n := meet(old, urange{lo, hi})
	if n == old {
		return
	}
	if st.rng == nil {
		st.rng = map[*Term]urange{}
	}
	st.rng[t] = n
	switch t.op {
	case OZext:
		st.setRange(t.a, n.lo, n.hi, depth+1)
	case OAdd:
		if t.b.op == OConst {
			a := st.rangeOf(t.a, 0)
			m := mask(t.w)
			k := t.b.val
			if a.hi <= m-k { // no wrap
				lo, hi := uint64(0), n.hi-k
				if n.lo > k {
					lo = n.lo - k
				}
				if n.hi >= k {
					st.setRange(t.a, lo, hi, depth+1)
				}
			} else if (a.lo+k)&m < a.lo { // always wraps: a = t + (2^w - k)
				d := (m - k + 1) & m
				if n.hi <= m-d {
					st.setRange(t.a, n.lo+d, n.hi+d, depth+1)
				}
			}
		}
	}
}

// learnRange records the bounds implied by cond (value val).
func (st *State) learnRange(c *Term, val bool) {
	switch c.op {
	case OBNot:
		st.learnRange(c.a, !val)
		return
	case OBAnd:
		if val {
			st.learnRange(c.a, true)
			st.learnRange(c.b, true)
		}
		return
	case OBOr:
		if !val {
			st.learnRange(c.a, false)
			st.learnRange(c.b, false)
		}
		return
	case OEq:
		if c.a.w == 0 {
			return
		}
		a, b := st.rangeOf(c.a, 0), st.rangeOf(c.b, 0)
		if val {
			st.setRange(c.a, b.lo, b.hi, 0)
			st.setRange(c.b, a.lo, a.hi, 0)
			return
		}
		if b.lo == b.hi {
			if a.lo == b.lo && a.lo < a.hi {
				st.setRange(c.a, a.lo+1, a.hi, 0)
			} else if a.hi == b.lo && a.lo < a.hi {
				st.setRange(c.a, a.lo, a.hi-1, 0)
			}
		}
		return
	case OUlt, OUle, OSlt, OSle:
	default:
		return
	}
	x, y := c.a, c.b
	strict := c.op == OUlt || c.op == OSlt
	a, b := st.rangeOf(x, 0), st.rangeOf(y, 0)
	if c.op == OSlt || c.op == OSle {
		half := mask(x.w) >> 1
		if b.lo > half && b.hi > half || a.lo > half && a.hi > half {
			return
		}
		if a.hi > half || b.hi > half {
			// x >= k >= 0 (signed) means x is in [k, half]
			if !val && b.hi <= half { // x >= y
				lo := b.lo
				if !strict {
					lo++
				}
				st.setRange(x, lo, half, 0)
			}
			if val && a.hi <= half { // y >= x
				lo := a.lo
				if strict {
					lo++
				}
				st.setRange(y, lo, half, 0)
			}
			return
		}
	}
	if !val { // y < x or y <= x
		x, y, a, b = y, x, b, a
		strict = !strict
	}
	d := uint64(0)
	if strict {
		d = 1
	}
	if b.hi >= d {
		st.setRange(x, a.lo, b.hi-d, 0)
	}
	if a.lo+d >= a.lo {
		st.setRange(y, a.lo+d, b.hi, 0)
	}
}

// byRange decides c from the recorded bounds.
func (st *State) byRange(c *Term, depth int) (val, ok bool) {
	if c.op == OConst {
		return c.val != 0, true
	}
	if v, ok := st.known[c]; ok {
		return v, true
	}
	if depth > 8 {
		return false, false
	}
	switch c.op {
	case OBNot:
		v, ok := st.byRange(c.a, depth+1)
		return !v, ok
	case OBAnd, OBOr:
		v, ok := st.byRange(c.a, depth+1)
		w, ok2 := st.byRange(c.b, depth+1)
		and := c.op == OBAnd
		if ok && v != and {
			return !and, true
		}
		if ok2 && w != and {
			return !and, true
		}
		return and, ok && ok2
	case OEq:
		if c.a.w == 0 {
			return false, false
		}
		a, b := st.rangeOf(c.a, 0), st.rangeOf(c.b, 0)
		if a.hi < b.lo || b.hi < a.lo {
			return false, true
		}
		if a.lo == a.hi && b.lo == b.hi && a.lo == b.lo {
			return true, true
		}
	case OUlt, OUle, OSlt, OSle:
		a, b := st.rangeOf(c.a, 0), st.rangeOf(c.b, 0)
		if c.op == OSlt || c.op == OSle {
			half := mask(c.a.w) >> 1
			an, bn := a.lo > half, b.lo > half // surely negative
			ap, bp := a.hi <= half, b.hi <= half
			if an && bp {
				return true, true
			}
			if ap && bn {
				return false, true
			}
			if !(ap && bp) && !(an && bn) {
				return false, false
			}
		}
		if c.op == OUlt || c.op == OSlt {
			if a.hi < b.lo {
				return true, true
			}
			if a.lo >= b.hi {
				return false, true
			}
		} else {
			if a.hi <= b.lo {
				return true, true
			}
			if a.lo > b.hi {
				return false, true
			}
		}
	}
	return false, false
}

// diversify replaces the (mostly zero) model of a finished path by a more
// random one that still satisfies the path constraints, for validation.
func (st *State) diversify(seed int64) {
	rnd := rand.New(rand.NewSource(seed))
	byVar := map[int32][]*Term{}
	cost := map[*Term]int{}
	work := 4000000
	for _, p := range st.pc {
		vs := st.c.Vars(p)
		cost[p] = len(vs)
		for _, v := range vs {
			byVar[v] = append(byVar[v], p)
		}
	}
	m := make(Model, len(st.model))
	for k, v := range st.model {
		m[k] = v
	}
	for round := 0; round < 2; round++ {
		for i := range st.c.vars {
			v := int32(i)
			vi := st.c.vars[i]
			ps := byVar[v]
			if len(ps) > 64 || vi.w > 8 {
				continue
			}
			for _, p := range ps {
				work -= cost[p]
			}
			if work < 0 {
				round = 2
				break
			}
			old := m[v]
			m[v] = rnd.Uint64() & mask(vi.w)
			if vi.w == 0 {
				m[v] &= 1
			}
			mem := map[*Term]uint64{}
			for _, p := range ps {
				if st.c.eval(p, m, mem) == 0 {
					m[v] = old
					break
				}
			}
		}
	}
	for _, p := range st.pc { // never leave the path
		if st.c.Eval(p, m) == 0 {
			return
		}
	}
	st.model, st.evalMem = m, nil
}
