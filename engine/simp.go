package main

// Path-sensitive simplification: variables that the path constraints force to
// a single value ("pinned") are substituted, and terms rebuilt.

// apply rebuilds an operation through the simplifying constructors.
func (c *Ctx) apply(t *Term, a, b, d *Term) *Term {
	switch t.op {
	case OAdd:
		return c.Add(a, b)
	case OSub:
		return c.Sub(a, b)
	case OMul:
		return c.Mul(a, b)
	case OUDiv:
		return c.UDiv(a, b)
	case OURem:
		return c.URem(a, b)
	case OSDiv:
		return c.SDiv(a, b)
	case OSRem:
		return c.SRem(a, b)
	case OAnd:
		return c.And(a, b)
	case OOr:
		return c.Or(a, b)
	case OXor:
		return c.Xor(a, b)
	case ONot:
		return c.NotBV(a)
	case ONeg:
		return c.Neg(a)
	case OShl:
		return c.Shl(a, b)
	case OLshr:
		return c.Lshr(a, b)
	case OAshr:
		return c.Ashr(a, b)
	case OConcat:
		return c.Concat(a, b)
	case OExtract:
		return c.Extract(a, t.w, t.val)
	case OZext:
		return c.Zext(a, t.w)
	case OSext:
		return c.Sext(a, t.w)
	case OIte:
		return c.Ite(a, b, d)
	case OEq:
		return c.Eq(a, b)
	case OUlt:
		return c.Ult(a, b)
	case OUle:
		return c.Ule(a, b)
	case OSlt:
		return c.Slt(a, b)
	case OSle:
		return c.Sle(a, b)
	case OBNot:
		return c.Not(a)
	case OBAnd:
		return c.BAnd(a, b)
	case OBOr:
		return c.BOr(a, b)
	case OFn:
		return c.mkFn(t.w, &c.tables[t.val].vals, a)
	}
	panic("apply")
}

func (c *Ctx) subst(t *Term, vals map[int32]uint64, mem map[*Term]*Term) *Term {
	switch t.op {
	case OConst:
		return t
	case OVar:
		if v, ok := vals[int32(t.val)]; ok {
			return c.Const(t.w, v)
		}
		return t
	}
	if r, ok := mem[t]; ok {
		return r
	}
	hit := false
	for _, v := range c.Vars(t) {
		if _, ok := vals[v]; ok {
			hit = true
			break
		}
	}
	r := t
	if hit {
		var a, b, d *Term
		if t.a != nil {
			a = c.subst(t.a, vals, mem)
		}
		if t.op == OIte && a.op == OConst { // only the live branch
			if a.val != 0 {
				r = c.subst(t.b, vals, mem)
			} else {
				r = c.subst(t.c, vals, mem)
			}
			mem[t] = r
			return r
		}
		if t.b != nil {
			b = c.subst(t.b, vals, mem)
		}
		if t.c != nil {
			d = c.subst(t.c, vals, mem)
		}
		if a != t.a || b != t.b || d != t.c {
			r = c.apply(t, a, b, d)
		}
	}
	mem[t] = r
	return r
}

// simp rewrites t under the pinned variables of the path.
func (st *State) simp(t *Term) *Term {
	if t.op == OConst || len(st.pins) == 0 {
		return t
	}
	if st.simpMem == nil {
		st.simpMem = map[*Term]*Term{}
	}
	return st.c.subst(t, st.pins, st.simpMem)
}

func (st *State) pin(v int32, val uint64) {
	n := make(map[int32]uint64, len(st.pins)+1)
	for k, x := range st.pins {
		n[k] = x
	}
	n[v] = val
	st.pins = n
	st.simpMem = nil
	t := st.c.vars[v].t
	st.setRange(t, val, val, 0)
}

// pinCheck looks for variables of cond that the path now forces to one value.
func (st *State) pinCheck(cond *Term) {
	for _, v := range st.c.Vars(cond) {
		vi := &st.c.vars[v]
		if !vi.pin {
			continue
		}
		if _, ok := st.pins[v]; ok {
			continue
		}
		r := st.rangeOf(vi.t, 0)
		if r.lo == r.hi {
			st.pin(v, r.lo)
			continue
		}
		if r.hi-r.lo > 1<<20 {
			continue
		}
		val := st.model[v]
		res, _ := st.feasible(st.c.Not(st.c.Eq(vi.t, st.c.Const(vi.w, val))))
		if res == Unsat {
			st.pin(v, val)
		}
	}
}
