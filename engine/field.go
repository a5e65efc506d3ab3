package main

// Arithmetic modulo p = 2^255-19: limb vectors are proved against the integers
// they stand for (intenc.go), and on top of these contracts whole computations
// are followed as products of powers of polynomials.

import (
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

const vfePath = "github.com/kisom/psignify/internal/vfe"
const fePath = "github.com/kisom/psignify/signify/internal/edwards25519"

var fieldP = new(big.Int).Sub(pow2(255), big.NewInt(19))
var fieldE = [10]uint{0, 26, 51, 77, 102, 128, 153, 179, 204, 230}

type feBound struct{ lo, hi int64 }

// fieldState is the field part of a state; values are immutable once recorded.
type fieldState struct {
	bounds map[*Term]feBound // limb variables
	cut    bool
	vecs   []*feVec
	bytes  []*feBytes
	from   []*feFrom
	fresh  int
	err    string
}

type feVec struct {
	limb [10]*Term
	val  *fexp
}
type feFrom struct {
	src [32]*Term
	val *fexp
}
type feBytes struct {
	out [32]*Term
	val *fexp
}

func (st *State) fld() *fieldState {
	if st.field == nil {
		st.field = &fieldState{bounds: map[*Term]feBound{}}
	}
	return st.field
}

func (f *fieldState) clone() *fieldState {
	if f == nil {
		return nil
	}
	g := *f
	g.bounds = cloneMap(f.bounds)
	g.vecs = append([]*feVec(nil), f.vecs...)
	g.bytes = append([]*feBytes(nil), f.bytes...)
	g.from = append([]*feFrom(nil), f.from...)
	return &g
}

func (f *fieldState) bound(t *Term) (lo, hi *big.Int, ok bool) {
	b, ok := f.bounds[t]
	if !ok {
		return nil, nil, false
	}
	return big.NewInt(b.lo), big.NewInt(b.hi), true
}

// ---- limb level

func limbBound(i int, even, odd int64) int64 {
	if i%2 == 0 {
		return even
	}
	return odd
}

func (st *State) limbTerms(v Value, n int) []*Term {
	s := v.(*SliceV)
	if !s.len.IsConst() || int(s.len.val) != n {
		panic(unsupported("slice of unexpected length"))
	}
	a := st.sliceArr(s)
	out := make([]*Term, n)
	for i := range out {
		out[i] = st.c.Read(a, st.c.Add(s.off, st.c.Const(64, uint64(i))))
	}
	return out
}

func (en *ienc) value(l []*ilin) *ilin {
	r := icon(new(big.Int))
	for i, x := range l {
		r = r.plus(x, pow2(fieldE[i]))
	}
	return r
}

// feSpec is the integer (or a congruent one) an operation has to compute.
func (en *ienc) feSpec(kind string, f, g []*ilin) *ilin {
	switch kind {
	case "mul", "square", "square2":
		if kind != "mul" {
			g = f
		}
		r := icon(new(big.Int))
		for i := range f {
			for j := range g {
				k := pow2(fieldE[i] + fieldE[j])
				k.Mod(k, fieldP)
				if kind == "square2" {
					k.Lsh(k, 1)
				}
				r = r.plus(en.mulLin(f[i], g[j]), k)
			}
		}
		return r
	case "add":
		return en.value(f).plus(en.value(g), bigOne)
	case "sub":
		return en.value(f).plus(en.value(g), big.NewInt(-1))
	case "neg":
		return en.value(f).scale(big.NewInt(-1))
	case "copy":
		return en.value(f)
	}
	panic(unsupported("field operation " + kind))
}

// centred is l with every coefficient reduced to (-p/2,p/2).
func centred(l *ilin) *ilin {
	h := new(big.Int).Rsh(fieldP, 1)
	red := func(x *big.Int) *big.Int {
		r := new(big.Int).Mod(x, fieldP)
		if r.Cmp(h) > 0 {
			r.Sub(r, fieldP)
		}
		return r
	}
	o := icon(red(l.c))
	for v, k := range l.k {
		if r := red(k); r.Sign() != 0 {
			o.k[v] = r
		}
	}
	return o
}

type feFail struct {
	what string
	m    map[string]*big.Int
}

// congruent decides whether d = 0 modulo p always holds.
func (en *ienc) congruent(d *ilin, want []string) (bool, *feFail) {
	d = en.norm(d)
	r := centred(d)
	k := icon(new(big.Int)) // d = r + p*k
	k.c.Div(new(big.Int).Sub(d.c, r.c), fieldP)
	for v, x := range d.k {
		y := new(big.Int).Set(x)
		if o := r.k[v]; o != nil {
			y.Sub(y, o)
		}
		k.addTerm(v, y.Div(y, fieldP))
	}
	q := []string{"(not (= " + en.smt(d) + " (* " + fieldP.String() + " " + en.smt(k) + ")))"}
	if r.isConst() && r.c.Sign() != 0 {
		q = nil
	}
	res, m := en.s.check(q, want)
	if res == Unsat {
		return true, nil
	}
	// the rest may be a nonzero multiple of p
	res2, m2 := en.s.check([]string{"(not (= " + en.smt(r) + " 0))", "(not (= (mod " + en.smt(r) + " " + fieldP.String() + ") 0))"}, want)
	switch res2 {
	case Unsat:
		return true, nil
	case Sat:
		return false, &feFail{"result differs", m2}
	}
	return false, &feFail{"result may differ (no answer)", m}
}

// feProve checks one operation; fix assigns constants to some inputs.
func (st *State) feProve(kind string, out, f, g []*Term, even, odd int64, fix map[*Term]*big.Int, budget time.Duration) (fail *feFail, en *ienc) {
	en = newIenc(st.c, newLIA(budget), st.fld().bound)
	defer en.s.close()
	defer func() {
		st.e.liaStats(en.s)
		if r := recover(); r != nil {
			if u, ok := r.(*unsupportedErr); ok {
				fail = &feFail{u.msg, nil}
				return
			}
			panic(r)
		}
	}()
	if fix != nil {
		en.fix = fix
	}
	st.fieldPC(en)
	lf := make([]*ilin, len(f))
	var lg []*ilin
	for i, t := range f {
		lf[i] = en.signed(t)
	}
	for _, t := range g {
		lg = append(lg, en.signed(t))
	}
	spec := en.feSpec(kind, lf, lg)
	h := make([]*ilin, 10)
	for i, t := range out {
		h[i] = en.signed(t)
	}
	var want []string
	for t, v := range en.byT {
		if st.fld().bounds[t] != (feBound{}) {
			want = append(want, en.v[v].name)
		}
	}
	sort.Strings(want)
	if ok, fl := en.congruent(en.value(h).plus(spec, big.NewInt(-1)), want); !ok {
		return fl, en
	}
	for i := range h {
		b := big.NewInt(limbBound(i, even, odd))
		st.e.stats.asserts++
		if !en.inRange(h[i], new(big.Int).Neg(b), b) {
			x := en.smt(en.norm(h[i]))
			_, m := en.s.check([]string{"(or (< " + x + " " + lit(new(big.Int).Neg(b)) + ") (> " + x + " " + lit(b) + "))"}, want)
			return &feFail{fmt.Sprintf("limb %d of the result leaves its bounds", i), m}, en
		}
	}
	return nil, en
}

func (e *Explorer) liaStats(s *lia) {
	e.solver.Queries += s.queries
	e.solver.SatN += s.sat
	e.solver.UnsatN += s.unsat
	e.solver.UnkN += s.unk
	e.solver.Time += s.time
	s.queries, s.sat, s.unsat, s.unk, s.time = 0, 0, 0, 0, 0
}

// feModel makes a candidate from values of the limb variables.
func (st *State) feCandidate(label, msg string, val map[*Term]*big.Int) {
	m := Model{}
	for k, v := range st.model {
		m[k] = v
	}
	for t, x := range val {
		m[int32(t.val)] = new(big.Int).And(x, new(big.Int).Sub(pow2(uint(t.w)), bigOne)).Uint64() // two's complement
	}
	st.withModel(m, func() {
		st.e.cands = append(st.e.cands, &Candidate{Label: label, Msg: msg, Vec: st.vector(), Where: st.where()})
	})
}

func (en *ienc) modelOf(m map[string]*big.Int) map[*Term]*big.Int {
	r := map[*Term]*big.Int{}
	for t, v := range en.byT {
		if x := m[en.v[v].name]; x != nil {
			r[t] = x
		}
	}
	for t, x := range en.fix {
		r[t] = x
	}
	return r
}

// patterns of extreme and random limb values
func fePattern(n int, ts []*Term, b map[*Term]feBound, rnd *rand.Rand) map[*Term]*big.Int {
	r := map[*Term]*big.Int{}
	for i, t := range ts {
		x := b[t]
		v := x.hi
		switch {
		case n == 0:
		case n == 1:
			v = x.lo
		case n == 2 && i%2 == 1, n == 3 && i%2 == 0, n == 4 && i >= 5, n == 5 && i < 5:
			v = x.lo
		case n >= 6 && n < 10:
			if rnd.Intn(2) == 0 {
				v = x.lo
			}
		case n == 10:
			v = 0
			if i == 0 {
				v = 1
			}
		case n > 10:
			v = x.lo + rnd.Int63n(x.hi-x.lo+1)
			if rnd.Intn(4) == 0 {
				v = 0
			}
		}
		r[t] = big.NewInt(v)
	}
	return r
}

func (st *State) feCheck(label, kind string, out, f, g []*Term, even, odd int64) {
	st.e.stats.asserts++
	st.e.stats.assertQ++
	fail, en := st.feProve(kind, out, f, g, even, odd, nil, 60*time.Second)
	if fail == nil {
		return
	}
	n0 := len(st.e.cands)
	if len(en.mono) == 0 && fail.m != nil {
		st.feCandidate(label, fail.what, en.modelOf(fail.m))
	}
	// Products of inputs were variables of their own, so the counterexample is
	// looked for among extreme and random operands, and made exact by fixing one
	// operand.
	rnd := rand.New(rand.NewSource(st.e.seed + 1))
	all := append(append([]*Term(nil), f...), g...)
	for n := 0; n < 40; n++ {
		st.feCandidate(label, fail.what, fePattern(n, all, st.fld().bounds, rnd))
	}
	if st.e.candConfirmed(n0) {
		return
	}
	until := time.Now().Add(40 * time.Second)
	for n := 0; kind == "mul" && n < 14 && time.Now().Before(until) && !st.e.expired(); n++ {
		fixed := g
		if n%2 == 1 {
			fixed = f
		}
		fl, en2 := st.feProve(kind, out, f, g, even, odd, fePattern(n, fixed, st.fld().bounds, rnd), 10*time.Second)
		if fl != nil && fl.m != nil {
			st.feCandidate(label, fl.what, en2.modelOf(fl.m))
			if st.e.candConfirmed(n0) {
				return
			}
		}
	}
	st.e.inconclusive("not shown: " + label + " (" + fail.what + ")")
}

// fieldPC gives the branch conditions of the path to a translation.
func (st *State) fieldPC(en *ienc) {
	for _, t := range st.pc {
		if (t.op == OSle || t.op == OSlt || t.op == OUlt || t.op == OUle) && (t.a.op == OConst && t.b.op == OVar || t.a.op == OVar && t.b.op == OConst) {
			continue // bounds of inputs
		}
		en.assume(t)
	}
}

func hasProduct(t *Term, seen map[*Term]bool) bool {
	if t == nil || seen[t] || t.op == OConst || t.op == OVar {
		return false
	}
	seen[t] = true
	if t.op == OMul && t.a.op != OConst && t.b.op != OConst {
		return true
	}
	return hasProduct(t.a, seen) || hasProduct(t.b, seen) || hasProduct(t.c, seen)
}

// fieldBranch decides the feasibility of a branch on products of limbs.
func (st *State) fieldBranch(t *Term) (r SatResult, applies bool) {
	if st.field == nil || len(st.field.bounds) == 0 || !hasProduct(t, map[*Term]bool{}) {
		return 0, false
	}
	en := newIenc(st.c, newLIA(20*time.Second), st.fld().bound)
	defer en.s.close()
	defer func() {
		st.e.liaStats(en.s)
		if x := recover(); x != nil {
			if _, ok := x.(*unsupportedErr); !ok {
				panic(x)
			}
			r, applies = Unknown, true
		}
	}()
	st.fieldPC(en)
	q := en.cond(t)
	if q == "" {
		return Unknown, true
	}
	r, _ = en.s.check([]string{q}, nil)
	return r, true
}

// candConfirmed replays the candidates from n on and keeps one that is confirmed.
func (e *Explorer) candConfirmed(n int) bool {
	for _, c := range e.cands[n:] {
		v := c.Vec
		if e.opts["thorough"] != 0 {
			v.Ints["__thorough"] = 1
		}
		r := e.ld.Native(v, 20e9)
		if r.confirms(c.Label) {
			e.cands = append(e.cands[:n], c)
			return true
		}
	}
	e.cands = e.cands[:n]
	return false
}

// feBytesOf proves bytes against limbs: from (limbs from bytes) or to.
func (st *State) feCheckFrom(label string, out, src []*Term, even, odd int64) {
	st.e.stats.asserts++
	st.e.stats.assertQ++
	en := newIenc(st.c, newLIA(60*time.Second), st.fld().bound)
	defer en.s.close()
	defer func() {
		st.e.liaStats(en.s)
		if r := recover(); r != nil {
			u, ok := r.(*unsupportedErr)
			if !ok {
				panic(r)
			}
			st.feReport(label, &feFail{u.msg, nil}, en, src)
		}
	}()
	st.fieldPC(en)
	spec := icon(new(big.Int))
	for i, t := range src {
		spec = spec.plus(en.unsigned(t), pow2(uint(8*i)))
	}
	top := en.floor(en.unsigned(src[31]), 7)
	spec = spec.plus(top, new(big.Int).Neg(pow2(255)))
	h := make([]*ilin, 10)
	for i, t := range out {
		h[i] = en.signed(t)
	}
	var want []string
	for _, v := range en.byT {
		want = append(want, en.v[v].name)
	}
	ok, fl := en.congruent(en.value(h).plus(spec, big.NewInt(-1)), want)
	for i := 0; ok && i < 10; i++ {
		b := big.NewInt(limbBound(i, even, odd))
		st.e.stats.asserts++
		if !en.inRange(h[i], new(big.Int).Neg(b), b) {
			x := en.smt(en.norm(h[i]))
			_, m := en.s.check([]string{"(or (< " + x + " " + lit(new(big.Int).Neg(b)) + ") (> " + x + " " + lit(b) + "))"}, want)
			ok, fl = false, &feFail{fmt.Sprintf("limb %d of the result leaves its bounds", i), m}
		}
	}
	if !ok {
		st.feReport(label, fl, en, src)
	}
}

func (st *State) feCheckTo(label string, s, f []*Term) {
	st.e.stats.asserts += 2
	st.e.stats.assertQ += 2
	en := newIenc(st.c, newLIA(60*time.Second), st.fld().bound)
	defer en.s.close()
	defer func() {
		st.e.liaStats(en.s)
		if r := recover(); r != nil {
			u, ok := r.(*unsupportedErr)
			if !ok {
				panic(r)
			}
			st.feReport(label, &feFail{u.msg, nil}, en, f)
		}
	}()
	st.fieldPC(en)
	lf := make([]*ilin, 10)
	for i, t := range f {
		lf[i] = en.signed(t)
	}
	val := icon(new(big.Int))
	for i, t := range s {
		val = val.plus(en.unsigned(t), pow2(uint(8*i)))
	}
	var want []string
	for _, v := range en.byT {
		want = append(want, en.v[v].name)
	}
	sort.Strings(want)
	ok, fl := en.congruent(val.plus(en.value(lf), big.NewInt(-1)), want)
	if ok && !en.inRange(val, new(big.Int), new(big.Int).Sub(fieldP, bigOne)) {
		x := en.smt(en.norm(val))
		_, m := en.s.check([]string{"(or (< " + x + " 0) (>= " + x + " " + fieldP.String() + "))"}, want)
		ok, fl = false, &feFail{"encoding is not the canonical one", m}
	}
	if !ok {
		st.feReport(label, fl, en, f)
	}
}

func (st *State) feReport(label string, fl *feFail, en *ienc, in []*Term) {
	n0 := len(st.e.cands)
	if fl.m != nil {
		st.feCandidate(label, fl.what, en.modelOf(fl.m))
	}
	rnd := rand.New(rand.NewSource(st.e.seed + 1))
	bs := map[*Term]feBound{}
	for _, t := range in {
		b, ok := st.fld().bounds[t]
		if !ok {
			b = feBound{0, 255}
		}
		bs[t] = b
	}
	for n := 0; n < 24; n++ {
		st.feCandidate(label, fl.what, fePattern(n, in, bs, rnd))
	}
	if !st.e.candConfirmed(n0) {
		st.e.inconclusive("not shown: " + label + " (" + fl.what + ")")
	}
}

// ---- value level: sums of coefficient * product of powers of atoms

// fatom is a base variable or a (monic) polynomial that is not a product.
type fatom struct {
	id   int
	name string
	def  *fexp // nil: variable
}

type fpow struct {
	a *fatom
	e *big.Int
}
type fterm struct {
	k  *big.Int
	pw []fpow // sorted by atom id
}

// fexp is a value modulo p.
type fexp struct{ t []fterm } // sorted by key

func (t fterm) key() string {
	var sb strings.Builder
	for _, p := range t.pw {
		fmt.Fprintf(&sb, "%d^%s ", p.a.id, p.e)
	}
	return sb.String()
}

func (x *fexp) key() string {
	var sb strings.Builder
	for _, t := range x.t {
		fmt.Fprintf(&sb, "%s*%s+", t.k, t.key())
	}
	return sb.String()
}

type fctx struct {
	atoms  []*fatom
	byKey  map[string]*fatom
	degree int
}

func (e *Explorer) fx() *fctx {
	if e.fctx == nil {
		e.fctx = &fctx{byKey: map[string]*fatom{}, degree: 4}
	}
	return e.fctx
}

func (f *fctx) variable(name string) *fatom {
	if a, ok := f.byKey["v:"+name]; ok {
		return a
	}
	a := &fatom{id: len(f.atoms), name: name}
	f.atoms = append(f.atoms, a)
	f.byKey["v:"+name] = a
	return a
}

func fmodp(x *big.Int) *big.Int { return new(big.Int).Mod(x, fieldP) }

func fconst(x *big.Int) *fexp {
	x = fmodp(x)
	if x.Sign() == 0 {
		return &fexp{}
	}
	return &fexp{[]fterm{{x, nil}}}
}

func (f *fctx) v(a *fatom) *fexp { return &fexp{[]fterm{{bigOne, []fpow{{a, bigOne}}}}} }

func fcollect(ts []fterm) *fexp {
	m := map[string]int{}
	var out []fterm
	for _, t := range ts {
		k := t.key()
		if i, ok := m[k]; ok {
			out[i].k = fmodp(new(big.Int).Add(out[i].k, t.k))
			continue
		}
		m[k] = len(out)
		out = append(out, t)
	}
	r := &fexp{}
	for _, t := range out {
		if t.k.Sign() != 0 {
			r.t = append(r.t, t)
		}
	}
	sort.Slice(r.t, func(i, j int) bool { return r.t[i].key() < r.t[j].key() })
	return r
}

var fieldPm1 = new(big.Int).Sub(fieldP, bigOne)

// exponents of the same value: z^e for e >= 1 depends on e mod p-1 only
func fexpo(e *big.Int) *big.Int {
	if e.Cmp(fieldPm1) <= 0 {
		return e
	}
	r := new(big.Int).Sub(e, bigOne)
	r.Mod(r, fieldPm1)
	return r.Add(r, bigOne)
}

func fmulTerm(a, b fterm) fterm {
	r := fterm{k: fmodp(new(big.Int).Mul(a.k, b.k))}
	i, j := 0, 0
	for i < len(a.pw) || j < len(b.pw) {
		switch {
		case j >= len(b.pw) || i < len(a.pw) && a.pw[i].a.id < b.pw[j].a.id:
			r.pw = append(r.pw, a.pw[i])
			i++
		case i >= len(a.pw) || a.pw[i].a.id > b.pw[j].a.id:
			r.pw = append(r.pw, b.pw[j])
			j++
		default:
			r.pw = append(r.pw, fpow{a.pw[i].a, fexpo(new(big.Int).Add(a.pw[i].e, b.pw[j].e))})
			i++
			j++
		}
	}
	return r
}

// atomise makes x a single term.
func (f *fctx) atomise(x *fexp) *fexp {
	if len(x.t) <= 1 {
		return x
	}
	// common factor
	com := map[*fatom]*big.Int{}
	for _, p := range x.t[0].pw {
		com[p.a] = p.e
	}
	for _, t := range x.t[1:] {
		have := map[*fatom]*big.Int{}
		for _, p := range t.pw {
			have[p.a] = p.e
		}
		for a, e := range com {
			if h := have[a]; h == nil {
				delete(com, a)
			} else if h.Cmp(e) < 0 {
				com[a] = h
			}
		}
	}
	lead := x.t[len(x.t)-1].k
	inv := new(big.Int).ModInverse(lead, fieldP)
	var ts []fterm
	for _, t := range x.t {
		n := fterm{k: fmodp(new(big.Int).Mul(t.k, inv))}
		for _, p := range t.pw {
			e := p.e
			if c := com[p.a]; c != nil {
				e = new(big.Int).Sub(e, c)
			}
			if e.Sign() != 0 {
				n.pw = append(n.pw, fpow{p.a, e})
			}
		}
		ts = append(ts, n)
	}
	def := fcollect(ts)
	key := "d:" + def.key()
	a, ok := f.byKey[key]
	if !ok {
		a = &fatom{id: len(f.atoms), name: fmt.Sprintf("A%d", len(f.atoms)), def: def}
		f.atoms = append(f.atoms, a)
		f.byKey[key] = a
	}
	r := fterm{k: lead}
	var cs []fpow
	for c, e := range com {
		cs = append(cs, fpow{c, e})
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].a.id < cs[j].a.id })
	r.pw = cs
	return &fexp{[]fterm{fmulTerm(r, fterm{bigOne, []fpow{{a, bigOne}}})}}
}

func (f *fctx) mul(a, b *fexp) *fexp {
	a, b = f.atomise(a), f.atomise(b)
	if len(a.t) == 0 || len(b.t) == 0 {
		return &fexp{}
	}
	return &fexp{[]fterm{fmulTerm(a.t[0], b.t[0])}}
}

func (f *fctx) scale(a *fexp, k *big.Int) *fexp {
	var ts []fterm
	for _, t := range a.t {
		ts = append(ts, fterm{fmodp(new(big.Int).Mul(t.k, k)), t.pw})
	}
	return fcollect(ts)
}

// pure: a polynomial of low degree in the variables
func (f *fctx) pure(a *fexp) bool {
	for _, t := range a.t {
		d := new(big.Int)
		for _, p := range t.pw {
			if p.a.def != nil {
				return false
			}
			d.Add(d, p.e)
		}
		if d.Cmp(big.NewInt(int64(f.degree))) > 0 {
			return false
		}
	}
	return true
}

func (f *fctx) add(a, b *fexp) *fexp {
	if !f.pure(a) || !f.pure(b) {
		a, b = f.atomise(a), f.atomise(b)
	}
	return fcollect(append(append([]fterm(nil), a.t...), b.t...))
}

// fval evaluates an expression.
func fval(x *fexp, env map[*fatom]*big.Int) *big.Int {
	r := new(big.Int)
	for _, t := range x.t {
		m := new(big.Int).Set(t.k)
		for _, p := range t.pw {
			v, ok := env[p.a]
			if !ok {
				if p.a.def == nil {
					v = new(big.Int)
				} else {
					v = fval(p.a.def, env)
				}
				env[p.a] = v
			}
			m.Mul(m, new(big.Int).Exp(v, p.e, fieldP))
			m.Mod(m, fieldP)
		}
		r.Add(r, m)
	}
	return r.Mod(r, fieldP)
}

// ---- cuts

func (st *State) freshLimbs(even, odd int64, val *fexp) [10]*Term {
	f := st.fld()
	var v feVec
	for i := range v.limb {
		f.fresh++
		t := st.c.Var(fmt.Sprintf("fe%d_%d", f.fresh, i), 32)
		b := limbBound(i, even, odd)
		f.bounds[t] = feBound{-b, b}
		v.limb[i] = t
	}
	v.val = val
	f.vecs = append(f.vecs, &v)
	return v.limb
}

// feValue is the value of limbs that are a combination of known vectors, within bounds.
func (st *State) feValue(l []*Term, even, odd int64) *fexp {
	f := st.fld()
	fx := st.e.fx()
	combo := map[*feVec]*big.Int{}
	owner := map[*Term][2]any{}
	for _, v := range f.vecs {
		for i, t := range v.limb {
			owner[t] = [2]any{v, i}
		}
	}
	konst := new(big.Int)
	for i, t := range l {
		lin := map[*Term]int64{}
		c := int64(0)
		var walk func(t *Term, k int64)
		walk = func(t *Term, k int64) {
			switch t.op {
			case OConst:
				c += k * sext(t.val, t.w)
			case OVar:
				lin[t] += k
			case OAdd:
				walk(t.a, k)
				walk(t.b, k)
			case OSub:
				walk(t.a, k)
				walk(t.b, -k)
			case ONeg:
				walk(t.a, -k)
			case OMul:
				if t.b.op == OConst && k > -1000 && k < 1000 {
					walk(t.a, k*sext(t.b.val, t.w))
				} else if t.a.op == OConst && k > -1000 && k < 1000 {
					walk(t.b, k*sext(t.a.val, t.w))
				} else {
					panic(unsupported("limbs of a field element are not a sum of known ones"))
				}
			case OShl:
				if t.b.op != OConst || t.b.val > 8 {
					panic(unsupported("limbs of a field element are not a sum of known ones"))
				}
				walk(t.a, k<<t.b.val)
			default:
				panic(unsupported("limbs of a field element are not a sum of known ones"))
			}
		}
		walk(t, 1)
		lo, hi := c, c
		here := map[*feVec]*big.Int{}
		for v, k := range lin {
			if k == 0 {
				continue
			}
			o, ok := owner[v]
			if !ok || o[1].(int) != i {
				panic(unsupported("limbs of a field element are not a sum of known ones"))
			}
			here[o[0].(*feVec)] = big.NewInt(k)
			b := f.bounds[v]
			if k > 0 {
				lo, hi = lo+k*b.lo, hi+k*b.hi
			} else {
				lo, hi = lo+k*b.hi, hi+k*b.lo
			}
		}
		b := limbBound(i, even, odd)
		if lo < -b || hi > b {
			panic(unsupported("operand outside the bounds for which the field operation is proved"))
		}
		if i == 0 {
			combo = here
		} else {
			same := len(here) == len(combo)
			for v, k := range here {
				if combo[v] == nil || combo[v].Cmp(k) != 0 {
					same = false
				}
			}
			if !same {
				panic(unsupported("limbs of a field element are not a sum of known ones"))
			}
		}
		konst.Add(konst, new(big.Int).Mul(big.NewInt(c), pow2(fieldE[i])))
	}
	r := fconst(konst)
	for _, v := range f.vecs {
		if k := combo[v]; k != nil {
			r = fx.add(r, fx.scale(v.val, k))
		}
	}
	return r
}

// bounds under which the operations are proved (E03) and used
const (
	feInEven  = 73819750  // 1.1 * 2^26
	feInOdd   = 36909875  // 1.1 * 2^25
	feToEven  = 100663296 // 1.5 * 2^26, for FeToBytes
	feToOdd   = 50331648
	feOutEven = 36909875
	feOutOdd  = 18454937 // 1.1 * 2^24
)

func (st *State) loadLimbs(v Value) []*Term {
	p, ok := v.(Ptr)
	if !ok || p.obj == 0 {
		panic(unsupported("field element pointer"))
	}
	a, ok := st.load(p).(*SArr)
	if !ok || a.n != 10 {
		panic(unsupported("field element representation"))
	}
	out := make([]*Term, 10)
	for i := range out {
		out[i] = st.c.Read(a, st.c.Const(64, uint64(i)))
	}
	return out
}

func (st *State) storeTerms(v Value, ts []*Term) {
	p := v.(Ptr)
	for i, t := range ts {
		st.store(p.elem(st.c.Const(64, uint64(i))), t)
	}
}

func cutHook(kind string) func(st *State, fn *ssa.Function, args []Value, reg int) bool {
	return func(st *State, fn *ssa.Function, args []Value, reg int) bool {
		if st.field == nil || !st.field.cut {
			return false
		}
		fx := st.e.fx()
		c := st.c
		st.e.encoded[st.e.fnName(fn)+" (by its contract E03)"]++
		switch kind {
		case "mul", "square", "square2":
			if len(args) != 3 && kind == "mul" || len(args) != 2 && kind != "mul" {
				return false
			}
			a := st.feValue(st.loadLimbs(args[1]), feInEven, feInOdd)
			b := a
			if kind == "mul" {
				b = st.feValue(st.loadLimbs(args[2]), feInEven, feInOdd)
			}
			r := fx.mul(a, b)
			if kind == "square2" {
				r = fx.scale(r, big.NewInt(2))
			}
			l := st.freshLimbs(feOutEven, feOutOdd, r)
			st.storeTerms(args[0], l[:])
		case "from":
			a := st.load(args[1].(Ptr)).(*SArr)
			var src [32]*Term
			for i := range src {
				src[i] = c.Read(a, c.Const(64, uint64(i)))
			}
			f := st.fld()
			var val *fexp
			for _, o := range f.from {
				if o.src == src {
					val = o.val
				}
			}
			if val == nil {
				val = fx.v(fx.variable(fmt.Sprintf("y%d", len(f.from))))
				f.from = append(f.from, &feFrom{src, val})
			}
			l := st.freshLimbs(feOutEven, feOutOdd, val)
			st.storeTerms(args[0], l[:])
		case "to":
			val := st.feValue(st.loadLimbs(args[1]), feToEven, feToOdd)
			f := st.fld()
			var rec *feBytes
			for _, o := range f.bytes {
				if o.val.key() == val.key() {
					rec = o
				}
			}
			if rec == nil {
				rec = &feBytes{val: val}
				for i := range rec.out {
					f.fresh++
					rec.out[i] = c.Var(fmt.Sprintf("feb%d", f.fresh), 8)
				}
				f.bytes = append(f.bytes, rec)
			}
			st.storeTerms(args[0], rec.out[:])
			// the real function reduces its operand in place (E03_to)
			l := st.freshLimbs(feInEven, feInOdd, val)
			st.storeTerms(args[1], l[:])
		}
		st.setRet(reg, nil)
		return true
	}
}

func (e *Explorer) installCuts() {
	if e.preHooks == nil {
		e.preHooks = map[string]func(st *State, fn *ssa.Function, args []Value, reg int) bool{}
	}
	for n, k := range map[string]string{"FeMul": "mul", "FeSquare": "square", "FeSquare2": "square2", "FeFromBytes": "from", "FeToBytes": "to"} {
		e.preHooks[fePath+"."+n] = cutHook(k)
	}
}

// ---- curve points

var curveD = func() *big.Int {
	d := new(big.Int).ModInverse(big.NewInt(121666), fieldP)
	d.Mul(d, big.NewInt(-121665))
	return fmodp(d)
}()

// pointCase classifies y: zero = (y^2 = 1), otherwise k with iota = i^k, where
// iota = ((y^2-1)(y^2+1/d)^7)^((p-1)/4).
var quarter = new(big.Int).Rsh(fieldPm1, 2)
var sqrtM1 = new(big.Int).Exp(big.NewInt(2), quarter, fieldP)

func pointOf(y *big.Int) (a0 bool, k int) {
	a := fmodp(new(big.Int).Sub(new(big.Int).Mul(y, y), bigOne))
	if a.Sign() == 0 {
		return true, 0
	}
	b := fmodp(new(big.Int).Add(new(big.Int).Mul(y, y), new(big.Int).ModInverse(curveD, fieldP)))
	x := new(big.Int).Exp(b, big.NewInt(7), fieldP)
	x.Mul(x, a)
	x.Exp(x, quarter, fieldP)
	p := big.NewInt(1)
	for k = 0; k < 4; k++ {
		if p.Cmp(x) == 0 {
			return false, k
		}
		p = fmodp(p.Mul(p, sqrtM1))
	}
	return false, -1
}

// onCurve: (y^2-1)/(d y^2+1) is a square.
func onCurve(y *big.Int) bool {
	a := new(big.Int).Sub(new(big.Int).Mul(y, y), bigOne)
	b := new(big.Int).Add(new(big.Int).Mul(curveD, new(big.Int).Mul(y, y)), bigOne)
	x := new(big.Int).Exp(fmodp(a.Mul(a, b)), new(big.Int).Rsh(fieldPm1, 1), fieldP)
	return x.Sign() == 0 || x.Cmp(bigOne) == 0
}

// zeroCond is the condition on (a0,k) under which x is zero, or nil if unknown.
func (e *Explorer) zeroCond(x *fexp, y *fatom, a0, k *Term) *Term {
	c := e.c
	fx := e.fx()
	if len(x.t) == 0 {
		return c.True
	}
	yy := fx.mul(fx.v(y), fx.v(y))
	A := fx.atomise(fx.add(yy, fconst(big.NewInt(-1)))).t[0].pw[0].a
	B := fx.atomise(fx.add(yy, fconst(new(big.Int).ModInverse(curveD, fieldP)))).t[0].pw[0].a
	var atomZero func(a *fatom) *Term
	var expZero func(x *fexp) *Term
	free := func(s string) *Term { return c.Eq(c.Var("free_"+s, 1), c.Const(1, 1)) }
	atomZero = func(a *fatom) *Term {
		switch {
		case a == A:
			return a0
		case a == B:
			// y^2 = -1/d has no solution: -1/d is not a square (Euler's criterion)
			nb := fmodp(new(big.Int).Neg(new(big.Int).ModInverse(curveD, fieldP)))
			if new(big.Int).Exp(nb, new(big.Int).Rsh(fieldPm1, 1), fieldP).Cmp(fieldPm1) == 0 {
				return c.False
			}
		case a.def != nil:
			if r := expZero(a.def); r != nil {
				return r
			}
		}
		return free(fmt.Sprint(a.id))
	}
	// value of a power product as a function of (a0,k): ok if it is a power of iota
	iotaPow := func(t fterm) (int, bool) {
		ea, eb := new(big.Int), new(big.Int)
		for _, p := range t.pw {
			switch p.a {
			case A:
				ea = p.e
			case B:
				eb = p.e
			default:
				return 0, false
			}
		}
		if ea.Sign() == 0 {
			return 0, eb.Sign() == 0
		}
		for j := 1; j <= 4; j++ {
			d1 := new(big.Int).Sub(ea, new(big.Int).Mul(big.NewInt(int64(j)), quarter))
			d2 := new(big.Int).Sub(eb, new(big.Int).Mul(big.NewInt(int64(7*j)), quarter))
			if d1.Mod(d1, fieldPm1).Sign() == 0 && d2.Mod(d2, fieldPm1).Sign() == 0 {
				return j, true
			}
		}
		return 0, false
	}
	expZero = func(x *fexp) *Term {
		if len(x.t) == 0 {
			return c.True
		}
		x = fx.atomise(x)
		t := x.t[0]
		r := c.False
		for _, p := range t.pw {
			if p.a.def != nil && p.a != A && p.a != B {
				// a sum: a polynomial in iota?
				var js []int
				ok := true
				for _, s := range p.a.def.t {
					j, o := iotaPow(s)
					ok = ok && o
					js = append(js, j)
				}
				if ok {
					sum := func(a0 bool, k int) bool {
						v := new(big.Int)
						for i, s := range p.a.def.t {
							m := new(big.Int).Set(s.k)
							if js[i] > 0 {
								if a0 {
									m.SetInt64(0)
								} else {
									m.Mul(m, new(big.Int).Exp(sqrtM1, big.NewInt(int64(k*js[i])), fieldP))
								}
							}
							v.Add(v, m)
						}
						return fmodp(v).Sign() == 0
					}
					z := c.BAnd(a0, c.Bool(sum(true, 0)))
					for kk := 0; kk < 4; kk++ {
						if sum(false, kk) {
							z = c.BOr(z, c.BAnd(c.Not(a0), c.Eq(k, c.Const(2, uint64(kk)))))
						}
					}
					r = c.BOr(r, z)
					continue
				}
				r = c.BOr(r, free(fmt.Sprint(p.a.id)))
				continue
			}
			r = c.BOr(r, atomZero(p.a))
		}
		return r
	}
	return expZero(x)
}

func leBytes(y *big.Int) []byte {
	b := make([]byte, 32)
	x := new(big.Int).Set(y)
	for i := range b {
		b[i] = byte(new(big.Int).And(x, big.NewInt(255)).Uint64())
		x.Rsh(x, 8)
	}
	return b
}

// feSamples are values of y of the wanted kind (nil: any).
func feSamples(rnd *rand.Rand, n int, ok func(a0 bool, k int) bool) []*big.Int {
	var out []*big.Int
	try := func(y *big.Int) {
		a0, k := pointOf(y)
		if ok == nil || ok(a0, k) {
			out = append(out, y)
		}
	}
	for _, y := range []int64{0, 1, -1, 2, 3, -2} {
		try(fmodp(big.NewInt(y)))
	}
	for i := 0; len(out) < n && i < 64*n; i++ {
		try(new(big.Int).Rand(rnd, fieldP))
	}
	return out
}

// keyCandidate sets the 32 key bytes to an encoding.
func (st *State) keyModel(key []*Term, enc []byte) (Model, bool) {
	m := Model{}
	for k, v := range st.model {
		m[k] = v
	}
	for i, t := range key {
		if t.op != OVar || t.w != 8 {
			return nil, false
		}
		m[int32(t.val)] = uint64(enc[i])
	}
	return m, true
}

// checkPoint: key converts iff valid, to out.
func (st *State) checkPoint(label string, key []*Term, ok *Term, out []*Term) {
	e, c, fx := st.e, st.c, st.e.fx()
	f := st.fld()
	e.stats.asserts++
	if !ok.IsConst() {
		panic(unsupported("symbolic outcome of a conversion"))
	}
	rnd := rand.New(rand.NewSource(e.seed + 7))
	n0 := len(e.cands)
	propose := func(msg string, ys []*big.Int) {
		for _, y := range ys {
			encs := [][]byte{leBytes(y)}
			if y.Cmp(big.NewInt(19)) < 0 { // another encoding of the same residue
				encs = append(encs, leBytes(new(big.Int).Add(y, fieldP)))
			}
			for _, b := range encs {
				for _, top := range []byte{0, 0x80} {
					b := append([]byte(nil), b...)
					b[31] |= top
					if m, good := st.keyModel(key, b); good {
						st.withModel(m, func() {
							e.cands = append(e.cands, &Candidate{Label: label, Msg: msg, Vec: st.vector(), Where: st.where()})
						})
					}
				}
			}
		}
	}
	settle := func(why string) {
		if !e.candConfirmed(n0) {
			e.cands = e.cands[:n0]
			e.inconclusive("not shown: " + label + " (" + why + ")")
		}
	}
	var y *fatom
	var src [32]*Term
	copy(src[:], key)
	for _, o := range f.from {
		if o.src == src {
			y = o.val.t[0].pw[0].a
		}
	}
	if y == nil { // decoded from something else
		propose("the key is not what is decoded", feSamples(rnd, 8, nil))
		settle("the key's bytes are not decoded")
		return
	}
	a0 := c.Eq(c.Var("case_a0", 1), c.Const(1, 1))
	k := c.Var("case_k", 2)
	cons := []*Term{}
	for _, r := range f.bytes {
		z := e.zeroCond(r.val, y, a0, k)
		all := c.True
		for _, b := range r.out {
			all = c.BAnd(all, c.Eq(b, c.Const(8, 0)))
		}
		cons = append(cons, c.Eq(all, z))
	}
	valid := c.BOr(a0, c.Eq(c.Extract(k, 1, 0), c.Const(1, 1))) // iota = +-i, as d is not a square
	e.stats.assertQ++
	res, m := e.check(append(append(append([]*Term(nil), st.pc...), cons...), c.Not(c.Eq(valid, ok))))
	if res != Unsat {
		var ys []*big.Int
		if res == Sat {
			wa := m[int32(c.Var("case_a0", 1).val)] == 1
			wk := int(m[int32(k.val)])
			ys = feSamples(rnd, 3, func(a bool, kk int) bool { return a == wa && (a || kk == wk) })
		}
		ys = append(ys, feSamples(rnd, 16, nil)...)
		propose("conversion succeeds exactly for points of the curve", ys)
		settle("validity")
		return
	}
	if ok == c.True {
		e.stats.asserts++
		want := fx.mul(fx.add(fconst(bigOne), fx.v(y)), fx.pow(fx.add(fconst(bigOne), fx.scale(fx.v(y), big.NewInt(-1))), new(big.Int).Sub(fieldP, big.NewInt(2))))
		var got *fexp
		for _, r := range f.bytes {
			if len(out) == 32 && [32]*Term(out) == r.out {
				got = r.val
			}
		}
		if got == nil || !e.fsame(got, want) {
			propose("the result is (1+y)/(1-y)", feSamples(rnd, 12, func(a0 bool, k int) bool { return a0 || k&1 == 1 }))
			settle("result")
			return
		}
	}
	// a native trace of every case that takes this path
	for cs := 0; cs < 5; cs++ {
		q := append(append([]*Term(nil), st.pc...), cons...)
		if cs == 4 {
			q = append(q, a0)
		} else {
			q = append(q, c.Not(a0), c.Eq(k, c.Const(2, uint64(cs))))
		}
		if r, _ := e.check(q); r != Sat {
			continue
		}
		for _, y := range feSamples(rnd, 2, func(a bool, kk int) bool { return a == (cs == 4) && (a || kk == cs) })[:1] {
			if mm, good := st.keyModel(key, leBytes(y)); good {
				st.withModel(mm, func() {
					if len(e.results) < e.maxSamples {
						e.results = append(e.results, &PathResult{kind: "done", vec: st.vector()})
					}
				})
			}
		}
	}
	st.noSample = true
}

// fsame asks the solver whether two power products are the same function:
// equal coefficients, and exponents of each factor equal modulo p-1 (or equal).
func (e *Explorer) fsame(a, b *fexp) bool {
	a, b = e.fx().atomise(a), e.fx().atomise(b)
	if len(a.t) != len(b.t) {
		return false
	}
	if len(a.t) == 0 {
		return true
	}
	s := newLIA(30 * time.Second)
	defer s.close()
	exps := map[int][2]*big.Int{}
	for i, t := range []fterm{a.t[0], b.t[0]} {
		for _, p := range t.pw {
			x, ok := exps[p.a.id]
			if !ok {
				x = [2]*big.Int{new(big.Int), new(big.Int)}
			}
			x[i] = p.e
			exps[p.a.id] = x
		}
	}
	conds := []string{"(= " + lit(a.t[0].k) + " " + lit(b.t[0].k) + ")"}
	for _, x := range exps {
		if x[0].Sign() == 0 || x[1].Sign() == 0 {
			conds = append(conds, "(= "+lit(x[0])+" "+lit(x[1])+")")
		} else {
			conds = append(conds, "(= (mod (- "+lit(x[0])+" "+lit(x[1])+") "+fieldPm1.String()+") 0)")
		}
	}
	r, _ := s.check([]string{"(not (and " + strings.Join(conds, " ") + "))"}, nil)
	e.liaStats(s)
	return r == Unsat
}

func (f *fctx) pow(x *fexp, e *big.Int) *fexp {
	x = f.atomise(x)
	if len(x.t) == 0 {
		return x
	}
	r := fterm{k: new(big.Int).Exp(x.t[0].k, e, fieldP)}
	for _, p := range x.t[0].pw {
		r.pw = append(r.pw, fpow{p.a, fexpo(new(big.Int).Mul(p.e, e))})
	}
	return &fexp{[]fterm{r}}
}

func init() {
	V := func(n string, f intrinsic) { extraIntrinsics[vfePath+"."+n] = f }
	// Limbs(name string, dst []int32, even, odd int64)
	V("Limbs", func(st *State, a []Value, reg int) {
		s := a[1].(*SliceV)
		even, odd := a[2].(*Term).Int(), a[3].(*Term).Int()
		f := st.fld()
		var v feVec
		name := st.strArg(a[0])
		for i := 0; i < 10; i++ {
			t := st.intInput(st.key(name), 32)
			b := limbBound(i, even, odd)
			f.bounds[t] = feBound{-b, b}
			st.assume(st.c.Sle(st.c.Const(32, uint64(-b)), t))
			st.assume(st.c.Sle(t, st.c.Const(32, uint64(b))))
			st.store(s.base.elem(st.c.Add(s.off, st.c.Const(64, uint64(i)))), t)
			v.limb[i] = t
		}
		fx := st.e.fx()
		v.val = fx.v(fx.variable(v.limb[0].String()))
		f.vecs = append(f.vecs, &v)
		st.setRet(reg, nil)
	})
	// Cut(): the field operations are replaced by their contracts
	V("Cut", func(st *State, a []Value, reg int) {
		st.fld().cut = true
		st.e.installCuts()
		st.setRet(reg, nil)
	})
	// CheckOp(label, kind string, out, f, g []int32, even, odd int64)
	V("CheckOp", func(st *State, a []Value, reg int) {
		var g []*Term
		if l := a[4].(*SliceV).len; !l.IsConst() || l.val != 0 {
			g = st.limbTerms(a[4], 10)
		}
		st.feCheck(st.strArg(a[0]), st.strArg(a[1]), st.limbTerms(a[2], 10), st.limbTerms(a[3], 10), g, a[5].(*Term).Int(), a[6].(*Term).Int())
		st.setRet(reg, nil)
	})
	// CheckFrom(label string, out []int32, src []byte, even, odd int64)
	V("CheckFrom", func(st *State, a []Value, reg int) {
		st.feCheckFrom(st.strArg(a[0]), st.limbTerms(a[1], 10), st.limbTerms(a[2], 32), a[3].(*Term).Int(), a[4].(*Term).Int())
		st.setRet(reg, nil)
	})
	// CheckTo(label string, out []byte, f []int32)
	V("CheckTo", func(st *State, a []Value, reg int) {
		st.feCheckTo(st.strArg(a[0]), st.limbTerms(a[1], 32), st.limbTerms(a[2], 10))
		st.setRet(reg, nil)
	})
	// CheckPow(label, exponent string, out, in []int32)
	V("CheckPow", func(st *State, a []Value, reg int) {
		label := st.strArg(a[0])
		x, ok := new(big.Int).SetString(st.strArg(a[1]), 10)
		if !ok {
			panic(unsupported("exponent"))
		}
		in := st.limbTerms(a[3], 10)
		out := st.feValue(st.limbTerms(a[2], 10), feInEven, feInOdd)
		iv := st.feValue(in, feInEven, feInOdd)
		st.e.stats.asserts++
		if !st.e.fsame(out, st.e.fx().pow(iv, x)) {
			n0 := len(st.e.cands)
			rnd := rand.New(rand.NewSource(st.e.seed + 3))
			for n := 0; n < 20; n++ {
				st.feCandidate(label, "power", fePattern(n, in, st.fld().bounds, rnd))
			}
			if !st.e.candConfirmed(n0) {
				st.e.inconclusive("not shown: " + label)
			}
		}
		st.noSample = true
		st.setRet(reg, nil)
	})
	// CheckPoint(label string, key []byte, ok bool, out []byte)
	V("CheckPoint", func(st *State, a []Value, reg int) {
		var out []*Term
		if l := a[3].(*SliceV).len; !l.IsConst() || l.val != 0 {
			out = st.limbTerms(a[3], 32)
		}
		st.checkPoint(st.strArg(a[0]), st.limbTerms(a[1], 32), a[2].(*Term), out)
		st.setRet(reg, nil)
	})
}
