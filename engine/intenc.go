package main

// Translation of straight-line machine arithmetic (bit-vector terms) into
// integer arithmetic: every term is a linear form over integer variables,
// congruent to the term modulo 2^width.  Products of inputs become variables of
// their own (monomials), shifts and truncations become quotient and remainder
// variables with their defining constraints.  Nothing is assumed about
// overflow: where an operation needs the actual value of its operand (sign
// extension, arithmetic shift, zero extension), z3 is asked (linear integer
// arithmetic) whether the linear form lies in the range of the machine type,
// and where it may not, the wrap-around becomes a variable as well.

import (
	"bufio"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync/atomic"
	"time"
)

var bigOne = big.NewInt(1)

func pow2(k uint) *big.Int { return new(big.Int).Lsh(bigOne, k) }

// ivar is an integer variable.
type ivar struct {
	name   string
	lo, hi *big.Int // nil: unbounded
	a, b   int      // monomial a*b (otherwise -1)
	t      *Term    // machine variable
}

// ilin is a linear form.
type ilin struct {
	k map[int]*big.Int
	c *big.Int
}

func icon(x *big.Int) *ilin { return &ilin{map[int]*big.Int{}, new(big.Int).Set(x)} }

func (l *ilin) clone() *ilin {
	r := &ilin{make(map[int]*big.Int, len(l.k)), new(big.Int).Set(l.c)}
	for v, k := range l.k {
		r.k[v] = k
	}
	return r
}

func (l *ilin) addTerm(v int, k *big.Int) {
	if o, ok := l.k[v]; ok {
		s := new(big.Int).Add(o, k)
		if s.Sign() == 0 {
			delete(l.k, v)
		} else {
			l.k[v] = s
		}
	} else if k.Sign() != 0 {
		l.k[v] = new(big.Int).Set(k)
	}
}

// plus returns l + f*m.
func (l *ilin) plus(m *ilin, f *big.Int) *ilin {
	r := l.clone()
	r.c.Add(r.c, new(big.Int).Mul(m.c, f))
	for v, k := range m.k {
		r.addTerm(v, new(big.Int).Mul(k, f))
	}
	return r
}

func (l *ilin) scale(f *big.Int) *ilin { return icon(new(big.Int)).plus(l, f) }

func (l *ilin) isConst() bool { return len(l.k) == 0 }

func (l *ilin) vars() []int {
	vs := make([]int, 0, len(l.k))
	for v := range l.k {
		vs = append(vs, v)
	}
	sort.Ints(vs)
	return vs
}

func (l *ilin) key() string {
	var sb strings.Builder
	for _, v := range l.vars() {
		fmt.Fprintf(&sb, "%d*%s+", v, l.k[v])
	}
	sb.WriteString(l.c.String())
	return sb.String()
}

// lia is a live z3 process for linear integer arithmetic.
type lia struct {
	cmd     *exec.Cmd
	in      *bufio.Writer
	out     *bufio.Reader
	time    time.Duration
	queries int
	sat     int
	unsat   int
	unk     int
	trace   bool
	until   time.Time // no query is started after this
	dead    atomic.Bool
}

const liaQueryTime = 10 * time.Second

func newLIA(budget time.Duration) *lia {
	l := &lia{until: time.Now().Add(budget)}
	l.cmd = exec.Command(solverBin(), "-in", "-smt2")
	in, _ := l.cmd.StdinPipe()
	out, _ := l.cmd.StdoutPipe()
	if err := l.cmd.Start(); err != nil {
		fatal("cannot start solver: %v", err)
	}
	l.in, l.out = bufio.NewWriterSize(in, 1<<16), bufio.NewReaderSize(out, 1<<16)
	l.trace = os.Getenv("VERIF_LIA") != ""
	l.send("(set-option :print-success false)\n(set-option :global-declarations true)\n(set-option :produce-models true)\n(set-option :timeout 10000)\n(set-logic ALL)\n")
	return l
}

func (l *lia) send(s string) {
	if l.trace {
		fmt.Fprint(os.Stderr, s)
	}
	l.in.WriteString(s)
}

func (l *lia) close() {
	if l.cmd != nil {
		l.send("(exit)\n")
		l.in.Flush()
		l.cmd.Process.Kill()
		l.cmd.Wait()
		l.cmd = nil
	}
}

func (l *lia) line() string {
	for {
		s, err := l.out.ReadString('\n')
		s = strings.TrimSpace(s)
		if s != "" || err != nil {
			return s
		}
	}
}

func (l *lia) sexp() string {
	depth, started := 0, false
	var sb strings.Builder
	for {
		b, err := l.out.ReadByte()
		if err != nil {
			return sb.String()
		}
		sb.WriteByte(b)
		if b == '(' {
			depth++
			started = true
		} else if b == ')' {
			depth--
		}
		if started && depth == 0 {
			return sb.String()
		}
	}
}

// check decides the conjunction; on sat it returns the values of the variables asked for.
func (l *lia) check(asserts []string, want []string) (SatResult, map[string]*big.Int) {
	t0 := time.Now()
	defer func() { l.time += time.Since(t0) }()
	l.queries++
	if l.dead.Load() || t0.After(l.until) {
		l.unk++
		return Unknown, nil
	}
	// the solver's own limit is not always kept
	guard := time.AfterFunc(2*liaQueryTime, func() {
		l.dead.Store(true)
		l.cmd.Process.Kill()
	})
	defer guard.Stop()
	l.send("(push 1)\n")
	for _, a := range asserts {
		l.send("(assert " + a + ")\n")
	}
	l.send("(check-sat)\n")
	l.in.Flush()
	r := Unknown
	var m map[string]*big.Int
	switch s := l.line(); {
	case s == "unsat":
		r = Unsat
		l.unsat++
	case s == "sat":
		r = Sat
		l.sat++
		m = map[string]*big.Int{}
		if len(want) > 0 {
			l.send("(get-value (" + strings.Join(want, " ") + "))\n")
			l.in.Flush()
			f := strings.FieldsFunc(l.sexp(), func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' })
			for i := 0; i+1 < len(f); {
				name := f[i]
				neg := f[i+1] == "-"
				if neg {
					i++
				}
				v, ok := new(big.Int).SetString(f[i+1], 10)
				if ok {
					if neg {
						v.Neg(v)
					}
					m[name] = v
				}
				i += 2
			}
		}
	default:
		l.unk++
		if l.trace {
			fmt.Fprintln(os.Stderr, "; answer", s)
		}
		if strings.HasPrefix(s, "(error") {
			panic(unsupported("solver: " + s))
		}
	}
	l.send("(pop 1)\n")
	return r, m
}

func lit(x *big.Int) string {
	if x.Sign() < 0 {
		return "(- " + new(big.Int).Neg(x).String() + ")"
	}
	return x.String()
}

// ienc is one translation.
type ienc struct {
	c      *Ctx
	bounds func(t *Term) (lo, hi *big.Int, ok bool)
	fix    map[*Term]*big.Int
	v      []ivar
	byT    map[*Term]int
	mono   map[[2]int]int
	mem    map[*Term]*ilin
	subst  map[int]*ilin
	floors map[string]*ilin
	ranges map[string]bool
	s      *lia
	wraps  int
}

func newIenc(c *Ctx, s *lia, bounds func(t *Term) (lo, hi *big.Int, ok bool)) *ienc {
	return &ienc{c: c, bounds: bounds, fix: map[*Term]*big.Int{}, byT: map[*Term]int{}, mono: map[[2]int]int{}, mem: map[*Term]*ilin{},
		subst: map[int]*ilin{}, floors: map[string]*ilin{}, ranges: map[string]bool{}, s: s}
}

var ivarCount int64

func (e *ienc) newVar(prefix string, lo, hi *big.Int) int {
	id := len(e.v)
	name := fmt.Sprintf("%s%d", prefix, id)
	e.v = append(e.v, ivar{name: name, lo: lo, hi: hi, a: -1, b: -1})
	e.s.send("(declare-const " + name + " Int)\n")
	if lo != nil {
		e.s.send("(assert (<= " + lit(lo) + " " + name + "))\n")
	}
	if hi != nil {
		e.s.send("(assert (<= " + name + " " + lit(hi) + "))\n")
	}
	return id
}

func (e *ienc) one(v int) *ilin { return &ilin{map[int]*big.Int{v: bigOne}, new(big.Int)} }

func (e *ienc) smt(l *ilin) string {
	if len(l.k) == 0 {
		return lit(l.c)
	}
	var sb strings.Builder
	sb.WriteString("(+")
	for _, v := range l.vars() {
		k := l.k[v]
		if k.Cmp(bigOne) == 0 {
			sb.WriteString(" " + e.v[v].name)
		} else {
			sb.WriteString(" (* " + lit(k) + " " + e.v[v].name + ")")
		}
	}
	sb.WriteString(" " + lit(l.c) + ")")
	return sb.String()
}

// norm applies the substitutions made so far.
func (e *ienc) norm(l *ilin) *ilin {
	for {
		var hit []int
		for v := range l.k {
			if _, ok := e.subst[v]; ok {
				hit = append(hit, v)
			}
		}
		if len(hit) == 0 {
			return l
		}
		r := l.clone()
		for _, v := range hit {
			k := r.k[v]
			if k == nil {
				continue
			}
			delete(r.k, v)
			r = r.plus(e.subst[v], k)
		}
		l = r
	}
}

// inRange asks the solver whether lo <= l <= hi always holds.
func (e *ienc) inRange(l *ilin, lo, hi *big.Int) bool {
	l = e.norm(l)
	if l.isConst() {
		return l.c.Cmp(lo) >= 0 && l.c.Cmp(hi) <= 0
	}
	k := l.key() + "|" + lo.String() + "|" + hi.String()
	if r, ok := e.ranges[k]; ok {
		return r
	}
	x := e.smt(l)
	r, _ := e.s.check([]string{"(or (< " + x + " " + lit(lo) + ") (> " + x + " " + lit(hi) + "))"}, nil)
	e.ranges[k] = r == Unsat
	return r == Unsat
}

func isPow2(x *big.Int) bool {
	a := new(big.Int).Abs(x)
	return a.Sign() != 0 && a.TrailingZeroBits()+1 == uint(a.BitLen())
}

// interval is the range of l by its variables' bounds alone (nil: unbounded).
func (e *ienc) interval(l *ilin) (lo, hi *big.Int) {
	lo, hi = new(big.Int).Set(l.c), new(big.Int).Set(l.c)
	for v, k := range l.k {
		a, b := e.v[v].lo, e.v[v].hi
		if k.Sign() < 0 {
			a, b = b, a
		}
		if lo != nil && a != nil {
			lo.Add(lo, new(big.Int).Mul(k, a))
		} else {
			lo = nil
		}
		if hi != nil && b != nil {
			hi.Add(hi, new(big.Int).Mul(k, b))
		} else {
			hi = nil
		}
	}
	return
}

// assume adds a branch condition that can be said in integers; others are
// left out, which is sound for proofs.
func (e *ienc) assume(t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(*unsupportedErr); !ok {
				panic(r)
			}
		}
	}()
	if s := e.cond(t); s != "" {
		e.s.send("(assert " + s + ")\n")
	}
}

func (e *ienc) cond(t *Term) string {
	rel := func(op string, a, b *ilin) string {
		return "(" + op + " " + e.smt(e.norm(a)) + " " + e.smt(e.norm(b)) + ")"
	}
	switch t.op {
	case OBNot:
		if s := e.cond(t.a); s != "" {
			return "(not " + s + ")"
		}
	case OSlt:
		a, b := e.signed(t.a), e.signed(t.b)
		return rel("<", a, b)
	case OSle:
		a, b := e.signed(t.a), e.signed(t.b)
		return rel("<=", a, b)
	case OUlt:
		a, b := e.unsigned(t.a), e.unsigned(t.b)
		return rel("<", a, b)
	case OUle:
		a, b := e.unsigned(t.a), e.unsigned(t.b)
		return rel("<=", a, b)
	case OEq:
		if t.a.w > 0 {
			a, b := e.unsigned(t.a), e.unsigned(t.b)
			return rel("=", a, b)
		}
	}
	return ""
}

// floor is floor(l / 2^k).
func (e *ienc) floor(l *ilin, k uint) *ilin {
	if k == 0 {
		return l
	}
	l = e.norm(l)
	m, r := icon(new(big.Int)), icon(new(big.Int))
	p := pow2(k)
	for _, v := range l.vars() {
		q, rem := new(big.Int).QuoRem(l.k[v], p, new(big.Int))
		m.addTerm(v, q)
		r.addTerm(v, rem)
	}
	q, rem := new(big.Int).DivMod(l.c, p, new(big.Int))
	m.c.Set(q)
	r.c.Set(rem)
	if r.isConst() {
		return m
	}
	// drop a lower part that cannot carry: r = A + 2^j*B with 0 <= A < 2^j
	tz := map[uint]bool{}
	for _, k := range r.k {
		if n := k.TrailingZeroBits(); n > 0 {
			tz[n] = true
		}
	}
	var js []int
	for n := range tz {
		js = append(js, int(n))
	}
	sort.Sort(sort.Reverse(sort.IntSlice(js)))
	for _, jj := range js {
		j := uint(jj)
		a, b := icon(new(big.Int)), icon(new(big.Int))
		for v, k := range r.k {
			if k.TrailingZeroBits() >= j {
				b.addTerm(v, new(big.Int).Rsh(k, j))
			} else {
				a.addTerm(v, k)
			}
		}
		q, rem := new(big.Int).DivMod(r.c, pow2(j), new(big.Int))
		b.c.Set(q)
		a.c.Set(rem)
		if a.isConst() && a.c.Sign() == 0 || e.inRange(a, new(big.Int), new(big.Int).Sub(pow2(j), bigOne)) {
			return m.plus(e.floor(b, k-j), bigOne)
		}
	}
	if e.inRange(r, new(big.Int), new(big.Int).Sub(p, bigOne)) {
		return m
	}
	key := fmt.Sprintf("%s/%d", r.key(), k)
	if f, ok := e.floors[key]; ok {
		return m.plus(f, bigOne)
	}
	qlo, qhi := e.interval(r)
	if qlo != nil {
		qlo.Rsh(qlo, k)
	}
	if qhi != nil {
		qhi.Rsh(qhi, k)
	}
	qv := e.newVar("q", qlo, qhi)
	rv := e.newVar("r", new(big.Int), new(big.Int).Sub(p, bigOne))
	def := e.one(qv).scale(p).plus(e.one(rv), bigOne) // r = def
	e.s.send("(assert (= " + e.smt(r) + " " + e.smt(def) + "))\n")
	// use the definition to eliminate a variable with coefficient +-1
	piv := -1
	for _, v := range r.vars() {
		if k := r.k[v]; k.CmpAbs(bigOne) == 0 {
			piv = v
		}
	}
	if piv >= 0 {
		rest := r.clone()
		k := rest.k[piv]
		delete(rest.k, piv)
		// k*piv + rest = def  =>  piv = k*(def - rest)
		e.subst[piv] = def.plus(rest, big.NewInt(-1)).scale(k)
	}
	e.floors[key] = e.one(qv)
	return m.plus(e.one(qv), bigOne)
}

func (e *ienc) mulLin(a, b *ilin) *ilin {
	if a.isConst() {
		return b.scale(a.c)
	}
	if b.isConst() {
		return a.scale(b.c)
	}
	r := a.scale(b.c).plus(b, a.c)
	r.c.Sub(r.c, new(big.Int).Mul(a.c, b.c))
	for _, v := range a.vars() {
		for _, w := range b.vars() {
			r.addTerm(e.monomial(v, w), new(big.Int).Mul(a.k[v], b.k[w]))
		}
	}
	return r
}

func (e *ienc) monomial(a, b int) int {
	if a > b {
		a, b = b, a
	}
	if m, ok := e.mono[[2]int{a, b}]; ok {
		return m
	}
	va, vb := e.v[a], e.v[b]
	if va.lo == nil || vb.lo == nil || va.hi == nil || vb.hi == nil {
		panic(unsupported("product of unbounded values"))
	}
	var lo, hi *big.Int
	for _, x := range []*big.Int{va.lo, va.hi} {
		for _, y := range []*big.Int{vb.lo, vb.hi} {
			p := new(big.Int).Mul(x, y)
			if lo == nil || p.Cmp(lo) < 0 {
				lo = p
			}
			if hi == nil || p.Cmp(hi) > 0 {
				hi = p
			}
		}
	}
	if a == b && va.lo.Sign() < 0 && va.hi.Sign() > 0 {
		lo = new(big.Int)
	}
	m := e.newVar("m", lo, hi)
	e.v[m].a, e.v[m].b = a, b
	e.mono[[2]int{a, b}] = m
	return m
}

func (e *ienc) unsigned(t *Term) *ilin {
	return e.lowBits(e.lin(t), uint(t.w))
}

// lowBits is l mod 2^w.
func (e *ienc) lowBits(l *ilin, w uint) *ilin {
	if e.inRange(l, new(big.Int), new(big.Int).Sub(pow2(w), bigOne)) {
		return l
	}
	return l.plus(e.floor(l, w), new(big.Int).Neg(pow2(w)))
}

func (e *ienc) signed(t *Term) *ilin {
	l := e.lin(t)
	h := pow2(uint(t.w) - 1)
	if e.inRange(l, new(big.Int).Neg(h), new(big.Int).Sub(h, bigOne)) {
		return l
	}
	e.wraps++
	s := l.clone()
	s.c.Add(s.c, h)
	return l.plus(e.floor(s, uint(t.w)), new(big.Int).Neg(pow2(uint(t.w))))
}

// lin is a linear form congruent to t modulo 2^w.
func (e *ienc) lin(t *Term) *ilin {
	if l, ok := e.mem[t]; ok {
		return e.norm(l)
	}
	l := e.norm(e.lin1(t))
	e.mem[t] = l
	return l
}

func (e *ienc) lin1(t *Term) *ilin {
	minus := big.NewInt(-1)
	if t.w == 0 {
		panic(unsupported("boolean in field arithmetic"))
	}
	switch t.op {
	case OConst:
		return icon(big.NewInt(sext(t.val, t.w)))
	case OVar:
		if x, ok := e.fix[t]; ok {
			return icon(x)
		}
		if v, ok := e.byT[t]; ok {
			return e.one(v)
		}
		lo, hi, ok := e.bounds(t)
		if !ok {
			lo, hi = new(big.Int), new(big.Int).Sub(pow2(uint(t.w)), bigOne)
		}
		v := e.newVar("x", lo, hi)
		e.v[v].t = t
		e.byT[t] = v
		return e.one(v)
	case OAdd:
		return e.lin(t.a).plus(e.lin(t.b), bigOne)
	case OSub:
		return e.lin(t.a).plus(e.lin(t.b), minus)
	case ONeg:
		return e.lin(t.a).scale(minus)
	case ONot:
		r := e.lin(t.a).scale(minus)
		r.c.Sub(r.c, bigOne)
		return r
	case OMul:
		return e.mulLin(e.lin(t.a), e.lin(t.b))
	case OShl:
		if t.b.op == OConst {
			return e.lin(t.a).scale(pow2(uint(t.b.val)))
		}
	case OAshr:
		if t.b.op == OConst {
			k := uint(t.b.val)
			if k >= uint(t.w) {
				k = uint(t.w) - 1
			}
			return e.floor(e.signed(t.a), k)
		}
	case OLshr:
		if t.b.op == OConst && t.b.val < uint64(t.w) {
			return e.floor(e.unsigned(t.a), uint(t.b.val))
		}
	case OExtract:
		return e.floor(e.lin(t.a), uint(t.val))
	case OZext:
		return e.unsigned(t.a)
	case OSext:
		return e.signed(t.a)
	case OConcat:
		return e.lin(t.a).scale(pow2(uint(t.b.w))).plus(e.unsigned(t.b), bigOne)
	case OAnd:
		a, b := t.a, t.b
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst && b.val != 0 {
			m := b.val
			lo := uint(0)
			for m&1 == 0 {
				m >>= 1
				lo++
			}
			if m&(m+1) == 0 {
				n := uint(0)
				for m != 0 {
					m >>= 1
					n++
				}
				x := e.floor(e.lin(a), lo)
				if lo+n < uint(t.w) {
					x = e.lowBits(x, n)
				}
				return x.scale(pow2(lo))
			}
		}
	case OOr, OXor:
		if (t.a.zeros|t.b.zeros)&mask(t.w) == mask(t.w) {
			return e.lin(t.a).plus(e.lin(t.b), bigOne)
		}
		for _, ab := range [][2]*Term{{t.a, t.b}, {t.b, t.a}} {
			hi, lo := e.lin(ab[0]), e.lin(ab[1])
			n := uint(64)
			for _, k := range hi.k {
				n = min(n, k.TrailingZeroBits())
			}
			if hi.c.Sign() != 0 {
				n = min(n, hi.c.TrailingZeroBits())
			}
			if n > 0 && e.inRange(lo, new(big.Int), new(big.Int).Sub(pow2(n), bigOne)) {
				return hi.plus(lo, bigOne)
			}
		}
	}
	panic(unsupported("field arithmetic: operation " + opNames[t.op]))
}
