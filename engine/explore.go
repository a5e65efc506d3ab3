package main

import (
	"encoding/hex"
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

func fatal(format string, a ...any) {
	panic(&engineFatal{fmt.Sprintf(format, a...)})
}

type engineFatal struct{ msg string }

func (e *engineFatal) Error() string { return e.msg }

// Vector is a concrete assignment of the harness inputs of one path.
type Vector struct {
	Harness string            `json:"harness"`
	Case    int               `json:"case"`
	Ints    map[string]uint64 `json:"ints,omitempty"`
	Bytes   map[string]string `json:"bytes,omitempty"`
}

// ObsVal is one observation of a path, concretised.
type ObsVal struct {
	Label string `json:"l"`
	Val   string `json:"v"`
}

type PathResult struct {
	kind    string
	msg     string
	vec     Vector
	obs     []ObsVal
	reached map[string]bool
	steps   int64
	exact   bool // every observation is independent of idealised functionality
}

// Candidate is a possible violation found symbolically.
type Candidate struct {
	Label string
	Msg   string
	Vec   Vector
	Where string
}

type exploreStats struct {
	forks, paths, steps         int64
	asserts, assertQ, trivial   int64
	done, panics, bound, unsupp int64
	assumeEnded, cacheHits      int64
	byRange                     int64
}

type Explorer struct {
	c              *Ctx
	prog           *ssa.Program
	progMu         *sync.Mutex
	ld             *Loaded
	fns            map[*ssa.Function]*FnInfo
	names          map[*ssa.Function]string
	encoded        map[string]int
	stats          exploreStats
	maxForks       int
	maxSteps       int64
	deadline       time.Time
	firstCand      time.Time
	redirects      map[string]*ssa.Function
	redirectOff    map[string]bool
	preHooks       map[string]func(st *State, fn *ssa.Function, args []Value, reg int) bool
	debug          bool
	work           []*State
	results        []*PathResult
	cands          []*Candidate
	candSeen       map[string]int
	inconcl        map[string]int
	incomplete     map[string]int
	reached        map[string]int
	runtimeErrType types.Type
	solver         *Solver
	cache          map[string]cacheEnt
	harness        string
	caseNo         int
	maxPaths       int
	maxSamples     int
	opts           map[string]int
	seed           int64
	fctx           *fctx
}

type cacheEnt struct {
	r SatResult
	m Model
}

func NewExplorer(ld *Loaded) *Explorer {
	e := &Explorer{c: NewCtx(), prog: ld.prog, progMu: &ld.mu, ld: ld,
		fns: map[*ssa.Function]*FnInfo{}, names: map[*ssa.Function]string{}, encoded: map[string]int{},
		maxForks: 20000, maxSteps: 30_000_000, redirects: ld.redirects, redirectOff: map[string]bool{},
		candSeen: map[string]int{}, inconcl: map[string]int{}, incomplete: map[string]int{}, reached: map[string]int{},
		cache: map[string]cacheEnt{}, maxPaths: 1 << 30, maxSamples: 40,
		runtimeErrType: ld.runtimeErrType, opts: map[string]int{}}
	e.solver = NewSolver(e.c, solverBin(), "-in", "-smt2")
	e.debug = os.Getenv("VERIF_DEBUG") != ""
	return e
}

func solverBin() string {
	if s := os.Getenv("VERIF_SOLVER"); s != "" {
		return s
	}
	return "z3-new"
}

func (e *Explorer) expired() bool {
	now := time.Now()
	if len(e.cands) > 0 { // a counterexample: look around for a while, then stop
		if e.firstCand.IsZero() {
			e.firstCand = now
		} else if now.Sub(e.firstCand) > 30*time.Second {
			return true
		}
	}
	return !e.deadline.IsZero() && now.After(e.deadline)
}

func (e *Explorer) push(s *State) { e.work = append(e.work, s) }
func (e *Explorer) inconclusive(why string) {
	e.inconcl[why]++
}

func (e *Explorer) fnByName(name string) *ssa.Function { return e.ld.fnByName(name) }

func (e *Explorer) check(cs []*Term) (SatResult, Model) {
	// constant folding
	out := cs[:0:0]
	seen := map[uint32]bool{}
	for _, t := range cs {
		if t.op == OConst {
			if t.val == 0 {
				return Unsat, nil
			}
			continue
		}
		if !seen[t.id] {
			seen[t.id] = true
			out = append(out, t)
		}
	}
	if len(out) == 0 {
		return Sat, Model{}
	}
	ids := make([]int, len(out))
	for i, t := range out {
		ids[i] = int(t.id)
	}
	sort.Ints(ids)
	var sb strings.Builder
	for _, i := range ids {
		fmt.Fprintf(&sb, "%d,", i)
	}
	k := sb.String()
	if ent, ok := e.cache[k]; ok {
		e.stats.cacheHits++
		return ent.r, ent.m
	}
	r, m := e.solver.Check(out)
	if r == Sat {
		// self-check of the encoding: the model must satisfy the constraints in the evaluator
		mem := map[*Term]uint64{}
		for _, t := range out {
			if e.c.eval(t, m, mem) == 0 {
				e.inconclusive("solver model rejected by the evaluator (encoding mismatch)")
				r = Unknown
				break
			}
		}
	}
	if r != Unknown {
		e.cache[k] = cacheEnt{r, m}
	}
	return r, m
}

func (st *State) vector() Vector {
	v := Vector{Harness: st.e.harness, Case: st.e.caseNo, Ints: map[string]uint64{}, Bytes: map[string]string{}}
	for _, in := range st.inputs {
		switch in.kind {
		case "int":
			v.Ints[in.name] = st.evalModel(in.t)
		case "bytes":
			n := st.evalModel(in.t)
			b := make([]byte, n)
			for i := range b {
				b[i] = byte(st.evalModel(st.c.symBaseRead(in.sb, st.c.Const(64, uint64(i)))))
			}
			v.Bytes[in.name] = hex.EncodeToString(b)
		}
	}
	return v
}

func (st *State) withModel(m Model, f func()) {
	om, oe := st.model, st.evalMem
	st.model, st.evalMem = m, nil
	f()
	st.model, st.evalMem = om, oe
}

func (st *State) candidate(label, msg string, m Model) {
	key := label + "|" + st.where()
	st.e.candSeen[key]++
	if st.e.candSeen[key] > 4 {
		return
	}
	st.withModel(m, func() {
		st.e.cands = append(st.e.cands, &Candidate{Label: label, Msg: msg, Vec: st.vector(), Where: st.where()})
	})
}

func (st *State) finish(kind, msg string) {
	e := st.e
	e.stats.paths++
	pr := &PathResult{kind: kind, msg: msg, steps: st.steps, reached: st.reached}
	switch kind {
	case "done":
		e.stats.done++
	case "panic":
		e.stats.panics++
		if e.candSeen["panic|"+msg]++; e.candSeen["panic|"+msg] <= 4 {
			e.cands = append(e.cands, &Candidate{Label: "panic", Msg: msg, Vec: st.vector()})
		}
	case "assume":
		e.stats.assumeEnded++
		return
	case "bound":
		e.stats.bound++
		e.incomplete[msg]++
		if strings.HasPrefix(msg, "step bound") {
			if e.candSeen["hang|"]++; e.candSeen["hang|"] <= 3 {
				e.cands = append(e.cands, &Candidate{Label: "hang", Msg: msg, Vec: st.vector()})
			} else {
				e.maxSteps = 2_000_000
			}
		}
		return
	default:
		e.stats.unsupp++
		e.incomplete["unsupported: "+msg]++
		if os.Getenv("VERIF_TRACE") != "" {
			fmt.Fprintln(os.Stderr, "UNSUPPORTED", e.harness, e.caseNo, msg)
		}
		return
	}
	for l := range st.reached {
		e.reached[l]++
	}
	if len(e.results) < e.maxSamples && !st.noSample {
		if kind == "done" {
			st.diversify(e.seed + int64(e.stats.paths))
		}
		pr.vec = st.vector()
		for _, o := range st.obs {
			pr.obs = append(pr.obs, ObsVal{o.label, o.eval(st)})
		}
		e.results = append(e.results, pr)
	}
}

// Run explores harness fn exhaustively (within the bounds).
func (e *Explorer) Run(fn *ssa.Function) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if ef, ok := r.(*engineFatal); ok {
				err = ef
				return
			}
			if e.debug {
				panic(r)
			}
			err = fmt.Errorf("engine: %v", r)
		}
	}()
	defer e.solver.Close()
	st := &State{e: e, c: e.c, own: &owner{}, known: map[*Term]bool{}, model: Model{}, names: map[string]int{},
		globals: map[*ssa.Global]uint32{}, inited: map[*ssa.Package]bool{}, reached: map[string]bool{}, records: map[string][]Value{}}
	st.nobj = 0
	func() {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(*unsupportedErr); ok {
					st.finish("unsupported", u.msg)
					return
				}
				panic(r)
			}
		}()
		st.pushCall(fn, nil, nil, -1)
		e.push(st)
	}()
	for len(e.work) > 0 {
		if e.expired() {
			e.incomplete["time bound: paths left unexplored"] += len(e.work)
			e.work = nil
			break
		}
		if e.stats.paths >= int64(e.maxPaths) {
			e.incomplete["path bound: paths left unexplored"] += len(e.work)
			e.work = nil
			break
		}
		s := e.work[len(e.work)-1]
		e.work = e.work[:len(e.work)-1]
		s.run()
	}
	return nil
}
