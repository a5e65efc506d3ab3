package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

// JobSpec is one harness with the cases to run.
type JobSpec struct {
	Harness  string
	Quick    int      // cases 0..Quick-1 in the quick tier
	Thorough int      // cases 0..Thorough-1 in the thorough tier (0: as quick)
	Off      []string // redirects switched off (the real body is executed)
	Budget   int      // seconds per case (quick)
	Custom   func(ctx *CheckCtx, out *JobResult)
}

type PropSpec struct {
	ID          string
	Level       string
	Bounds      string
	Assumptions []string
	Jobs        []JobSpec
	Search      string // native search run when an operation the property rests on is refuted
}

type JobResult struct {
	name       string
	caseNo     int
	stats      exploreStats
	queries    int
	sat, unsat int
	unk        int
	solverTime time.Duration
	wall       time.Duration
	encoded    map[string]int
	cands      []*Candidate
	results    []*PathResult
	inconcl    map[string]int
	incomplete map[string]int
	reached    map[string]int
	err        error
	validated  int
	mismatch   []string
	nativeViol []*Violation
	notes      []string
}

type Violation struct {
	Property string       `json:"property"`
	Label    string       `json:"label"`
	Msg      string       `json:"msg"`
	Where    string       `json:"where,omitempty"`
	Vector   Vector       `json:"vector"`
	Native   NativeResult `json:"native"`
}

type CheckCtx struct {
	ld       *Loaded
	thorough bool
	seed     int
	deadline time.Time
	prop     *PropSpec
}

// label ownership: an assertion label "S01: ..." belongs to property S01;
// labels without a prefix belong to the property being checked.
func labelProp(label string) string {
	if i := strings.Index(label, ":"); i == 3 || i == 4 {
		p := label[:i]
		if p[0] >= 'A' && p[0] <= 'Z' && p[1] >= '0' && p[1] <= '9' {
			return p
		}
	}
	return ""
}

func runJob(ctx *CheckCtx, js JobSpec, cs int) *JobResult {
	t0 := time.Now()
	jr := &JobResult{name: js.Harness, caseNo: cs}
	defer func() { jr.wall = time.Since(t0) }()
	if js.Custom != nil {
		func() {
			defer func() {
				if r := recover(); r != nil {
					jr.err = fmt.Errorf("custom job: %v", r)
				}
			}()
			js.Custom(ctx, jr)
		}()
		return jr
	}
	fn := ctx.ld.harnesses[js.Harness]
	if fn == nil {
		jr.err = fmt.Errorf("harness %s not available on this tree", js.Harness)
		return jr
	}
	e := NewExplorer(ctx.ld)
	e.harness, e.caseNo = js.Harness, cs
	e.seed = int64(ctx.seed) * 1000003
	b := js.Budget
	if b == 0 {
		b = 120
	}
	if ctx.thorough {
		b *= 4
		e.opts["thorough"] = 1
	}
	e.deadline = time.Now().Add(time.Duration(b) * time.Second)
	if e.deadline.After(ctx.deadline) {
		e.deadline = ctx.deadline
	}
	for _, o := range js.Off {
		e.redirectOff[o] = true
	}
	if err := e.Run(fn); err != nil {
		jr.err = err
	}
	jr.stats = e.stats
	jr.queries, jr.sat, jr.unsat, jr.unk = e.solver.Queries, e.solver.SatN, e.solver.UnsatN, e.solver.UnkN
	jr.solverTime = e.solver.Time
	jr.encoded = e.encoded
	jr.cands, jr.results = e.cands, e.results
	jr.inconcl, jr.incomplete, jr.reached = e.inconcl, e.incomplete, e.reached
	return jr
}

func (ctx *CheckCtx) vec(v Vector) Vector {
	if ctx.thorough {
		if v.Ints == nil {
			v.Ints = map[string]uint64{}
		}
		v.Ints["__thorough"] = 1
	}
	return v
}

// validate replays sampled paths natively and compares what was observed.
func validate(ctx *CheckCtx, jr *JobResult) {
	if ctx.ld.vrun == "" {
		return
	}
	for _, p := range jr.results {
		if p.kind != "done" {
			continue
		}
		v := ctx.vec(p.vec)
		r := ctx.ld.Native(v, 60*time.Second)
		if r.Outcome != "done" {
			jr.mismatch = append(jr.mismatch, fmt.Sprintf("%s/%d: native outcome %s %s on %s", jr.name, jr.caseNo, r.Outcome, r.Panic, vecStr(v)))
			if r.Outcome == "panic" || r.Outcome == "crash" {
				jr.nativeViol = append(jr.nativeViol, &Violation{Label: "panic", Msg: r.Panic, Vector: v, Native: r})
			}
			continue
		}
		for _, f := range r.Failed {
			jr.nativeViol = append(jr.nativeViol, &Violation{Label: f, Msg: "assertion fails natively on a sampled path", Vector: v, Native: r})
		}
		ok := len(r.Obs) == len(p.obs)
		if ok {
			for i := range r.Obs {
				if r.Obs[i] != p.obs[i] {
					ok = false
					jr.mismatch = append(jr.mismatch, fmt.Sprintf("%s/%d: %s symbolic %.200s native %.200s on %s", jr.name, jr.caseNo, r.Obs[i].Label, p.obs[i].Val, r.Obs[i].Val, vecStr(v)))
					break
				}
			}
		} else {
			jr.mismatch = append(jr.mismatch, fmt.Sprintf("%s/%d: %d observations natively, %d symbolically on %s", jr.name, jr.caseNo, len(r.Obs), len(p.obs), vecStr(v)))
		}
		if ok {
			jr.validated++
		}
	}
}

func vecStr(v Vector) string {
	b, _ := json.Marshal(v)
	if len(b) > 600 {
		return string(b[:600]) + "..."
	}
	return string(b)
}

func mainCheck() {
	repo := flag.String("repo", "/repo", "")
	verif := flag.String("verif", "/verif", "")
	tier := flag.String("tier", "", "quick or thorough")
	prop := flag.String("prop", "", "property id")
	harness := flag.String("harness", "", "run one harness (development)")
	cs := flag.Int("case", -1, "only this case (development)")
	nj := flag.Int("j", runtime.NumCPU(), "parallel jobs")
	rep := flag.String("replay", "", "replay a stored violation")
	verbose := flag.Bool("v", false, "")
	flag.Parse()
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier == "" {
		*tier = "quick"
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	t0 := time.Now()
	work, err := os.MkdirTemp("", "psv-")
	if err != nil {
		fmt.Println("cannot create work directory:", err)
		os.Exit(3)
	}
	code := 0
	func() {
		defer os.RemoveAll(work)
		ld, err := Load(*repo, *verif, work)
		if err == nil {
			for _, d := range ld.dropped {
				fmt.Println("NOTE dropped:", d)
			}
			err = ld.BuildNative()
		}
		if *rep != "" {
			code = replayFile(ld, err, *rep)
			return
		}
		if *harness != "" {
			if err != nil {
				fmt.Println(err)
				code = 3
				return
			}
			devRun(ld, *harness, *cs, *tier == "thorough", *verbose, *nj)
			return
		}
		sp := specByID(*prop)
		if sp == nil {
			fmt.Println("unknown property", *prop)
			code = 3
			return
		}
		code = runProp(ld, err, sp, *verif, *tier, seed, *nj, t0, *verbose)
	}()
	os.Exit(code)
}

func replayFile(ld *Loaded, err error, path string) int {
	b, e := os.ReadFile(path)
	if e != nil || err != nil {
		fmt.Println(e, err)
		return 3
	}
	var v Violation
	if e := json.Unmarshal(b, &v); e != nil {
		fmt.Println(e)
		return 3
	}
	if strings.HasPrefix(v.Label, sharedLabel) {
		out := ld.raceRun(ld.verif)
		fmt.Println(out)
		if out != "" {
			fmt.Println("REPRODUCED", v.Label)
			return 1
		}
		fmt.Println("not reproduced")
		return 0
	}
	r := ld.Native(v.Vector, 60*time.Second)
	js, _ := json.MarshalIndent(r, "", " ")
	fmt.Printf("%s\n", js)
	if r.confirms(v.Label) {
		fmt.Println("REPRODUCED", v.Label)
		return 1
	}
	fmt.Println("not reproduced")
	return 0
}

func runJobs(ctx *CheckCtx, jobs []JobSpec, nj int, only int) []*JobResult {
	type item struct {
		js JobSpec
		c  int
	}
	var items []item
	for _, j := range jobs {
		n := j.Quick
		if ctx.thorough && j.Thorough > 0 {
			n = j.Thorough
		}
		if n == 0 {
			n = 1
		}
		for c := 0; c < n; c++ {
			if only >= 0 && c != only {
				continue
			}
			items = append(items, item{j, c})
		}
	}
	out := make([]*JobResult, len(items))
	var wg sync.WaitGroup
	sem := make(chan bool, nj)
	for i := range items {
		wg.Add(1)
		sem <- true
		go func(i int) {
			defer wg.Done()
			defer func() { <-sem }()
			out[i] = runJob(ctx, items[i].js, items[i].c)
			validate(ctx, out[i])
		}(i)
	}
	wg.Wait()
	return out
}

func devRun(ld *Loaded, h string, cs int, thorough, verbose bool, nj int) {
	ctx := &CheckCtx{ld: ld, thorough: thorough, deadline: time.Now().Add(3600 * time.Second)}
	jobs := []JobSpec{}
	for _, sp := range specs() {
		for _, j := range sp.Jobs {
			if j.Harness == h {
				jobs = []JobSpec{j}
			}
		}
	}
	if len(jobs) == 0 {
		jobs = []JobSpec{{Harness: h, Quick: max(cs+1, 1)}}
	}
	if cs >= 0 {
		jobs[0].Quick, jobs[0].Thorough = cs+1, cs+1
	}
	stop := startProf()
	rs := runJobs(ctx, jobs, nj, cs)
	stop()
	for _, r := range rs {
		fmt.Printf("%s/%d: wall %.1fs paths %d (done %d panic %d bound %d unsupp %d assume %d) forks %d steps %d asserts %d (q %d) byrange %d queries %d (sat %d unsat %d unk %d) solver %.1fs validated %d\n", r.name, r.caseNo, r.wall.Seconds(),
			r.stats.paths, r.stats.done, r.stats.panics, r.stats.bound, r.stats.unsupp, r.stats.assumeEnded, r.stats.forks, r.stats.steps, r.stats.asserts, r.stats.assertQ, r.stats.byRange, r.queries, r.sat, r.unsat, r.unk, r.solverTime.Seconds(), r.validated)
		if r.err != nil {
			fmt.Println("  ERROR", r.err)
		}
		for k, v := range r.inconcl {
			fmt.Println("  INCONCLUSIVE", v, k)
		}
		for k, v := range r.incomplete {
			fmt.Println("  INCOMPLETE", v, k)
		}
		fmt.Println("  reached", r.reached)
		for _, m := range r.mismatch {
			fmt.Println("  MISMATCH", m)
		}
		for _, n := range r.notes {
			fmt.Println("  NOTE", n)
		}
		perLabel := map[string]int{}
		for _, c := range r.cands {
			if perLabel[c.Label]++; perLabel[c.Label] > 2 && !verbose {
				continue
			}
			n := ld.Native(ctx.vec(c.Vec), 20*time.Second)
			fmt.Println("  CAND", c.Label, "|", c.Msg, "|", c.Where, vecStr(c.Vec), "confirmed:", n.confirms(c.Label), n.Outcome, n.Panic, n.Failed)
		}
		for _, v := range r.nativeViol {
			fmt.Println("  NATIVE", v.Label, v.Msg, vecStr(v.Vector))
		}
		if verbose {
			var ks []string
			for k, n := range r.encoded {
				ks = append(ks, fmt.Sprintf("%s x%d", k, n))
			}
			sort.Strings(ks)
			fmt.Println("  encoded:", strings.Join(ks, "\n    "))
			for _, p := range r.results {
				fmt.Println("  path", p.kind, p.msg, vecStr(p.vec), p.obs)
			}
		}
	}
}

type knownFinding struct {
	prop, key, text string
}

// known findings: lines "finding: property=<id> key=<label-or-substring> <what>"
func loadFindings(path string) []knownFinding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		var k knownFinding
		f := strings.Fields(l[9:])
		for i, w := range f {
			if strings.HasPrefix(w, "property=") {
				k.prop = w[9:]
			} else if strings.HasPrefix(w, "label=") {
				k.key = strings.ReplaceAll(w[6:], "_", " ")
			} else {
				k.text = strings.Join(f[i:], " ")
				break
			}
		}
		out = append(out, k)
	}
	return out
}

func runProp(ld *Loaded, lerr error, sp *PropSpec, verif, tier string, seed, nj int, t0 time.Time, verbose bool) int {
	thorough := tier == "thorough"
	limit := 600 * time.Second
	if thorough {
		limit = 3 * time.Hour
	}
	ctx := &CheckCtx{ld: ld, thorough: thorough, seed: seed, deadline: t0.Add(limit), prop: sp}
	var rs []*JobResult
	if lerr == nil {
		rs = runJobs(ctx, sp.Jobs, nj, -1)
	} else {
		fmt.Println("NOTE cannot encode this tree:", lerr)
	}
	findings := loadFindings(filepath.Join(verif, "KNOWN_FINDINGS.txt"))
	var viols []*Violation
	unconfirmed := []string{}
	seen := map[string]bool{}
	foreign := []string{}
	known := map[string]bool{}
	add := func(v *Violation) {
		v.Property = sp.ID
		if p := labelProp(v.Label); p != "" && p != sp.ID {
			foreign = append(foreign, v.Label)
			return
		}
		for _, k := range findings {
			if k.prop == sp.ID && k.key == v.Label {
				if !known[k.key] {
					known[k.key] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", sp.ID, k.text)
				}
				return
			}
		}
		if seen[v.Label+v.Vector.Harness] {
			return
		}
		seen[v.Label+v.Vector.Harness] = true
		viols = append(viols, v)
	}
	for _, r := range rs {
		for _, c := range r.cands {
			v := ctx.vec(c.Vec)
			if strings.HasPrefix(c.Label, sharedLabel) {
				if out := ld.raceRun(verif); out != "" {
					add(&Violation{Label: c.Label, Msg: c.Msg, Where: c.Where, Vector: v, Native: NativeResult{Outcome: "race", Panic: out}})
				} else {
					unconfirmed = append(unconfirmed, fmt.Sprintf("%s/%d %s (%s): no race seen in concurrent runs", r.name, r.caseNo, c.Label, c.Msg))
				}
				continue
			}
			n := ld.Native(v, 20*time.Second)
			if n.confirms(c.Label) {
				add(&Violation{Label: c.Label, Msg: c.Msg, Where: c.Where, Vector: v, Native: n})
			} else {
				unconfirmed = append(unconfirmed, fmt.Sprintf("%s/%d %s (%s): native %s", r.name, r.caseNo, c.Label, c.Msg, n.Outcome))
				for _, f := range n.Failed { // another assertion of the harness fails natively
					add(&Violation{Label: f, Msg: "fails natively on the counterexample of " + c.Label, Vector: v, Native: n})
				}
			}
		}
		for _, v := range r.nativeViol {
			add(v)
		}
	}
	if sp.Search != "" && len(viols) == 0 && len(foreign) > 0 {
		var mu sync.Mutex
		var wg sync.WaitGroup
		for i := 0; i < 8; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				v := ctx.vec(Vector{Harness: sp.Search, Ints: map[string]uint64{"seed#0": uint64(seed*8 + i)}})
				n := ld.Native(v, 60*time.Second)
				mu.Lock()
				defer mu.Unlock()
				for _, f := range n.Failed {
					add(&Violation{Label: f, Msg: "consequence of a refuted operation: " + foreign[0], Vector: v, Native: n})
				}
			}(i)
		}
		wg.Wait()
	}
	// evidence
	cov := map[string]any{}
	var tot exploreStats
	var queries, sat, unsat, unk, validated, obl, dis int
	var stime time.Duration
	enc := map[string]int{}
	inc := map[string]int{}
	incon := map[string]int{}
	var mism, errs, vac, notes []string
	var samples []any
	harn := map[string]map[string]any{}
	for _, r := range rs {
		tot.forks += r.stats.forks
		tot.paths += r.stats.paths
		tot.steps += r.stats.steps
		tot.asserts += r.stats.asserts
		tot.assertQ += r.stats.assertQ
		tot.trivial += r.stats.trivial
		queries += r.queries
		sat += r.sat
		unsat += r.unsat
		unk += r.unk
		stime += r.solverTime
		validated += r.validated
		for k, v := range r.encoded {
			if v > 0 {
				enc[k] += v
			}
		}
		for k, v := range r.incomplete {
			inc[r.name+": "+k] += v
		}
		for k, v := range r.inconcl {
			incon[r.name+": "+k] += v
		}
		mism = append(mism, r.mismatch...)
		for _, n := range r.notes {
			notes = append(notes, r.name+": "+n)
		}
		if r.err != nil {
			errs = append(errs, fmt.Sprintf("%s/%d: %v", r.name, r.caseNo, r.err))
		}
		h := harn[r.name]
		if h == nil {
			h = map[string]any{"cases": 0, "paths": int64(0), "wall_s": 0.0, "reached": map[string]int{}}
			harn[r.name] = h
		}
		h["cases"] = h["cases"].(int) + 1
		h["paths"] = h["paths"].(int64) + r.stats.paths
		h["wall_s"] = h["wall_s"].(float64) + r.wall.Seconds()
		for k, v := range r.reached {
			h["reached"].(map[string]int)[k] += v
		}
		if len(samples) < 6 {
			for i, p := range r.results {
				if i < 2 {
					samples = append(samples, map[string]any{"harness": r.name, "outcome": p.kind, "inputs": json.RawMessage(vecJSON(p.vec)), "observed": p.obs})
				}
			}
		}
	}
	for n, h := range harn {
		if len(h["reached"].(map[string]int)) == 0 && h["paths"].(int64) > 0 {
			vac = append(vac, n)
		}
	}
	repoFns := []string{}
	lib := 0
	for k := range enc {
		if strings.Contains(k, modPath) && !strings.Contains(k, modPath+"/internal/v") {
			repoFns = append(repoFns, strings.ReplaceAll(k, modPath+"/", ""))
		} else {
			lib++
		}
	}
	sort.Strings(repoFns)
	if samples == nil {
		samples = []any{}
	}
	cov["states"] = tot.paths + tot.forks
	cov["transitions"] = tot.steps
	cov["traces_validated_against_impl"] = validated
	cov["samples"] = samples
	cov["paths"] = tot.paths
	cov["assertions_checked"] = tot.asserts
	cov["assertions_decided_by_solver"] = tot.assertQ
	cov["assertions_decided_by_simplification"] = tot.trivial
	obl = int(tot.asserts)
	dis = max(0, obl-len(viols)-len(unconfirmed))
	for _, n := range incon {
		dis = max(0, dis-n)
	}
	cov["obligations"] = obl
	cov["discharged"] = dis
	cov["solver_queries"] = queries
	cov["solver_unsat"] = unsat
	cov["solver_sat"] = sat
	cov["solver_unknown"] = unk
	cov["solver_time_s"] = stime.Seconds()
	cov["functions_encoded"] = repoFns
	cov["library_functions_encoded"] = lib
	cov["harnesses"] = harn
	cov["bounds"] = sp.Bounds
	cov["incomplete"] = inc
	cov["inconclusive"] = incon
	cov["unconfirmed_candidates"] = unconfirmed
	cov["encoding_mismatches"] = mism
	cov["errors"] = errs
	cov["vacuous_harnesses"] = vac
	cov["violations_of_other_properties"] = foreign
	cov["notes"] = notes
	if ld != nil {
		cov["dropped"] = ld.dropped
		cov["load_s"] = ld.loadTime.Seconds()
	}
	if lerr != nil {
		cov["not_encoded"] = lerr.Error()
	}
	ev := map[string]any{"property": sp.ID, "tier": tier, "seed": seed, "level": sp.Level, "coverage": cov,
		"assumptions": append(append([]string{}, commonAssumptions...), sp.Assumptions...), "wall_s": time.Since(t0).Seconds(), "violations": len(viols)}
	js, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", sp.ID+".json"), js, 0644); err != nil {
		fmt.Println("cannot write evidence:", err)
		return 3
	}
	fmt.Printf("%s %s: %d harness cases, %d paths, %d SSA instructions, %d assertions (%d discharged), %d solver queries (%.1fs), %d traces validated, %.1fs\n",
		sp.ID, tier, len(rs), tot.paths, tot.steps, obl, dis, queries, stime.Seconds(), validated, time.Since(t0).Seconds())
	for k, v := range inc {
		fmt.Println("  reduced coverage:", v, k)
	}
	for k, v := range incon {
		fmt.Println("  inconclusive:", v, k)
	}
	for _, m := range append(append(mism, errs...), unconfirmed...) {
		fmt.Println("  note:", m)
	}
	for _, v := range vac {
		fmt.Println("  vacuous:", v)
	}
	if len(viols) == 0 {
		return 0
	}
	os.MkdirAll(filepath.Join(verif, "replay"), 0755)
	for i, v := range viols {
		p := filepath.Join(verif, "replay", fmt.Sprintf("%s-%d.json", sp.ID, i))
		js, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(p, js, 0644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", sp.ID, p)
		fmt.Printf("  %s: %s\n  inputs: %s\n", v.Label, v.Msg, vecStr(v.Vector))
	}
	return 1
}

func vecJSON(v Vector) string {
	// keep samples readable
	w := Vector{Harness: v.Harness, Case: v.Case, Ints: v.Ints, Bytes: map[string]string{}}
	for k, s := range v.Bytes {
		if len(s) > 120 {
			s = s[:120] + "..."
		}
		w.Bytes[k] = s
	}
	b, _ := json.Marshal(w)
	return string(b)
}
