package main

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// A guard watches the memory that concurrent operations share: everything
// reachable from the package-level variables of the module under test, and
// from values the harness names.  Any write to it on a feasible path is a
// candidate violation.
type guard struct {
	label string
	objs  map[uint32]bool
	hit   bool
}

const sharedLabel = "shared: "

func modUnderTest(p *ssa.Package) bool {
	path := p.Pkg.Path()
	return (path == modPath || strings.HasPrefix(path, modPath+"/")) && !strings.HasPrefix(path, modPath+"/internal/v") && !strings.HasSuffix(path, "/vrun")
}

func (st *State) harnessFn(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	p := st.e.ld.prog.Fset.Position(fn.Pos())
	return strings.HasPrefix(filepath.Base(p.Filename), "zz_vh_")
}

// guardInit runs the initialisers of the module's packages.
func (st *State) guardInit() {
	for _, p := range st.e.ld.prog.AllPackages() {
		if modUnderTest(p) {
			st.initPkg(p)
		}
	}
}

func (st *State) guardStart(label string, vals []Value) {
	g := &guard{label: sharedLabel + label, objs: map[uint32]bool{}}
	for _, p := range st.e.ld.prog.AllPackages() {
		if !modUnderTest(p) {
			continue
		}
		for _, m := range p.Members {
			v, ok := m.(*ssa.Global)
			if !ok || strings.HasPrefix(v.Name(), "init$") {
				continue
			}
			pos := st.e.ld.prog.Fset.Position(v.Pos())
			if strings.HasPrefix(filepath.Base(pos.Filename), "zz_vh_") {
				continue
			}
			st.guardMark(g, st.globalPtr(v))
		}
	}
	for _, v := range vals {
		st.guardMark(g, v)
	}
	st.guard = g
}

func (st *State) guardMark(g *guard, v Value) {
	switch x := v.(type) {
	case Ptr:
		if x.obj == 0 || g.objs[x.obj] {
			return
		}
		o, ok := st.heap.get(x.obj)
		if !ok {
			return
		}
		g.objs[x.obj] = true
		st.guardMark(g, o)
	case *SliceV:
		st.guardMark(g, x.base)
	case *StructV:
		for _, f := range x.f {
			st.guardMark(g, f)
		}
	case *ArrV:
		for _, f := range x.e {
			st.guardMark(g, f)
		}
	case IfaceV:
		st.guardMark(g, x.v)
	case MapV:
		st.guardMark(g, Ptr{obj: x.obj})
	case *MapObj:
		for i := range x.k {
			st.guardMark(g, x.k[i])
			st.guardMark(g, x.v[i])
		}
	case UnsafeV:
		st.guardMark(g, x.p)
	case TupleV:
		for _, f := range x {
			st.guardMark(g, f)
		}
	case *FuncV:
		if x != nil && x.fn != nil && !st.harnessFn(x.fn) {
			for _, b := range x.binds {
				st.guardMark(g, b)
			}
		}
	}
}

// guardWrite is called for every write to an object while a guard is on.
func (st *State) guardWrite(id uint32) {
	g := st.guard
	if !g.objs[id] || g.hit || len(st.frames) == 0 {
		return
	}
	if st.harnessFn(st.top().fi.fn) {
		return
	}
	for _, f := range st.frames {
		if f.fi.fn.Name() == "init" && f.fi.fn.Synthetic != "" {
			return
		}
	}
	h := *g
	h.hit = true
	st.guard = &h
	st.candidate(g.label, "written by "+st.top().fi.name, st.model)
}

// raceRun runs the concurrent operations natively under the race detector.
// It reports what was found ("" if nothing).
func (ld *Loaded) raceRun(verif string) string {
	ld.raceOnce.Do(func() {
		rep := map[string]string{}
		for _, f := range []struct{ dir, file string }{{"crypto", "race_test.go"}, {"base64", "race64_test.go"}} {
			rep[filepath.Join(ld.repo, f.dir, "zz_"+f.file)] = filepath.Join(verif, "native", f.file)
		}
		js, _ := json.Marshal(map[string]any{"Replace": rep})
		ov := filepath.Join(ld.work, "race.json")
		if err := os.WriteFile(ov, js, 0644); err != nil {
			return
		}
		ctx, cancel := context.WithTimeout(context.Background(), 240*time.Second)
		defer cancel()
		cmd := exec.CommandContext(ctx, "go", "test", "-race", "-count=1", "-timeout", "120s", "-overlay", ov,
			"-modfile="+filepath.Join(ld.work, "go.mod"), "-run", "^TestVerifRace$", "./crypto", "./base64")
		cmd.Dir = ld.repo
		for _, e := range goEnv() {
			if !strings.HasPrefix(e, "CGO_ENABLED=") {
				cmd.Env = append(cmd.Env, e)
			}
		}
		cmd.Env = append(cmd.Env, "CGO_ENABLED=1")
		out, err := cmd.CombinedOutput()
		ld.raceOut = string(out)
		if err != nil && (strings.Contains(ld.raceOut, "DATA RACE") || strings.Contains(ld.raceOut, "--- FAIL: TestVerifRace") || strings.Contains(ld.raceOut, "panic:") || strings.Contains(ld.raceOut, "fatal error:")) {
			s := ld.raceOut
			if i := strings.Index(s, "WARNING: DATA RACE"); i >= 0 {
				s = s[i:]
			}
			if len(s) > 3000 {
				s = s[:3000]
			}
			ld.raceFound = s
		}
	})
	return ld.raceFound
}

var _ = fmt.Sprint
