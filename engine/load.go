package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/kisom/psignify"

// importMap sends environment packages to their stand-ins.
var importMap = map[string][2]string{
	"os":                               {"os", "vos"},
	"io/ioutil":                        {"ioutil", "vioutil"},
	"crypto/rand":                      {"rand", "vrand"},
	"golang.org/x/crypto/ssh/terminal": {"terminal", "vterm"},
	"os/user":                          {"user", "vuser"},
	"sync":                             {"sync", "vsync"},
	"sync/atomic":                      {"atomic", "vatomic"},
	"time":                             {"time", "vtime"},
	"path/filepath":                    {"filepath", "vfilepath"},
	"math/rand":                        {"rand", "vmrand"},
	"flag":                             {"flag", "vflag"},
	"fmt":                              {"fmt", "vfmt"},
	"log":                              {"log", "vlog"},
}

type Loaded struct {
	repo, verif, work string
	overlay           map[string][]byte
	overlayJSON       string
	prog              *ssa.Program
	mu                sync.Mutex
	pkgs              map[string]*ssa.Package
	redirects         map[string]*ssa.Function
	runtimeErrType    types.Type
	harnesses         map[string]*ssa.Function
	dropped           []string
	loadTime          time.Duration
	vrun              string
	nativeErr         error
	fnMemo            map[string]*ssa.Function
	raceOnce          sync.Once
	raceOut           string
	raceFound         string
}

// harnessDirs maps harness directories to the package they join.
var harnessDirs = []struct{ dir, pkg string }{
	{"base64", "base64"},
	{"crypto", "crypto"},
	{"signify", "signify"},
	{"edwards", "signify/internal/edwards25519"},
	{"cmd", "internal/vcmd"},
}

func rewriteImports(path string, src []byte, asPkg string) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	type edit struct {
		at, end int
		s       string
	}
	var eds []edit
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		m, ok := importMap[p]
		if !ok {
			continue
		}
		name := m[0]
		if im.Name != nil {
			name = im.Name.Name
		}
		st := im.Pos()
		eds = append(eds, edit{fset.Position(st).Offset, fset.Position(im.Path.End()).Offset, fmt.Sprintf("%s %q", name, modPath+"/internal/"+m[1])})
	}
	if asPkg != "" {
		eds = append(eds, edit{fset.Position(f.Name.Pos()).Offset, fset.Position(f.Name.End()).Offset, asPkg})
	}
	sort.Slice(eds, func(i, j int) bool { return eds[i].at > eds[j].at })
	out := append([]byte(nil), src...)
	for _, e := range eds {
		out = append(out[:e.at:e.at], append([]byte(e.s), out[e.end:]...)...)
	}
	return out, nil
}

var vhRe = regexp.MustCompile(`(?m)^func VH_(\w+)\(\)`)

func goEnv() []string {
	env := os.Environ()
	return append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0", "GOOS=linux", "GOARCH=amd64")
}

// buildOverlay regenerates the overlay from the current tree.
func (ld *Loaded) buildOverlay(dropFiles, dropPkgs map[string]bool) error {
	ld.overlay = map[string][]byte{}
	repoPkgs := map[string]bool{}
	err := filepath.Walk(ld.repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() {
			b := fi.Name()
			if p != ld.repo && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(ld.repo, p)
		dir := filepath.ToSlash(filepath.Dir(rel))
		out, err := rewriteImports(p, src, "")
		if err != nil {
			return nil // the build would fail too
		}
		repoPkgs[dir] = true
		ld.overlay[p] = out
		if dir == "cmd/psignify" {
			out, err := rewriteImports(p, src, "vcmd")
			if err == nil {
				ld.overlay[filepath.Join(ld.repo, "internal/vcmd", filepath.Base(p))] = out
				repoPkgs["internal/vcmd"] = true
			}
		}
		return nil
	})
	if err != nil {
		return err
	}
	ents, err := os.ReadDir(filepath.Join(ld.verif, "overlay"))
	if err != nil {
		return err
	}
	for _, e := range ents {
		fs, _ := filepath.Glob(filepath.Join(ld.verif, "overlay", e.Name(), "*.go"))
		for _, f := range fs {
			b, err := os.ReadFile(f)
			if err != nil {
				return err
			}
			ld.overlay[filepath.Join(ld.repo, "internal", e.Name(), filepath.Base(f))] = b
		}
	}
	// flag is the real package on top of the stand-ins
	goroot, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return err
	}
	fsrc, err := os.ReadFile(filepath.Join(strings.TrimSpace(string(goroot)), "src/flag/flag.go"))
	if err != nil {
		return err
	}
	fout, err := rewriteImports("flag.go", append([]byte("//go:build go1.21\n\n"), fsrc...), "vflag")
	if err != nil {
		return err
	}
	ld.overlay[filepath.Join(ld.repo, "internal/vflag/flag.go")] = fout

	var imports []string
	for _, hd := range harnessDirs {
		if dropPkgs[hd.pkg] || !repoPkgs[hd.pkg] {
			continue
		}
		fs, _ := filepath.Glob(filepath.Join(ld.verif, "harness", hd.dir, "*.go"))
		sort.Strings(fs)
		any := false
		for _, f := range fs {
			target := filepath.Join(ld.repo, hd.pkg, "zz_vh_"+filepath.Base(f))
			if dropFiles[target] {
				continue
			}
			b, err := os.ReadFile(f)
			if err != nil {
				return err
			}
			ms := vhRe.FindAllSubmatch(b, -1)
			if len(ms) > 0 {
				s := "\nfunc init() {\n"
				for _, m := range ms {
					s += fmt.Sprintf("\tvrt.Register(%q, VH_%s)\n", m[1], m[1])
				}
				b = append(b, s+"}\n"...)
			}
			ld.overlay[target] = b
			any = true
		}
		if any {
			imports = append(imports, modPath+"/"+hd.pkg)
		}
	}
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n\t\"encoding/json\"\n\t\"os\"\n\n\t\"" + modPath + "/internal/vrt\"\n")
	for _, i := range imports {
		fmt.Fprintf(&sb, "\t_ %q\n", i)
	}
	sb.WriteString(`)

func main() {
	var v vrt.Vector
	if err := json.NewDecoder(os.Stdin).Decode(&v); err != nil {
		panic(err)
	}
	r := vrt.Run(&v)
	json.NewEncoder(os.Stdout).Encode(r)
}
`)
	ld.overlay[filepath.Join(ld.repo, "signify/internal/vrun/main.go")] = []byte(sb.String())
	return nil
}

// Load builds SSA for the current tree plus harnesses.
func Load(repo, verif, work string) (*Loaded, error) {
	t0 := time.Now()
	ld := &Loaded{repo: repo, verif: verif, work: work, fnMemo: map[string]*ssa.Function{}}
	dropFiles, dropPkgs := map[string]bool{}, map[string]bool{}
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(repo, f))
		if err == nil {
			err = os.WriteFile(filepath.Join(work, f), b, 0644)
		}
		if err != nil {
			return nil, err
		}
	}
	var pkgs []*packages.Package
	for try := 0; ; try++ {
		if err := ld.buildOverlay(dropFiles, dropPkgs); err != nil {
			return nil, err
		}
		cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Overlay: ld.overlay, Env: goEnv(),
			BuildFlags: []string{"-tags=math_big_pure_go", "-modfile=" + filepath.Join(work, "go.mod")}}
		var err error
		pkgs, err = packages.Load(cfg, modPath+"/signify/internal/vrun", modPath+"/internal/vmodel")
		if err != nil {
			return nil, err
		}
		var errs []packages.Error
		bad := map[string]bool{}
		packages.Visit(pkgs, nil, func(p *packages.Package) {
			for _, e := range p.Errors {
				errs = append(errs, e)
				bad[strings.TrimPrefix(p.PkgPath, modPath+"/")] = true
			}
		})
		if len(errs) == 0 {
			break
		}
		if try > 12 {
			return nil, fmt.Errorf("type errors: %v", errs)
		}
		changed := false
		// first drop harness files with errors
		for _, e := range errs {
			f := e.Pos
			if i := strings.Index(f, ".go:"); i >= 0 {
				f = f[:i+3]
			}
			if strings.Contains(f, "zz_vh_") && !dropFiles[f] {
				dropFiles[f] = true
				ld.dropped = append(ld.dropped, fmt.Sprintf("%s: %s", filepath.Base(f), e.Msg))
				changed = true
			}
		}
		if !changed {
			for p := range bad {
				for _, hd := range harnessDirs {
					if (hd.pkg == p || strings.HasSuffix(p, hd.pkg)) && !dropPkgs[hd.pkg] {
						dropPkgs[hd.pkg] = true
						ld.dropped = append(ld.dropped, fmt.Sprintf("package %s: %v", p, errs[0]))
						changed = true
					}
				}
			}
		}
		if !changed {
			return nil, fmt.Errorf("type errors: %v", errs)
		}
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics|ssa.SanityCheckFunctions&0)
	prog.Build()
	ld.prog = prog
	ld.pkgs = map[string]*ssa.Package{}
	for _, p := range prog.AllPackages() {
		ld.pkgs[p.Pkg.Path()] = p
	}
	ld.harnesses = map[string]*ssa.Function{}
	for _, hd := range harnessDirs {
		p := ld.pkgs[modPath+"/"+hd.pkg]
		if p == nil {
			continue
		}
		for n, m := range p.Members {
			if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, "VH_") {
				ld.harnesses[n[3:]] = f
			}
		}
	}
	vm := ld.pkgs[vmodelPath]
	if vm == nil {
		return nil, fmt.Errorf("vmodel missing")
	}
	ld.redirects = map[string]*ssa.Function{}
	for from, to := range redirectTable {
		f := vm.Func(to)
		if f == nil {
			return nil, fmt.Errorf("vmodel.%s missing", to)
		}
		ld.redirects[from] = f
	}
	ld.runtimeErrType = vm.Type("RuntimeError").Type()
	// overlay file for the native build
	repl := map[string]string{}
	i := 0
	for p, b := range ld.overlay {
		i++
		f := filepath.Join(work, fmt.Sprintf("ov%d_%s", i, filepath.Base(p)))
		if err := os.WriteFile(f, b, 0644); err != nil {
			return nil, err
		}
		repl[p] = f
	}
	js, _ := json.Marshal(map[string]any{"Replace": repl})
	ld.overlayJSON = filepath.Join(work, "overlay.json")
	if err := os.WriteFile(ld.overlayJSON, js, 0644); err != nil {
		return nil, err
	}
	ld.loadTime = time.Since(t0)
	return ld, nil
}

// BuildNative compiles the harnesses and the code under test natively.
func (ld *Loaded) BuildNative() error {
	out := filepath.Join(ld.work, "vrun")
	cmd := exec.Command("go", "build", "-overlay", ld.overlayJSON, "-modfile="+filepath.Join(ld.work, "go.mod"), "-o", out, "./signify/internal/vrun")
	cmd.Dir = ld.repo
	cmd.Env = goEnv()
	b, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("native build: %v\n%s", err, b)
	}
	ld.vrun = out
	return nil
}

func (ld *Loaded) fnByName(name string) *ssa.Function {
	ld.mu.Lock()
	defer ld.mu.Unlock()
	if f, ok := ld.fnMemo[name]; ok {
		return f
	}
	i := strings.LastIndex(name, ".")
	p := ld.pkgs[name[:i]]
	var f *ssa.Function
	if p != nil {
		f = p.Func(name[i+1:])
	}
	ld.fnMemo[name] = f
	return f
}

func (ld *Loaded) mustFn(name string) *ssa.Function {
	f := ld.fnByName(name)
	if f == nil {
		panic(unsupported("missing function " + name))
	}
	return f
}

var _ = ast.IsExported
