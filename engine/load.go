package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/vitelabs/go-vite/v2"

var repoDir = envOr("VERIF_REPO", "/repo")
var verifDir = envOr("VERIF_DIR", "/verif")
var verbose = os.Getenv("VERIF_VERBOSE") != ""

type Prog struct {
	prog      *ssa.Program
	pkgs      []*packages.Package
	rtErrType types.Type
	sizes     types.Sizes
	maxMake   int
	redirect  map[string]*ssa.Function
	harness   map[string]*ssa.Function
	overlay   map[string]string // target path -> source path
	mu        sync.Mutex
	byPath    map[string]*ssa.Package
	looseBits bool
}

type HarnessCfg struct {
	Func     string         `json:"func"`
	Quick    map[string]int `json:"quick"`
	Thorough map[string]int `json:"thorough"`
	Only     string         `json:"only"` // "thorough" to skip in quick
	MapOrder bool           `json:"maporder"`
	Preempt  bool           `json:"preempt"`
	NoSpec   bool           `json:"nospec"`
	Panics   string         `json:"panics"` // "violation" (default) or "ignore"
	Bound    string         `json:"bound"`
	MaxStep  int64          `json:"maxstep"`
	Budget   int            `json:"budget"`  // seconds, quick
	TBudget  int            `json:"tbudget"` // seconds, thorough
	Partial  bool           `json:"partial"` // thorough may stop at its budget without being inconclusive
	SolverMs int            `json:"solver_ms"`
	NoReplay bool           `json:"noreplay"` // samples are not replayed natively (needs modelled environment)
	Ignore   []string       `json:"ignore"`   // bounds that are part of the stated bound
}

type CheckCfg struct {
	ID        string            `json:"id"`
	Title     string            `json:"title"`
	Packages  []string          `json:"packages"`
	Include   []string          `json:"include"` // other harness dirs to overlay
	Redirect  map[string]string `json:"redirect"`
	Harnesses []HarnessCfg      `json:"harnesses"`
	Assume    []string          `json:"assumptions"`
	Bounds    string            `json:"bounds"`
	Genesis   bool              `json:"genesis"`
	LooseBits bool              `json:"loosebits"` // big.Int.Bits may have leading zero words
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "PATH=") || strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOTOOLCHAIN=") || strings.HasPrefix(e, "GOROOT=") || strings.HasPrefix(e, "GOPROXY=") || strings.HasPrefix(e, "CGO_ENABLED=") {
			continue
		}
		env = append(env, e)
	}
	goroot := envOr("VERIF_GOROOT", "/opt/veriftools/go1.23.12")
	env = append(env, "PATH="+goroot+"/bin:"+os.Getenv("PATH"), "GOFLAGS=-mod=mod", "GOTOOLCHAIN=local", "GOPROXY=off", "GOSUMDB=off")
	if os.Getenv("GOMODCACHE") == "" {
		env = append(env, "GOMODCACHE=/root/go/pkg/mod")
	}
	return env
}

func addOverlay(ov map[string]string, dir string) error {
	return filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if info.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		ov[filepath.Join(repoDir, rel)] = p
		return nil
	})
}

func loadProg(cfg *CheckCfg) (*Prog, error) {
	P := &Prog{maxMake: 4096, looseBits: cfg.LooseBits, redirect: map[string]*ssa.Function{}, harness: map[string]*ssa.Function{}, overlay: map[string]string{}, byPath: map[string]*ssa.Package{}}
	if err := addOverlay(P.overlay, filepath.Join(verifDir, "harness", "_common")); err != nil {
		return nil, err
	}
	dirs := append(append([]string{}, cfg.Include...), cfg.ID)
	for _, d := range dirs {
		if err := addOverlay(P.overlay, filepath.Join(verifDir, "harness", d)); err != nil {
			return nil, err
		}
	}
	over := map[string][]byte{}
	for k, v := range P.overlay {
		b, err := os.ReadFile(v)
		if err != nil {
			return nil, err
		}
		over[k] = b
	}
	pc := &packages.Config{
		Mode:    packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule,
		Dir:     repoDir,
		Env:     append(goEnv(), "CGO_ENABLED=0"),
		Overlay: over,
	}
	pats := append([]string{}, cfg.Packages...)
	pats = append(pats, "./zz_verif/models")
	pkgs, err := packages.Load(pc, pats...)
	if err != nil {
		return nil, err
	}
	bad := false
	var msgs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modPath) {
			for _, e := range p.Errors {
				bad = true
				msgs = append(msgs, e.Error())
			}
		}
	})
	if bad {
		sort.Strings(msgs)
		if len(msgs) > 12 {
			msgs = msgs[:12]
		}
		return nil, fmt.Errorf("load errors:\n%s", strings.Join(msgs, "\n"))
	}
	P.pkgs = pkgs
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	P.prog = prog
	P.sizes = types.SizesFor("gc", "amd64")
	for _, p := range prog.AllPackages() {
		P.byPath[p.Pkg.Path()] = p
	}
	if rt := P.byPath["runtime"]; rt != nil {
		if t := rt.Type("errorString"); t != nil {
			P.rtErrType = t.Type()
		}
	}
	P.buildAll()
	// model redirections: functions in zz_verif/models with a "//verif:model target" name table
	models := P.byPath[modPath+"/zz_verif/models"]
	if models != nil {
		for target, fn := range modelTable {
			f := models.Func(fn)
			if f == nil {
				return nil, fmt.Errorf("model function %s missing", fn)
			}
			P.redirect[target] = f
		}
	}
	for target, fn := range cfg.Redirect {
		f := P.findFunc(fn)
		if f == nil {
			return nil, fmt.Errorf("redirect function %s missing", fn)
		}
		if !strings.Contains(target, ".com/") && strings.HasPrefix(target, "@") {
			target = expandName(target)
		}
		P.redirect[target] = f
	}
	for i := range cfg.Harnesses {
		f := P.findFunc(cfg.Harnesses[i].Func)
		if f == nil {
			return nil, fmt.Errorf("harness %s missing", cfg.Harnesses[i].Func)
		}
		P.harness[cfg.Harnesses[i].Func] = f
	}
	return P, nil
}

// expandName turns "@vm.(*VM).RunV2"-style names into full ssa names: "@pkg:name" or "@pkg:(*T).m".
func expandName(s string) string {
	s = strings.TrimPrefix(s, "@")
	i := strings.Index(s, ":")
	pkg, n := s[:i], s[i+1:]
	if !strings.Contains(pkg, ".") && pkg != "" {
		pkg = modPath + "/" + pkg
	} else if pkg == "" {
		pkg = modPath
	}
	if strings.HasPrefix(n, "(*") {
		return "(*" + pkg + "." + n[2:]
	}
	if strings.HasPrefix(n, "(") {
		return "(" + pkg + "." + n[1:]
	}
	return pkg + "." + n
}

func (P *Prog) findFunc(s string) *ssa.Function {
	i := strings.LastIndex(s, ".")
	if i < 0 {
		return nil
	}
	pkg, n := s[:i], s[i+1:]
	p := P.byPath[modPath+"/"+pkg]
	if p == nil {
		p = P.byPath[pkg]
	}
	if p == nil {
		return nil
	}
	return p.Func(n)
}

// buildAll builds SSA for every package, in parallel.
func (P *Prog) buildAll() {
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for _, p := range P.prog.AllPackages() {
		wg.Add(1)
		sem <- true
		go func(p *ssa.Package) {
			p.Build()
			<-sem
			wg.Done()
		}(p)
	}
	wg.Wait()
}

func (P *Prog) lookupMethod(t types.Type, pkg *types.Package, name string) *ssa.Function {
	P.mu.Lock()
	defer P.mu.Unlock()
	sel := P.prog.MethodSets.MethodSet(t).Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	return P.prog.MethodValue(sel)
}

var skipInitPkgs = map[string]bool{"runtime": true, "os": true, "syscall": true, "net": true, "net/http": true, "crypto/tls": true, "crypto/x509": true, "internal/cpu": true, "internal/godebug": true, "reflect": true, "log": true, "time": true, "os/signal": true, "internal/poll": true, "crypto/rand": true, "math/rand": true}

func (P *Prog) skipInit(path string) bool {
	if skipInitPkgs[path] {
		return true
	}
	if strings.HasPrefix(path, "github.com/prometheus/") || strings.HasPrefix(path, "google.golang.org/") || strings.HasPrefix(path, "github.com/golang/protobuf") {
		return true
	}
	return false
}

func readCfg(path string) (*CheckCfg, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	var c CheckCfg
	if err := json.Unmarshal(b, &c); err != nil {
		return nil, fmt.Errorf("%s: %v", path, err)
	}
	return &c, nil
}
