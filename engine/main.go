package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type Finding struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Assert   string `json:"assert"`
	Where    string `json:"where"`
	Status   string `json:"status"` // "known" or "fixed"
	Text     string `json:"text"`
}

func loadFindings() []Finding {
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.json"))
	if err != nil {
		return nil
	}
	var f struct {
		Findings []Finding `json:"findings"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		fatal(2, "known_findings.json: %v", err)
	}
	return f.Findings
}

func fatal(code int, f string, a ...any) {
	fmt.Printf("ERROR "+f+"\n", a...)
	os.Exit(code)
}

var strict bool

func main() {
	// the library sources analysed are those of the toolchain the repository is built with
	os.Setenv("PATH", envOr("VERIF_GOROOT", "/opt/veriftools/go1.23.12")+"/bin:"+os.Getenv("PATH"))
	id := flag.String("check", "", "property id")
	tier := flag.String("tier", envOr("VERIF_TIER", "quick"), "quick or thorough")
	only := flag.String("only", "", "run only harnesses whose name contains this")
	workers := flag.Int("workers", 0, "parallel workers")
	seedF := flag.Int64("seed", -1, "seed")
	prof := flag.String("prof", "", "cpu profile")
	replayFile := flag.String("replay", "", "replay a recorded violation natively")
	flag.BoolVar(&strict, "strict", false, "anything short of complete exploration is an error exit")
	noev := flag.Bool("noev", false, "do not write evidence")
	flag.Parse()
	seed := *seedF
	if seed < 0 {
		seed = 1
		if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
			seed = s
		}
	}
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(20 << 30)
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	if *replayFile != "" {
		os.Exit(doReplay(*replayFile))
	}
	if *id == "" {
		fatal(2, "-check required")
	}
	t0 := time.Now()
	cfg, err := readCfg(filepath.Join(verifDir, "harness", *id, "check.json"))
	if err != nil {
		fatal(2, "%v", err)
	}
	cfg.ID = *id
	P, err := loadProg(cfg)
	if err != nil {
		// a tree that does not load gives no verdict
		fatal(2, "%v", err)
	}
	loadT := time.Since(t0)
	fmt.Printf("loaded %s in %.1fs\n", *id, loadT.Seconds())
	nw := *workers
	if nw == 0 {
		nw = runtime.NumCPU()
		if nw > 8 {
			nw = 8
		}
	}
	code := 0
	var hrs []*hResult
	for i := range cfg.Harnesses {
		hc := &cfg.Harnesses[i]
		if *only != "" && !strings.Contains(hc.Func, *only) {
			continue
		}
		if hc.Only == "thorough" && *tier == "quick" {
			continue
		}
		params := map[string]int{}
		for k, v := range hc.Quick {
			params[k] = v
		}
		budget := hc.Budget
		if budget == 0 {
			budget = 240
		}
		if *tier == "thorough" {
			for k, v := range hc.Thorough {
				params[k] = v
			}
			budget = hc.TBudget
			if budget == 0 {
				budget = 1800
			}
		}
		H := &Harness{cfg: hc, fn: P.harness[hc.Func], params: params}
		E := NewExplorer(P, H, time.Duration(budget)*time.Second, seed)
		E.Run(nw)
		r := &hResult{E: E, params: params}
		hrs = append(hrs, r)
		E.report()
	}
	nat := &native{P: P, cfg: cfg, tier: *tier}
	defer nat.cleanup()
	res := judge(cfg, hrs, nat, *tier)
	code = res.code
	if !*noev && *only == "" {
		writeEvidence(cfg, hrs, res, *tier, seed, time.Since(t0), loadT)
	}
	nat.cleanup()
	fmt.Printf("%s: %s in %.1fs\n", *id, map[int]string{0: "HELD", 1: "VIOLATED", 2: "INCONCLUSIVE"}[code], time.Since(t0).Seconds())
	if *prof != "" {
		pprof.StopCPUProfile()
	}
	os.Exit(code)
}

type hResult struct {
	E      *Explorer
	params map[string]int
}

func (e *Explorer) report() {
	fmt.Printf("  %s: paths=%d ends=%v infeasible=%d steps=%d forks=%d asserts=%d(solver %d) queries=%d (sat %d unsat %d unk %d fallback %d) solver=%.1fs max=%.1fs wall=%.1fs\n", e.H.cfg.Func, e.paths, e.ends, e.infeasible, e.steps, e.forks, e.asserts, e.assertQ, e.stats.Queries, e.stats.Sat, e.stats.Unsat, e.stats.Unknown, e.stats.Fallback, e.stats.Time.Seconds(), e.stats.MaxTime.Seconds(), e.wall.Seconds())
	if len(e.reach) > 0 {
		fmt.Printf("    reach=%v\n", e.reach)
	}
	for _, k := range sortedKeys(e.bounds) {
		fmt.Printf("    bound: %s (%d paths)\n", k, e.bounds[k])
	}
	for _, k := range sortedKeys(e.errs) {
		fmt.Printf("    UNSUPPORTED: %s (%d)\n", k, e.errs[k])
	}
	if e.timeout {
		fmt.Printf("    TIMEOUT\n")
	}
	for _, u := range e.unkAsserts {
		fmt.Printf("    UNDECIDED: %s\n", u)
	}
	for _, v := range e.viol {
		fmt.Printf("    candidate: %s %s at %s\n      values=%v\n", v.Kind, v.Msg, trimStr(v.Where, 400), trimVals(v.Values))
	}
}

func trimVals(v map[string]string) string {
	var sb strings.Builder
	for _, k := range sortedKeys(v) {
		if v[k] == "0" {
			continue
		}
		fmt.Fprintf(&sb, "%s=%s ", k, v[k])
		if sb.Len() > 1500 {
			sb.WriteString("...")
			break
		}
	}
	return sb.String()
}

type verdict struct {
	code       int
	validated  int
	violations int
	notes      []string
	samples    []any
	known      int
	reduced    bool
}

func judge(cfg *CheckCfg, hrs []*hResult, nat *native, tier string) *verdict {
	v := &verdict{}
	findings := loadFindings()
	incon := func(f string, a ...any) {
		s := fmt.Sprintf(f, a...)
		v.notes = append(v.notes, s)
		v.reduced = true
		if strict {
			fmt.Println("INCONCLUSIVE " + s)
			if v.code == 0 {
				v.code = 2
			}
			return
		}
		// what was explored held; what was not is reported here and in the evidence ("exhaustive": false)
		fmt.Println("REDUCED-BOUND " + s)
	}
	explored := false
	rdir := filepath.Join(verifDir, "replays")
	knownSeen := map[string]bool{}
	printed := map[string]bool{}
	for _, r := range hrs {
		e := r.E
		h := e.H.cfg
		// 0. sampled paths replayed natively; an assertion that fails there is a violation like any other
		var bad []string
		if !h.NoReplay && len(e.viol) == 0 {
			nat.found = nil
			ok := 0
			ok, bad = nat.validate(e.samples, r.params, h)
			v.validated += ok
			e.viol = append(e.viol, nat.found...)
		}
		// 1. violations
		confirmedKeys := map[string]bool{}
		unconf := map[string]*Violation{}
		for i, vi := range e.viol {
			key := vi.Kind + "|" + vi.Msg
			if confirmedKeys[key] {
				continue
			}
			ok, log := true, "not replayed (environment modelled)"
			if !h.NoReplay {
				ok, log = nat.reproduce(vi, r.params, h)
			}
			if !ok {
				unconf[key] = vi
				fmt.Printf("candidate not reproduced natively: %s %s: %s\n", vi.Kind, vi.Msg, trimStr(log, 300))
				continue
			}
			confirmedKeys[key] = true
			delete(unconf, key)
			// known finding?
			kf := false
			for _, f := range findings {
				if f.Status == "known" && f.Property == cfg.ID && (f.Harness == "" || f.Harness == h.Func) && f.Assert == vi.Msg && (f.Where == "" || strings.Contains(vi.Where, f.Where)) {
					kf = true
					if !knownSeen[f.Text] {
						knownSeen[f.Text] = true
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", cfg.ID, f.Text)
						v.known++
					}
				}
			}
			if kf {
				continue
			}
			os.MkdirAll(rdir, 0755)
			path := filepath.Join(rdir, fmt.Sprintf("%s-%s-%d.json", cfg.ID, filepath.Base(h.Func), i))
			rec := map[string]any{"property": cfg.ID, "harness": vi.Harness, "kind": vi.Kind, "assert": vi.Msg, "where": vi.Where, "values": vi.Values, "params": r.params, "native_log": log,
				"how": "cd /verif && bin/gosym -replay " + path}
			b, _ := json.MarshalIndent(rec, "", " ")
			os.WriteFile(path, b, 0644)
			v.violations++
			v.code = 1
			line := fmt.Sprintf("VIOLATION property=%s replay=%s", cfg.ID, path)
			if !printed[key] {
				printed[key] = true
				fmt.Printf("%s  [%s %s] %s\n", line, vi.Kind, vi.Msg, trimStr(vi.Where, 200))
			}
		}
		for k := range unconf {
			incon("%s: counterexample %s not reproduced on the native code", h.Func, k)
		}
		// 2. completeness
		if len(e.errs) > 0 {
			for _, k := range sortedKeys(e.errs) {
				incon("%s: not encodable: %s", h.Func, trimStr(k, 300))
				break
			}
		}
		for _, k := range sortedKeys(e.bounds) {
			ign := false
			for _, s := range h.Ignore {
				if strings.Contains(k, s) {
					ign = true
				}
			}
			if !ign {
				incon("%s: bound hit: %s", h.Func, k)
			}
		}
		if e.timeout {
			if tier == "thorough" && h.Partial {
				v.notes = append(v.notes, h.Func+": stopped at its time budget; the paths explored until then are covered")
			} else {
				incon("%s: time budget exceeded", h.Func)
			}
		}
		if len(e.unkAsserts) > 0 {
			incon("%s: solver undecided on %v", h.Func, e.unkAsserts[0])
		}
		// 3. vacuity
		for _, l := range reachLabels(e.H.fn) {
			if e.reach[l] != 0 || e.timeout {
				continue
			}
			if strict || len(e.errs)+len(e.bounds)+len(e.unkAsserts)+len(e.viol) > 0 || v.code == 1 {
				incon("%s: witness %q unreachable", h.Func, l)
				continue
			}
			// every path within the bounds was explored and none shows the behaviour the property requires to exist
			os.MkdirAll(rdir, 0755)
			path := filepath.Join(rdir, fmt.Sprintf("%s-%s-unreachable.json", cfg.ID, filepath.Base(h.Func)))
			rec := map[string]any{"property": cfg.ID, "harness": h.Func, "kind": "unreachable", "assert": "some execution reaches " + l, "params": r.params, "paths": e.paths}
			if len(e.samples) > 0 && e.samples[0] != nil {
				rec["values"] = e.samples[0].Values
			}
			b, _ := json.MarshalIndent(rec, "", " ")
			os.WriteFile(path, b, 0644)
			v.violations++
			v.code = 1
			fmt.Printf("VIOLATION property=%s replay=%s  [required behaviour %q impossible within the bounds]\n", cfg.ID, path, l)
		}
		if e.asserts == 0 && e.paths > 0 && h.Panics == "ignore" {
			incon("%s: no assertion reached", h.Func)
		}
		if e.paths == 0 {
			incon("%s: no path completed", h.Func)
		} else {
			explored = true
		}
		// 4. disagreements with the native runs
		for _, b := range bad {
			incon("%s: symbolic path and native run disagree: %s", h.Func, b)
		}
		for i, s := range e.samples {
			if s != nil && i < 2 {
				v.samples = append(v.samples, map[string]any{"harness": s.Harness, "values": trimVals(s.Values), "obs": s.Obs, "end": s.End, "reach": s.Reach})
			}
		}
	}
	if !explored && v.code == 0 {
		v.code = 2
	}
	return v
}

func writeEvidence(cfg *CheckCfg, hrs []*hResult, v *verdict, tier string, seed int64, wall, load time.Duration) {
	var states, trans, asserts, assertQ int64
	var st SolverStats
	fns := map[string]int64{}
	var hs []any
	complete := true
	for _, r := range hrs {
		e := r.E
		states += e.forks + e.paths
		trans += e.steps
		asserts += e.asserts
		assertQ += e.assertQ
		st.add(&e.stats)
		for k, n := range e.fns {
			fns[k] += n
		}
		if e.timeout {
			complete = false
		}
		hs = append(hs, map[string]any{"harness": e.H.cfg.Func, "bounds": r.params, "bound_text": e.H.cfg.Bound, "paths": e.paths, "path_ends": e.ends, "infeasible_prefixes": e.infeasible,
			"instructions": e.steps, "forks": e.forks, "assertions_checked": e.asserts, "assertion_queries": e.assertQ, "solver_queries": e.stats.Queries, "unsat": e.stats.Unsat, "sat": e.stats.Sat, "unknown": e.stats.Unknown,
			"solver_s": round2(e.stats.Time.Seconds()), "wall_s": round2(e.wall.Seconds()), "witnesses": e.reach, "complete_within_bounds": !e.timeout && len(e.errs) == 0})
	}
	type fc struct {
		n string
		c int64
	}
	var repoFns []string
	lib := 0
	for k := range fns {
		if isRepoFn(k) {
			if !strings.Contains(k, "VerifH_") && !strings.Contains(k, "zz_verif") && !strings.Contains(k, ".verif") && !strings.Contains(k, ".init") {
				repoFns = append(repoFns, k)
			}
		} else {
			lib++
		}
	}
	sort.Strings(repoFns)
	if len(repoFns) > 400 {
		repoFns = append(repoFns[:400], fmt.Sprintf("... %d more", len(repoFns)-400))
	}
	cov := map[string]any{
		"states": states, "transitions": trans, "traces_validated_against_impl": v.validated, "samples": v.samples,
		"assertions_checked": asserts, "assertion_queries_to_solver": assertQ, "solver_queries": st.Queries, "queries_unsat": st.Unsat, "queries_sat": st.Sat, "queries_unknown": st.Unknown,
		"solver_time_s": round2(st.Time.Seconds()), "functions_encoded": repoFns, "library_functions_encoded": lib, "harnesses": hs, "bounds": cfg.Bounds,
		"load_s": round2(load.Seconds()), "exhaustive": complete && v.code == 0 && !v.reduced, "solver": "z3 5.x incremental; cvc5/z3 portfolio on unknown",
		"meaning": "states = symbolic states at which execution forked or ended; transitions = SSA instructions executed symbolically; traces_validated_against_impl = solver models of complete paths replayed on the natively compiled code with identical observations",
	}
	ev := map[string]any{"property": cfg.ID, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "assumptions": append(append([]string{}, stdAssume...), cfg.Assume...), "wall_s": round2(wall.Seconds()), "violations": v.violations, "notes": v.notes}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(verifDir, "evidence", cfg.ID+".json"), b, 0644); err != nil {
		fmt.Println("cannot write evidence:", err)
	}
}

var stdAssume = []string{
	"Go SSA semantics as built by golang.org/x/tools/go/ssa from the current source; 64-bit int; runtime, sync, atomic, math/big, fmt and logging calls are modelled by the engine (DESIGN.md)",
	"cryptographic digests of symbolic data are modelled as collision-free functions; digests of concrete data are the real ones",
	"verdicts hold for all values within the stated bounds only",
}

func round2(f float64) float64 { return float64(int(f*100)) / 100 }

func isRepoFn(k string) bool {
	k = strings.TrimLeft(k, "(*")
	i := strings.IndexAny(k, ".)")
	if i < 0 {
		return false
	}
	p := k[:i]
	for _, r := range []string{"vm", "common", "ledger", "interfaces", "crypto", "net", "wallet", "tools", "pow", "rpc", "rpcapi", "producer", "node", "client", "smart-contract", "monitor"} {
		if p == r || strings.HasPrefix(p, r+"/") {
			if strings.HasPrefix(p, "net/http") || p == "net" && strings.HasPrefix(k, "net.IP") {
				return false
			}
			if p == "crypto" || strings.HasPrefix(p, "crypto/") {
				return strings.HasPrefix(k, "crypto.Hash") || strings.HasPrefix(k, "crypto/ed25519")
			}
			return true
		}
	}
	return false
}

// ---- native replay ----
type native struct {
	P    *Prog
	cfg  *CheckCfg
	tier string
	dir  string
	bin  string
	err  string
	once sync.Once

	found []*Violation
}

func (n *native) cleanup() {
	if n.dir != "" {
		os.RemoveAll(n.dir)
		n.dir = ""
	}
}

func (n *native) build() bool {
	n.once.Do(func() {
		dir, err := os.MkdirTemp("", "gosym-native-")
		if err != nil {
			n.err = err.Error()
			return
		}
		n.dir = dir
		imps := map[string]string{}
		var sb, body strings.Builder
		for _, h := range n.cfg.Harnesses {
			i := strings.LastIndex(h.Func, ".")
			pkg, f := h.Func[:i], h.Func[i+1:]
			al, ok := imps[pkg]
			if !ok {
				al = fmt.Sprintf("p%d", len(imps))
				imps[pkg] = al
			}
			fmt.Fprintf(&body, "\tcase %q:\n\t\t%s.%s()\n", h.Func, al, f)
		}
		sb.WriteString("package main\n\nimport (\n\t\"fmt\"\n\t\"os\"\n\t\"runtime/debug\"\n")
		for _, p := range sortedKeys(imps) {
			fmt.Fprintf(&sb, "\t%s %q\n", imps[p], modPath+"/"+p)
		}
		sb.WriteString(")\n\nfunc main() {\n\tdefer func() {\n\t\tif r := recover(); r != nil {\n\t\t\tfmt.Printf(\"VERIF-PANIC %v\\n%s\\n\", r, debug.Stack())\n\t\t\tos.Exit(76)\n\t\t}\n\t}()\n\tswitch os.Args[1] {\n" + body.String() + "\t}\n\tfmt.Println(\"VERIF-DONE\")\n}\n")
		mf := filepath.Join(dir, "main.go")
		os.WriteFile(mf, []byte(sb.String()), 0644)
		ov := map[string]string{filepath.Join(repoDir, "zz_verif", "cmd", "main.go"): mf}
		for k, v := range n.P.overlay {
			ov[k] = v
		}
		b, _ := json.Marshal(map[string]any{"Replace": ov})
		of := filepath.Join(dir, "overlay.json")
		os.WriteFile(of, b, 0644)
		bin := filepath.Join(dir, "native")
		goroot := envOr("VERIF_GOROOT", "/opt/veriftools/go1.23.12")
		cmd := exec.Command(goroot+"/bin/go", "build", "-overlay", of, "-o", bin, "./zz_verif/cmd")
		cmd.Dir = repoDir
		cmd.Env = goEnv()
		out, err := cmd.CombinedOutput()
		if err != nil {
			n.err = "native build failed: " + string(out)
			fmt.Println(trimStr(n.err, 2000))
			return
		}
		n.bin = bin
	})
	return n.bin != ""
}

type natRun struct {
	code int
	out  string
}

func (n *native) run(harness string, values map[string]string, params map[string]int) natRun {
	f, err := os.CreateTemp(n.dir, "v-*.json")
	if err != nil {
		return natRun{-1, err.Error()}
	}
	b, _ := json.Marshal(map[string]any{"values": values, "params": params})
	f.Write(b)
	f.Close()
	defer os.Remove(f.Name())
	scratch, _ := os.MkdirTemp(n.dir, "s-")
	defer os.RemoveAll(scratch)
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, n.bin, harness)
	cmd.Dir = scratch
	cmd.Env = append(os.Environ(), "VERIF_REPLAY="+f.Name(), "HOME="+scratch, "TMPDIR="+scratch)
	var buf bytes.Buffer
	cmd.Stdout = &buf
	cmd.Stderr = &buf
	err = cmd.Run()
	code := 0
	if err != nil {
		code = -1
		if ee, ok := err.(*exec.ExitError); ok {
			code = ee.ExitCode()
		}
	}
	return natRun{code, buf.String()}
}

func (n *native) reproduce(v *Violation, params map[string]int, h *HarnessCfg) (bool, string) {
	if !n.build() {
		return false, n.err
	}
	tries := 3
	if h.MapOrder || h.Preempt || v.Sched {
		tries = 300
	}
	last := ""
	for i := 0; i < tries; i++ {
		r := n.run(v.Harness, v.Values, params)
		last = fmt.Sprintf("exit %d: %s", r.code, trimStr(r.out, 1500))
		switch v.Kind {
		case "assert":
			if strings.Contains(r.out, "VERIF-ASSERT-FAILED ") || strings.Contains(r.out, "VERIF-PANIC") && h.Panics != "ignore" {
				return true, last
			}
		case "panic":
			if strings.Contains(r.out, "VERIF-PANIC") || strings.Contains(r.out, "fatal error:") || r.code == 2 && strings.Contains(r.out, "panic:") {
				return true, last
			}
			if strings.Contains(r.out, "VERIF-ASSERT-FAILED") {
				return true, last
			}
		case "deadlock":
			if strings.Contains(r.out, "all goroutines are asleep") || r.code == -1 {
				return true, last
			}
		}
	}
	return false, last
}

func (n *native) validate(ss []*Sample, params map[string]int, h *HarnessCfg) (int, []string) {
	if !n.build() {
		return 0, []string{trimStr(n.err, 300)}
	}
	var mu sync.Mutex
	ok := 0
	var bad []string
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for _, s := range ss {
		if s == nil {
			continue
		}
		wg.Add(1)
		sem <- true
		go func(s *Sample) {
			defer func() { <-sem; wg.Done() }()
			r := n.run(s.Harness, s.Values, params)
			var obs []string
			for _, l := range strings.Split(r.out, "\n") {
				if strings.HasPrefix(l, "VERIF-OBS ") {
					obs = append(obs, strings.TrimPrefix(l, "VERIF-OBS "))
				}
			}
			why := ""
			switch {
			case s.End == "ok" && !strings.Contains(r.out, "VERIF-DONE"):
				why = fmt.Sprintf("native run did not finish (exit %d): %s", r.code, trimStr(r.out, 600))
			case s.End == "panic" && !strings.Contains(r.out, "VERIF-PANIC"):
				why = "native run did not panic"
			case !h.MapOrder && !h.Preempt && strings.Join(obs, ";") != strings.Join(s.Obs, ";"):
				why = fmt.Sprintf("observations differ: native %v symbolic %v", obs, s.Obs)
			}
			mu.Lock()
			if i := strings.Index(r.out, "VERIF-ASSERT-FAILED "); i >= 0 && !strings.Contains(r.out, "VERIF-ASSUME-FAILED") {
				// the real code fails the assertion on a model of a path the engine let pass
				msg, _, _ := strings.Cut(r.out[i+len("VERIF-ASSERT-FAILED "):], "\n")
				n.found = append(n.found, &Violation{Harness: s.Harness, Kind: "assert", Msg: msg, Where: "native replay of a sampled path", Values: s.Values})
			} else if why == "" {
				ok++
			} else {
				bad = append(bad, why+" values "+trimVals(s.Values))
			}
			mu.Unlock()
		}(s)
	}
	wg.Wait()
	return ok, bad
}

func doReplay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fatal(2, "%v", err)
	}
	var rec struct {
		Property string            `json:"property"`
		Harness  string            `json:"harness"`
		Kind     string            `json:"kind"`
		Assert   string            `json:"assert"`
		Values   map[string]string `json:"values"`
		Params   map[string]int    `json:"params"`
	}
	if err := json.Unmarshal(b, &rec); err != nil {
		fatal(2, "%v", err)
	}
	cfg, err := readCfg(filepath.Join(verifDir, "harness", rec.Property, "check.json"))
	if err != nil {
		fatal(2, "%v", err)
	}
	cfg.ID = rec.Property
	P := &Prog{overlay: map[string]string{}}
	for _, d := range append([]string{"_common", cfg.ID}, cfg.Include...) {
		addOverlay(P.overlay, filepath.Join(verifDir, "harness", d))
	}
	nat := &native{P: P, cfg: cfg}
	defer nat.cleanup()
	if !nat.build() {
		return 2
	}
	r := nat.run(rec.Harness, rec.Values, rec.Params)
	fmt.Println(r.out)
	fmt.Println("exit", r.code)
	return 0
}
