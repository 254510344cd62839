package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	"golang.org/x/tools/go/types/typeutil"
)

var prog *ssa.Program
var symPkg *ssa.Package

// repo is the tree that is checked; GOSYM_REPO is for trying out repairs.
var repo = func() string {
	if d := os.Getenv("GOSYM_REPO"); d != "" {
		return d
	}
	return "/repo"
}()

var verifDir = func() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}()

type TierCfg struct {
	Params map[string]int `json:"params"`
	Time   int            `json:"time"`
	Paths  int64          `json:"paths"`
	Skip   bool           `json:"skip"`
}

type RunCfg struct {
	Fn           string            `json:"fn"`
	Module       string            `json:"module"`
	Harness      string            `json:"harness"`
	About        string            `json:"about"`
	Bounds       map[string]string `json:"bounds"`
	Merge        *int              `json:"merge"`
	MergeInts    bool              `json:"merge_ints"`
	MapOrder     bool              `json:"map_order"`
	SchedChoices bool              `json:"sched"`
	Preempt      int               `json:"preempt"`
	AsyncTimers  bool              `json:"async_timers"`
	MaxTimers    int               `json:"max_timers"`
	MaxSteps     int64             `json:"max_steps"`
	FP           bool              `json:"fp"`
	SolverMS     int               `json:"solver_ms"`
	Cover        []string          `json:"cover"`
	Variants     []map[string]int  `json:"variants"`
	Quick        TierCfg           `json:"quick"`
	Thorough     TierCfg           `json:"thorough"`
	NoNative     bool              `json:"no_native_validation"`
}

type CheckCfg struct {
	Property    string   `json:"property"`
	Module      string   `json:"module"`
	Harness     string   `json:"harness"`
	Assumptions []string `json:"assumptions"`
	Outside     []string `json:"outside"`
	Runs        []RunCfg `json:"runs"`
}

func goEnv() []string {
	env := os.Environ()
	return append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0", "GOSUMDB=off")
}

func modPath(module string) string {
	b, err := os.ReadFile(filepath.Join(repo, module, "go.mod"))
	if err != nil {
		fatal("%v", err)
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "module ") {
			return strings.TrimSpace(strings.TrimPrefix(l, "module "))
		}
	}
	fatal("no module line in %s", module)
	return ""
}

// overlayFiles maps virtual paths in /repo to contents.
func overlayFiles(module, harness string) map[string][]byte {
	mp := modPath(module)
	out := map[string][]byte{}
	root := filepath.Join(repo, module, "zzverif")
	add := func(src, dst string) {
		fs, err := filepath.Glob(filepath.Join(src, "*.go"))
		if err != nil || len(fs) == 0 {
			fatal("no harness files in %s", src)
		}
		for _, f := range fs {
			b, err := os.ReadFile(f)
			if err != nil {
				fatal("%v", err)
			}
			s := strings.ReplaceAll(string(b), "\"ZZ/", "\""+mp+"/zzverif/")
			s = strings.ReplaceAll(s, "\"ZM/", "\""+mp+"/")
			s = strings.ReplaceAll(s, "\"ZM\"", "\""+mp+"\"")
			out[filepath.Join(dst, filepath.Base(f))] = []byte(s)
		}
	}
	add(filepath.Join(verifDir, "sym"), filepath.Join(root, "zzsym"))
	hd := filepath.Join(verifDir, "harness", harness)
	add(hd, filepath.Join(root, "zzmain"))
	common, _ := filepath.Glob(filepath.Join(verifDir, "harness", "common", "*"))
	for _, c := range common {
		if usesCommon(hd, filepath.Base(c)) {
			add(c, filepath.Join(root, filepath.Base(c)))
		}
	}
	return out
}

func usesCommon(hd, name string) bool {
	fs, _ := filepath.Glob(filepath.Join(hd, "*.go"))
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		if strings.Contains(string(b), "\"ZZ/"+name+"\"") {
			return true
		}
	}
	return false
}

type Target struct {
	module, harness string
	overlay         map[string][]byte
	main            *ssa.Package
	initState       *State
	ex0             *Explorer
	bin, noise      string
	tmp             string
	loadS, initS    float64
	modp            string
}

func load(module, harness string) *Target {
	t0 := time.Now()
	t := &Target{module: module, harness: harness, overlay: overlayFiles(module, harness), modp: modPath(module)}
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     filepath.Join(repo, module),
		Overlay: t.overlay,
		Env:     goEnv(),
	}
	pkgs, err := packages.Load(cfg, "./zzverif/zzmain")
	if err != nil {
		fatal("load: %v", err)
	}
	nerr := 0
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if nerr < 10 {
				fmt.Fprintln(os.Stderr, "load error:", e)
			}
			nerr++
		}
	})
	if nerr > 0 {
		fatal("%d load errors", nerr)
	}
	var mains []*ssa.Package
	prog, mains = ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	t.main = mains[0]
	symPkg = prog.ImportedPackage(t.modp + "/zzverif/zzsym")
	if symPkg == nil {
		fatal("sym package not loaded")
	}
	initBasicTypes()
	rtErrTI = tinfo(symPkg.Type("RuntimeErr").Type())
	t.loadS = time.Since(t0).Seconds()
	t0 = time.Now()
	t.initGlobals()
	t.initS = time.Since(t0).Seconds()
	return t
}

var denyInit = []string{"runtime", "syscall", "reflect", "net", "crypto", "vendor/", "golang.org/x/sys", "os/signal", "os/user", "os/exec", "log", "testing", "plugin", "image/", "mime", "encoding/gob", "github.com/google/uuid", "hash", "math/rand", "iter", "weak", "unique"}

func initDenied(p string) bool {
	if strings.HasPrefix(p, "internal/") {
		switch p {
		case "internal/oserror", "internal/poll", "internal/fmtsort":
			return false
		}
		return true
	}
	for _, d := range denyInit {
		if p == d || strings.HasPrefix(p, d+"/") || strings.HasSuffix(d, "/") && strings.HasPrefix(p, d) {
			return true
		}
	}
	return false
}

func (t *Target) initGlobals() {
	st := &State{tok: &ownTok{}, pages: []*page{}, model: Model{}, doms: map[*Term]*domain{}, ent: map[*Term]bool{}, env: map[string]Value{}}
	st.pages = append(st.pages, &page{owner: st.tok})
	pk := prog.AllPackages()
	sort.Slice(pk, func(i, j int) bool { return pk[i].Pkg.Path() < pk[j].Pkg.Path() })
	for _, p := range pk {
		var names []string
		for n, m := range p.Members {
			if _, ok := m.(*ssa.Global); ok {
				names = append(names, n)
			}
		}
		sort.Strings(names)
		for _, n := range names {
			g := p.Members[n].(*ssa.Global)
			if e := tinfo(g.Type().(*types.Pointer).Elem()); e.zero == nil && e.isAgg() {
				// a table too large to represent (or holding one): unreachable
				// for the checks, as any access to it ends a path as unsupported
				globalIDs[g] = st.allocZero(tinfo(types.Typ[types.Int]))
				continue
			}
			globalIDs[g] = st.allocZero(tinfo(g.Type().(*types.Pointer).Elem()))
		}
	}
	// standard files
	if osP := prog.ImportedPackage("os"); osP != nil {
		fti := tinfo(osP.Type("File").Type())
		for i, n := range []string{"Stdin", "Stdout", "Stderr"} {
			id := st.allocZero(fti)
			p := Ptr{id, 0}
			fileFds[p] = i
			switch i {
			case 0:
				stdinPtr = p
			case 1:
				stdoutPtr = p
			case 2:
				stderrPtr = p
			}
			_ = n
		}
	}
	cfg := &Config{MaxSteps: 1 << 40, Budget: time.Hour, Workers: 1, SolverMS: 1000}
	ex := newExplorer(cfg)
	ex.start = time.Now()
	w := &Worker{ex: ex, initMode: true, solver: newSolver(1000, false)}
	st.w = w
	g := &Gor{id: 0}
	st.gs = []*Gor{g}
	fn := getFn(t.main.Func("init"))
	fn.prepare()
	st.pushFrame(fn, nil, nil, -1)
	w.run(st)
	w.solver.close()
	if st.endKind != "ok" {
		fatal("package initialisation failed: %s %s", st.endKind, st.endMsg)
	}
	if osP := prog.ImportedPackage("os"); osP != nil {
		for n, p := range map[string]Ptr{"Stdin": stdinPtr, "Stdout": stdoutPtr, "Stderr": stderrPtr} {
			g := osP.Var(n)
			st.store(Ptr{globalIDs[g], 0}, tinfo(g.Type().(*types.Pointer).Elem()), p)
		}
	}
	t.ex0 = ex
	t.initState = st
}

// ---------------------------------------------------------------------------

type RunResult struct {
	Fn         string           `json:"harness"`
	Params     map[string]int   `json:"params,omitempty"`
	About      string           `json:"decides,omitempty"`
	Exhaustive bool             `json:"exhausted_within_bounds"`
	Why        string           `json:"stopped_because,omitempty"`
	Paths      int64            `json:"paths"`
	Forks      int64            `json:"forks"`
	Steps      int64            `json:"ssa_instructions"`
	PathKinds  map[string]int64 `json:"path_endings"`
	Asserts    int64            `json:"assertions_on_paths"`
	AssertSMT  int64            `json:"assertions_decided_by_solver"`
	AssertTriv int64            `json:"assertions_reduced_to_true"`
	Queries    int64            `json:"solver_queries"`
	SolverS    float64          `json:"solver_s"`
	Unknown    int64            `json:"unknown_queries"`
	CacheHits  int64            `json:"query_cache_hits"`
	FinalSat   int64            `json:"path_conditions_confirmed_sat"`
	FinalUnsat int64            `json:"path_conditions_unsat"`
	Covers     map[string]int64 `json:"reachability_witnesses"`
	Missing    []string         `json:"missing_witnesses,omitempty"`
	Unsup      map[string]int64 `json:"unsupported,omitempty"`
	Native     int              `json:"native_replays_agreeing"`
	NativeBad  int              `json:"native_replays_disagreeing"`
	WallS      float64          `json:"wall_s"`
	Viol       []*Violation     `json:"-"`
	samples    []PathSample
}

func (t *Target) runFn(rc *RunCfg, params map[string]int, budget time.Duration, maxPaths int64) *RunResult {
	f := t.main.Func(rc.Fn)
	if f == nil {
		fatal("no harness function %s", rc.Fn)
	}
	cfg := &Config{Merge: 2, MergeInts: rc.MergeInts, MapOrder: rc.MapOrder, MapOrderMax: 4, SchedChoices: rc.SchedChoices, Preempt: rc.Preempt, AsyncTimers: rc.AsyncTimers, MaxTimers: rc.MaxTimers,
		MaxSteps: rc.MaxSteps, MaxPaths: maxPaths, Budget: budget, Workers: 8, SolverMS: rc.SolverMS, FP: rc.FP, Params: params, MaxViol: 12}
	if rc.Merge != nil {
		cfg.Merge = *rc.Merge
	}
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 3_000_000
	}
	if cfg.SolverMS == 0 {
		cfg.SolverMS = 20000
	}
	if w := os.Getenv("GOSYM_WORKERS"); w != "" {
		fmt.Sscan(w, &cfg.Workers)
	}
	ex := newExplorer(cfg)
	s0 := stats
	t0 := time.Now()
	t.initState.ended = false
	st := t.initState.clone()
	st.w = &Worker{ex: ex}
	st.endKind, st.endMsg = "", ""
	st.steps = 0
	st.gs = []*Gor{{id: 0}}
	st.cur = 0
	fn := getFn(f)
	fn.prepare()
	st.pushFrame(fn, nil, nil, -1)
	qcache.Lock()
	qcache.m = map[string]cacheEntry{}
	qcache.Unlock()
	ex.run(st)
	r := &RunResult{Fn: rc.Fn, Params: params, About: rc.About, Why: ex.why, Paths: ex.paths, Forks: ex.trans, Steps: ex.steps, PathKinds: ex.kinds,
		Asserts: ex.asserts, AssertSMT: ex.assertSolver, AssertTriv: ex.assertTrivial, Unknown: ex.unk, FinalSat: ex.finalSat, FinalUnsat: ex.finalUnsat, Covers: ex.covers, Unsup: ex.unsup, Viol: ex.viol, samples: ex.samples}
	r.Queries = stats.queries - s0.queries
	r.SolverS = round3(float64(stats.solverNS-s0.solverNS) / 1e9)
	r.CacheHits = stats.cacheHits - s0.cacheHits
	r.WallS = round3(time.Since(t0).Seconds())
	for _, c := range rc.Cover {
		if ex.covers[c] == 0 {
			r.Missing = append(r.Missing, c)
		}
	}
	r.Exhaustive = ex.dropped == 0 && !ex.stop.Load() && ex.unk == 0 && len(ex.unsup) == 0 && ex.kinds["steps"] == 0 && ex.kinds["bound"] == 0 && ex.kinds["budget"] == 0 && ex.kinds["unknown"] == 0
	return r
}

func round3(f float64) float64 { return float64(int64(f*1000)) / 1000 }

// ---------------------------------------------------------------------------
// native replay
// ---------------------------------------------------------------------------

func (t *Target) buildNative() error {
	if t.bin != "" {
		return nil
	}
	tmp, err := os.MkdirTemp("", "gosym")
	if err != nil {
		return err
	}
	t.tmp = tmp
	rep := map[string]string{}
	i := 0
	for dst, c := range t.overlay {
		f := filepath.Join(tmp, fmt.Sprintf("f%d.go", i))
		i++
		os.WriteFile(f, c, 0o644)
		rep[dst] = f
	}
	b, _ := json.Marshal(map[string]any{"Replace": rep})
	ov := filepath.Join(tmp, "overlay.json")
	os.WriteFile(ov, b, 0o644)
	bin := filepath.Join(tmp, "native")
	cmd := exec.Command("go", "build", "-overlay", ov, "-o", bin, "./zzverif/zzmain")
	cmd.Dir = filepath.Join(repo, t.module)
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("native build: %v\n%s", err, out)
	}
	t.bin = bin
	return nil
}

func (t *Target) cleanup() {
	if t.tmp != "" {
		os.RemoveAll(t.tmp)
	}
}

type nativeRes struct {
	code    int
	timeout bool
	out     string
	obs     []string
	panicd  bool
	dead    bool
}

func (t *Target) native(fn string, params map[string]int, in []InputVal, to time.Duration) nativeRes {
	return t.nativeBin(t.bin, fn, params, in, to)
}

func (t *Target) nativeBin(bin, fn string, params map[string]int, in []InputVal, to time.Duration, env ...string) nativeRes {
	f, _ := os.CreateTemp(t.tmp, "in")
	b, _ := json.Marshal(in)
	f.Write(b)
	f.Close()
	defer os.Remove(f.Name())
	pb, _ := json.Marshal(params)
	cmd := exec.Command(bin)
	cmd.Env = append(append(cleanEnv(), env...), "SYM_INPUTS="+f.Name(), "SYM_HARNESS="+fn, "SYM_PARAMS="+string(pb))
	cmd.Dir = t.tmp
	var sb limitedBuf
	cmd.Stderr = &sb
	cmd.Start()
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var r nativeRes
	select {
	case <-done:
		r.code = cmd.ProcessState.ExitCode()
	case <-time.After(to):
		cmd.Process.Kill()
		<-done
		r.timeout = true
	}
	r.out = sb.String()
	for _, l := range strings.Split(r.out, "\n") {
		if strings.HasPrefix(l, "SYM-OBS:") {
			r.obs = append(r.obs, l[8:])
		}
	}
	r.dead = strings.Contains(r.out, "all goroutines are asleep - deadlock")
	r.panicd = !r.dead && r.code == 2 && (strings.Contains(r.out, "panic:") || strings.Contains(r.out, "fatal error:"))
	return r
}

func cleanEnv() []string {
	return []string{"PATH=/usr/local/bin:/usr/bin:/bin", "HOME=/tmp", "GOMEMLIMIT=2GiB"}
}

type limitedBuf struct {
	mu sync.Mutex
	b  []byte
}

func (l *limitedBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if len(l.b) < 1<<20 {
		l.b = append(l.b, p...)
	}
	return len(p), nil
}
func (l *limitedBuf) String() string { l.mu.Lock(); defer l.mu.Unlock(); return string(l.b) }

// confirm replays a counterexample against the natively compiled code.
func (t *Target) confirm(fn string, params map[string]int, v *Violation) bool {
	if err := t.buildNative(); err != nil {
		v.Native = err.Error()
		return false
	}
	tries := 2
	if v.Sched {
		tries = 40
	}
	to := 10 * time.Second
	for i := 0; i < tries; i++ {
		if v.Kind == "steps" || v.Kind == "deadlock" {
			to = 4 * time.Second
		}
		r := t.native(fn, params, v.Inputs, to)
		v.Native = firstLine(r.out)
		v.Reproduced = matches(v, r)
		if v.Reproduced {
			return true
		}
	}
	if v.Sched {
		return t.confirmNoise(fn, params, v)
	}
	return false
}

// validate replays path models natively and compares the observations.
func (t *Target) validate(rc *RunCfg, params map[string]int, r *RunResult, limit int) {
	if rc.NoNative {
		return
	}
	if err := t.buildNative(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return
	}
	var mu sync.Mutex
	sem := make(chan bool, 8)
	var wg sync.WaitGroup
	n := 0
	for _, s := range r.samples {
		if n >= limit {
			break
		}
		n++
		wg.Add(1)
		sem <- true
		go func(s PathSample) {
			defer wg.Done()
			defer func() { <-sem }()
			res := t.native(rc.Fn, params, s.Inputs, 10*time.Second)
			ok := res.code == 0 && !res.timeout && len(res.obs) == len(s.Obs)
			if ok {
				for i := range s.Obs {
					if s.Obs[i] != res.obs[i] {
						ok = false
					}
				}
			}
			mu.Lock()
			defer mu.Unlock()
			if ok {
				r.Native++
			} else if s.Sched {
				// schedule-dependent path: the native scheduler may differ
			} else {
				r.NativeBad++
				if r.NativeBad <= 3 {
					fmt.Fprintf(os.Stderr, "native disagreement in %s: code %d inputs %v\n engine %v\n native %v\n%s\n", rc.Fn, res.code, s.Inputs, s.Obs, res.obs, firstLine(res.out))
				}
			}
		}(s)
	}
	wg.Wait()
}

// ---------------------------------------------------------------------------

func encodedFns(modp string) []string {
	var out []string
	fnMap.Range(func(_, v any) bool {
		fn := v.(*Fn)
		if atomic.LoadInt64(&fn.hits) > 0 && strings.Contains(fn.name, "phoenix-tui/phoenix") && !strings.Contains(fn.name, "/zzverif/") {
			out = append(out, strings.ReplaceAll(fn.name, "github.com/phoenix-tui/phoenix/", ""))
		}
		return true
	})
	sort.Strings(out)
	return out
}

func resetGlobals() {
	fnMap = sync.Map{}
	tfast = sync.Map{}
	implCache = sync.Map{}
	tcanon = typeutil.Map{}
	tcanon.SetHasher(tcanonHasher)
	globalIDs = map[*ssa.Global]int32{}
	decFn = nil
	fileFds = map[Ptr]int{}
}

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: gosym check CONFIG | dev CONFIG [fn] [k=v...] | replay FILE")
		os.Exit(2)
	}
	if p := os.Getenv("GOSYM_PROF"); p != "" {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	debugPanics = os.Getenv("GOSYM_DEBUG") != ""
	switch os.Args[1] {
	case "check":
		os.Exit(cmdCheck(os.Args[2]))
	case "dev":
		cmdDev(os.Args[2], os.Args[3:])
	case "replay":
		os.Exit(cmdReplay(os.Args[2]))
	}
}

func readCfg(f string) *CheckCfg {
	b, err := os.ReadFile(f)
	if err != nil {
		fatal("%v", err)
	}
	var c CheckCfg
	if err := json.Unmarshal(b, &c); err != nil {
		fatal("%s: %v", f, err)
	}
	for i := range c.Runs {
		if c.Runs[i].Module == "" {
			c.Runs[i].Module = c.Module
		}
		if c.Runs[i].Harness == "" {
			c.Runs[i].Harness = c.Harness
		}
	}
	return &c
}

func cmdDev(f string, args []string) {
	c := readCfg(f)
	want := ""
	over := map[string]int{}
	tier := "quick"
	for _, a := range args {
		if a == "thorough" {
			tier = a
		} else if k, v, ok := strings.Cut(a, "="); ok {
			var n int
			fmt.Sscan(v, &n)
			over[k] = n
		} else {
			want = a
		}
	}
	var t *Target
	for i := range c.Runs {
		rc := &c.Runs[i]
		if want != "" && rc.Fn != want {
			continue
		}
		if t == nil || t.module != rc.Module || t.harness != rc.Harness {
			if t != nil {
				t.cleanup()
				resetGlobals()
			}
			t = load(rc.Module, rc.Harness)
			fmt.Printf("loaded %s/%s in %.1fs, init %.1fs (%d objects, extern %d)\n", rc.Module, rc.Harness, t.loadS, t.initS, t.initState.nobj, len(t.ex0.extern))
			if os.Getenv("GOSYM_V") != "" {
				fmt.Println(sortedKeys(t.ex0.extern))
			}
		}
		tc := rc.Quick
		if tier == "thorough" {
			tc = rc.Thorough
		}
		if tc.Time == 0 {
			tc.Time = 60
		}
		if b, ok := over["time"]; ok {
			tc.Time = b
		}
		for _, p := range variants(rc, tc) {
			for k, v := range over {
				p[k] = v
			}
			r := t.runFn(rc, p, time.Duration(tc.Time)*time.Second, tc.Paths)
			b, _ := json.MarshalIndent(r, "", " ")
			fmt.Println(string(b))
			for _, v := range r.Viol {
				ok := t.confirm(rc.Fn, p, v)
				fmt.Printf("CEX %s\n  inputs %s\n  reproduced=%v native=%s\n", v.Msg, fmtInputs(v.Inputs), ok, v.Native)
			}
			t.validate(rc, p, r, 40)
			fmt.Printf("== %s %v: exhaustive=%v paths=%d viol=%d wall=%.1fs solver=%.1fs native ok=%d bad=%d\n", r.Fn, p, r.Exhaustive, r.Paths, len(r.Viol), r.WallS, r.SolverS, r.Native, r.NativeBad)
			if len(r.samples) > 0 && os.Getenv("GOSYM_V") != "" {
				for i := 0; i < min(5, len(r.samples)); i++ {
					fmt.Println("sample", fmtInputs(r.samples[i].Inputs), r.samples[i].Obs)
				}
			}
		}
	}
	if t != nil {
		t.cleanup()
	}
}

func variants(rc *RunCfg, tc TierCfg) []map[string]int {
	if len(rc.Variants) == 0 {
		m := map[string]int{}
		for k, v := range tc.Params {
			m[k] = v
		}
		return []map[string]int{m}
	}
	var out []map[string]int
	for _, x := range rc.Variants {
		m := map[string]int{}
		for k, v := range tc.Params {
			m[k] = v
		}
		for k, v := range x {
			m[k] = v
		}
		out = append(out, m)
	}
	return out
}

func fmtInputs(in []InputVal) string {
	var sb strings.Builder
	for i, v := range in {
		if i > 0 {
			sb.WriteByte(' ')
		}
		if v.Kind == "byte" {
			fmt.Fprintf(&sb, "%q", byte(v.Val))
		} else {
			fmt.Fprintf(&sb, "%s:%d", v.Kind, v.Val)
		}
	}
	return sb.String()
}
