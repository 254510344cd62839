package main

import (
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Config struct {
	Merge        int
	MergeInts    bool
	MapOrder     bool
	MapOrderMax  int
	SchedChoices bool
	Preempt      int
	AsyncTimers  bool
	MaxTimers    int
	MaxSteps     int64
	MaxPaths     int64
	Budget       time.Duration
	Workers      int
	SolverMS     int
	FP           bool
	Params       map[string]int
	MaxViol      int
}

type Violation struct {
	Kind   string
	Msg    string
	Site   string
	Inputs []InputVal
	Sched  bool
	Trace  string
	// filled by replay
	Reproduced bool
	Native     string
	File       string
}

type InputVal struct {
	Kind  string `json:"kind"`
	Label string `json:"label,omitempty"`
	Val   int64  `json:"val"`
}

type PathSample struct {
	Inputs []InputVal
	Obs    []string
	Sched  bool
}

type Explorer struct {
	cfg    *Config
	mu     sync.Mutex
	cond   *sync.Cond
	work   []*State
	idle   int
	n      int
	stop   atomic.Bool
	start  time.Time
	paths  int64
	trans  int64
	steps  int64
	kinds  map[string]int64
	viol   []*Violation
	vcount map[string]int
	unsup  map[string]int64
	extern map[string]bool
	covers map[string]int64
	unk    int64
	asserts,
	assertSolver, assertTrivial int64
	samples    []PathSample
	dropped    int64
	finalSat   int64
	finalUnsat int64
	finalUnk   int64
	fns        map[string]bool
	maxPC      int
	why        string
	whyMu      sync.Mutex
}

type Worker struct {
	id            int
	ex            *Explorer
	solver        *Solver
	wl            *[]*State
	subDepth      int
	initMode      bool
	mergeAbortWhy string
	local         []*State
}

var debugPanics = false

func newExplorer(cfg *Config) *Explorer {
	ex := &Explorer{cfg: cfg, kinds: map[string]int64{}, vcount: map[string]int{}, unsup: map[string]int64{}, extern: map[string]bool{}, covers: map[string]int64{}, fns: map[string]bool{}}
	ex.cond = sync.NewCond(&ex.mu)
	return ex
}

func (ex *Explorer) noteExtern(n string) {
	ex.mu.Lock()
	ex.extern[n] = true
	ex.mu.Unlock()
}
func (ex *Explorer) noteUnknown(st *State) {
	atomic.AddInt64(&ex.unk, 1)
}

func (w *Worker) push(s *State) {
	atomic.AddInt64(&w.ex.trans, 1)
	if w.wl != nil {
		*w.wl = append(*w.wl, s)
		return
	}
	w.local = append(w.local, s)
	ex := w.ex
	if len(w.local) > 1 && atomicIdle(ex) > 0 {
		ex.mu.Lock()
		// hand over the oldest state
		ex.work = append(ex.work, w.local[0])
		w.local = append([]*State(nil), w.local[1:]...)
		ex.cond.Signal()
		ex.mu.Unlock()
	}
}

func atomicIdle(ex *Explorer) int {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	return ex.idle - len(ex.work)
}

func (w *Worker) checkBudget(st *State) {
	ex := w.ex
	if w.initMode {
		return
	}
	if st.steps > ex.cfg.MaxSteps && st.mergeD == 0 {
		st.end("steps", fmt.Sprintf("more than %d steps\n%s", ex.cfg.MaxSteps, st.stackTrace()))
		return
	}
	if ex.stopped() {
		if st.mergeD > 0 {
			w.mergeAbortWhy = "budget"
		}
		st.end("budget", "")
	}
}

// setWhy notes why the exploration stopped: the first reason.
func (ex *Explorer) setWhy(w string) {
	ex.whyMu.Lock()
	if ex.why == "" {
		ex.why = w
	}
	ex.whyMu.Unlock()
}

func (ex *Explorer) stopped() bool {
	if ex.stop.Load() {
		return true
	}
	if time.Since(ex.start) > ex.cfg.Budget {
		ex.setWhy("time budget")
		ex.stop.Store(true)
	} else if ex.cfg.MaxPaths > 0 && atomic.LoadInt64(&ex.paths) >= ex.cfg.MaxPaths {
		ex.setWhy("path budget")
		ex.stop.Store(true)
	}
	return ex.stop.Load()
}

func (ex *Explorer) run(init *State) {
	ex.start = time.Now()
	ex.work = []*State{init}
	ex.n = ex.cfg.Workers
	var wg sync.WaitGroup
	memStop := make(chan bool)
	go func() {
		for {
			select {
			case <-memStop:
				return
			case <-time.After(500 * time.Millisecond):
				var m runtime.MemStats
				runtime.ReadMemStats(&m)
				if m.HeapAlloc > 14<<30 {
					ex.setWhy("memory budget")
					ex.stop.Store(true)
				}
				ex.stopped()
				if ex.stop.Load() {
					ex.mu.Lock()
					ex.cond.Broadcast()
					ex.mu.Unlock()
				}
			}
		}
	}()
	for i := 0; i < ex.n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			w := &Worker{id: i, ex: ex, solver: newSolver(ex.cfg.SolverMS, ex.cfg.FP)}
			defer w.solver.close()
			w.loop()
		}(i)
	}
	wg.Wait()
	close(memStop)
	ex.dropped += int64(len(ex.work))
}

func (w *Worker) loop() {
	ex := w.ex
	for {
		var st *State
		if n := len(w.local); n > 0 {
			st = w.local[n-1]
			w.local = w.local[:n-1]
		} else {
			ex.mu.Lock()
			ex.idle++
			for len(ex.work) == 0 && ex.idle < ex.n && !ex.stop.Load() {
				ex.cond.Wait()
			}
			if ex.stop.Load() || len(ex.work) == 0 {
				ex.cond.Broadcast()
				ex.mu.Unlock()
				return
			}
			ex.idle--
			st = ex.work[len(ex.work)-1]
			ex.work = ex.work[:len(ex.work)-1]
			ex.mu.Unlock()
		}
		if ex.stopped() {
			ex.mu.Lock()
			ex.dropped += int64(1 + len(w.local))
			ex.idle++
			ex.cond.Broadcast()
			ex.mu.Unlock()
			return
		}
		w.wl = nil
		w.run(st)
		w.finish(st)
	}
}

func (w *Worker) finish(st *State) {
	ex := w.ex
	ex.mu.Lock()
	defer ex.mu.Unlock()
	atomic.AddInt64(&ex.paths, 1)
	ex.steps += st.steps
	ex.kinds[st.endKind]++
	if len(st.pc) > ex.maxPC {
		ex.maxPC = len(st.pc)
	}
	for c := range st.covers {
		ex.covers[c]++
	}
	switch st.endKind {
	case "ok":
	case "panic", "deadlock", "fatal", "steps", "exit":
		ex.addViol(st, st.endKind, st.endMsg, st.model)
	case "unsupported":
		k := st.endMsg
		ex.unsup[k]++
	case "budget":
		ex.dropped++
	}
	if st.endKind == "ok" {
		// final whole-path check by the solver (validates the local feasibility shortcuts)
		n := atomic.LoadInt64(&ex.paths)
		if n <= 400 || n%16 == 0 {
			ex.mu.Unlock()
			r, m := w.solver.check(st.pc, true)
			ex.mu.Lock()
			switch r {
			case Sat:
				ex.finalSat++
				if m == nil {
					m = Model{}
				}
				full := Model{}
				for k, v := range st.model {
					full[k] = v
				}
				for k, v := range m {
					full[k] = v
				}
				if len(ex.samples) < 40 || n%64 == 0 && len(ex.samples) < 200 {
					ex.samples = append(ex.samples, st.sample(full))
				}
			case Unsat:
				ex.finalUnsat++
			default:
				ex.finalUnk++
			}
		}
	}
}

func (st *State) sample(m Model) PathSample {
	p := PathSample{}
	p.Inputs, p.Sched = st.inputVals(m)
	for _, o := range st.obsList() {
		p.Obs = append(p.Obs, o.label+"="+showVal(o.v, m))
	}
	return p
}

func (st *State) inputVals(m Model) ([]InputVal, bool) {
	var out []InputVal
	sched := false
	for _, in := range st.inputs {
		v := m.eval(in.t)
		iv := InputVal{Kind: in.Kind, Label: in.Label, Val: int64(v)}
		if in.t.w == 64 {
			iv.Val = int64(v)
		}
		if in.Kind == "choice" {
			sched = true
		}
		out = append(out, iv)
	}
	return out, sched
}

func showVal(v Value, m Model) string {
	switch x := v.(type) {
	case Int:
		return fmt.Sprint(int64(x))
	case bool:
		return fmt.Sprint(x)
	case string:
		return fmt.Sprintf("%q", x)
	case *Term:
		u := m.eval(x)
		if x.w == 0 {
			return fmt.Sprint(u == 1)
		}
		if x.w == wF64 {
			return fmt.Sprint(f64(u))
		}
		return fmt.Sprint(sext64(u, x.w))
	case *SymStr:
		b := make([]byte, len(x.b))
		for i, y := range x.b {
			b[i] = byte(m.eval(asTerm(y, 8)))
		}
		return fmt.Sprintf("%q", string(b))
	case float64:
		return fmt.Sprint(x)
	}
	return fmt.Sprintf("%v", v)
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

// addViol (ex.mu held)
func (ex *Explorer) addViol(st *State, kind, msg string, m Model) {
	site := kind + ": " + firstLine(msg)
	ex.vcount[site]++
	if ex.vcount[site] > 4 {
		return
	}
	in, sched := st.inputVals(m)
	v := &Violation{Kind: kind, Msg: msg, Site: site, Inputs: in, Sched: sched}
	ex.viol = append(ex.viol, v)
	if ex.cfg.MaxViol > 0 && len(ex.viol) >= ex.cfg.MaxViol {
		ex.setWhy("stopped after counterexamples")
		ex.stop.Store(true)
		ex.cond.Broadcast()
	}
}

// assertCond decides an assertion: pc ∧ ¬cond is given to the solver.
func (st *State) assertCond(c *Term, msg string) {
	ex := st.w.ex
	atomic.AddInt64(&ex.asserts, 1)
	if c == tTrue {
		atomic.AddInt64(&ex.assertTrivial, 1)
		return
	}
	if c == tFalse {
		ex.mu.Lock()
		seen := ex.vcount["assert: "+firstLine(msg)]
		ex.mu.Unlock()
		if seen > 4 {
			st.end("violation", msg)
			panic(pathEnd{})
		}
		// confirm that the path itself is feasible
		r, m := st.w.solver.check(st.pc, true)
		if r == Unsat {
			st.end("infeasible", "")
			panic(pathEnd{})
		}
		full := Model{}
		for k, v := range st.model {
			full[k] = v
		}
		if r == Sat {
			for k, v := range m {
				full[k] = v
			}
		}
		ex.mu.Lock()
		ex.addViol(st, "assert", msg, full)
		ex.mu.Unlock()
		st.end("violation", msg)
		panic(pathEnd{})
	}
	atomic.AddInt64(&ex.assertSolver, 1)
	neg := tNot(c)
	cs := sliceConstraints(st.pc, []*Term{neg})
	key := cacheKey(cs)
	qcache.Lock()
	e, ok := qcache.m[key]
	qcache.Unlock()
	r, m := e.r, e.m
	if !ok {
		r, m = st.w.solver.check(cs, true)
		if r != Unknown {
			qcache.Lock()
			qcache.m[key] = cacheEntry{r, m}
			qcache.Unlock()
		}
	} else {
		atomic.AddInt64(&stats.cacheHits, 1)
	}
	switch r {
	case Unsat:
		st.learn(c, true)
		return
	case Unknown:
		ex.noteUnknown(st)
		return
	}
	full := Model{}
	for k, v := range st.model {
		full[k] = v
	}
	for k, v := range m {
		full[k] = v
	}
	ex.mu.Lock()
	ex.addViol(st, "assert", msg, full)
	ex.mu.Unlock()
	// continue under the assumption that it holds
	if !st.assume(c) {
		st.end("violation", msg)
		panic(pathEnd{})
	}
}

// assume adds c to the path; false when that is infeasible.
func (st *State) assume(c *Term) bool {
	if v, ok := st.quick(c); ok {
		return v
	}
	if st.model.eval(c) != 1 {
		r, m := st.feasible(c)
		switch r {
		case Unsat:
			return false
		case Unknown:
			st.w.ex.noteUnknown(st)
			st.end("unknown", "")
			panic(pathEnd{})
		}
		st.setModel(m)
	}
	st.addPC(c)
	return true
}

type obs struct {
	label string
	v     Value
}

func (st *State) obsList() []obs {
	l, _ := st.finMsg.([]obs)
	return l
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
