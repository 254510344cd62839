package main

import (
	"fmt"
	"os"
	"strings"
	"sync"
	"sync/atomic"
)

type Frame struct {
	owner     *ownTok
	fn        *Fn
	env       []Value
	blk       int
	prev      int
	pc        int
	dst       int32 // caller register receiving the result (-1 none)
	defers    *deferRec
	onRet     func(st *State, r Value) Value // transforms the result before it is stored; must not fork
	panicking bool
	recovered bool
	isDefer   bool
	discard   bool
	panicVal  Iface
	barrier   bool // sub-exploration root: returning from it ends the sub-state
}

type deferRec struct {
	fn   *Closure
	nat  *Instr
	args []Value
	next *deferRec
}

type GStatus uint8

const (
	gRun GStatus = iota
	gBlocked
	gDone
)

type Gor struct {
	id     int
	frames []*Frame
	status GStatus
	wait   Wait
	passed bool // scheduling point for the current instruction already taken
	seq    int
	daemon bool
}

type WaitKind uint8

const (
	wNone WaitKind = iota
	wChan
	wLock
	wRLock
	wWG
	wSleep
	wForever
	wCond
)

type Wait struct {
	kind  WaitKind
	p     Ptr
	cases []WaitCase
	timer int
	sel   bool // from a select
	woken bool
	instr *Instr
}
type WaitCase struct {
	ch   ChanRef
	send bool
	val  Value
	idx  int
}

type Timer struct {
	id     int
	when   int64
	live   bool
	ch     ChanRef
	fn     *Closure
	g      int // goroutine to wake
	period int64
	ptr    Ptr
}

type knownLayer struct {
	m      map[*Term]bool
	parent *knownLayer
	depth  int
}

type domain struct {
	lo   uint64 // value of bit 0
	n    int
	bits [4]uint64
}

type Input struct {
	Kind  string
	Label string
	t     *Term
	Ts    []*Term
	conc  string
}

type State struct {
	tok       *ownTok
	ownedCoW  bool
	pages     []*page
	nobj      int
	gs        []*Gor
	cur       int
	pc        []*Term
	forks     []*Term
	known     *knownLayer
	doms      map[*Term]*domain
	domsOwn   *ownTok
	ent       map[*Term]bool // vars in multi-var constraints
	entOwn    *ownTok
	model     Model
	inputs    []Input
	steps     int64
	instrN    int64
	pending   *Term
	mergeBase int32
	mergeD    int
	clock     int64
	timers    []*Timer
	waitSeq   int
	preempts  int
	notes     []string
	covers    map[string]bool
	coversOwn *ownTok
	w         *Worker
	ended     bool
	endKind   string
	endMsg    string
	subRet    Value
	capOut    []Value
	capOn     bool
	env       map[string]Value
	nChoice   int
	asserts   int
	panics    int
	mapPerm   int
	allowDead bool
	trace     []string
	memo      *memoLayer
	loopCnt   int
	budgetHit bool
	finMsg    Value
	stdin     *stdinModel
}

type stdinModel struct{}

type memoLayer struct {
	m      map[string]Value
	parent *memoLayer
	depth  int
}

func (st *State) clone() *State {
	n := *st
	n.tok = &ownTok{}
	st.tok = &ownTok{}
	n.pages = append(make([]*page, 0, len(st.pages)+2), st.pages...)
	n.gs = make([]*Gor, len(st.gs))
	for i, g := range st.gs {
		c := *g
		c.frames = append(make([]*Frame, 0, len(g.frames)+4), g.frames...)
		n.gs[i] = &c
	}
	n.pc = st.pc[:len(st.pc):len(st.pc)]
	st.pc = st.pc[:len(st.pc):len(st.pc)]
	n.forks = st.forks[:len(st.forks):len(st.forks)]
	st.forks = st.forks[:len(st.forks):len(st.forks)]
	n.inputs = st.inputs[:len(st.inputs):len(st.inputs)]
	st.inputs = n.inputs
	n.notes = st.notes[:len(st.notes):len(st.notes)]
	st.notes = n.notes
	n.capOut = st.capOut[:len(st.capOut):len(st.capOut)]
	st.capOut = n.capOut
	n.timers = make([]*Timer, len(st.timers))
	for i, t := range st.timers {
		c := *t
		n.timers[i] = &c
	}
	k := st.known
	if k != nil && k.depth > 10 {
		m := map[*Term]bool{}
		for l := k; l != nil; l = l.parent {
			for t, v := range l.m {
				m[t] = v
			}
		}
		k = &knownLayer{m: m}
	}
	d := 0
	if k != nil {
		d = k.depth + 1
	}
	st.known = &knownLayer{m: map[*Term]bool{}, parent: k, depth: d}
	n.known = &knownLayer{m: map[*Term]bool{}, parent: k, depth: d}
	mm := st.memo
	if mm != nil {
		d = mm.depth + 1
		if d > 10 {
			m := map[string]Value{}
			for l := mm; l != nil; l = l.parent {
				for t, v := range l.m {
					if _, ok := m[t]; !ok {
						m[t] = v
					}
				}
			}
			mm = &memoLayer{m: m}
			d = 1
		}
	} else {
		d = 0
	}
	st.memo = &memoLayer{m: map[string]Value{}, parent: mm, depth: d}
	n.memo = &memoLayer{m: map[string]Value{}, parent: mm, depth: d}
	return &n
}

func (st *State) g() *Gor { return st.gs[st.cur] }

func (st *State) top() *Frame {
	g := st.gs[st.cur]
	i := len(g.frames) - 1
	f := g.frames[i]
	if f.owner != st.tok {
		c := *f
		c.owner = st.tok
		c.env = append(make([]Value, 0, len(f.env)), f.env...)
		g.frames[i] = &c
		return &c
	}
	return f
}

func (st *State) frameOf(g *Gor) *Frame {
	i := len(g.frames) - 1
	f := g.frames[i]
	if f.owner != st.tok {
		c := *f
		c.owner = st.tok
		c.env = append(make([]Value, 0, len(f.env)), f.env...)
		g.frames[i] = &c
		return &c
	}
	return f
}

func (st *State) frameAt(i int) *Frame {
	g := st.gs[st.cur]
	f := g.frames[i]
	if f.owner != st.tok {
		c := *f
		c.owner = st.tok
		c.env = append(make([]Value, 0, len(f.env)), f.env...)
		g.frames[i] = &c
		return &c
	}
	return f
}

// ---------------------------------------------------------------------------
// path condition handling
// ---------------------------------------------------------------------------

func (st *State) lookupKnown(c *Term) (bool, bool) {
	for l := st.known; l != nil; l = l.parent {
		if v, ok := l.m[c]; ok {
			return v, true
		}
	}
	return false, false
}

func (st *State) learn(c *Term, v bool) {
	for c.op == ONot {
		c = c.a
		v = !v
	}
	if st.known == nil {
		st.known = &knownLayer{m: map[*Term]bool{}}
	}
	st.known.m[c] = v
}

func (d *domain) has(i int) bool { return d.bits[i>>6]>>(uint(i)&63)&1 == 1 }

// truth bitmap of a unary condition over a domain's window
type truthKey struct {
	t  *Term
	lo uint64
	n  int
}

func (st *State) truth(c, v *Term, d *domain) (yes, no domain) {
	key := truthKey{c, d.lo, d.n}
	var bm [4]uint64
	if x, ok := truthCache.Load(key); ok {
		bm = x.([4]uint64)
	} else {
		m := Model{}
		for i := 0; i < d.n; i++ {
			m[v] = (d.lo + uint64(i)) & mask(v.w)
			if m.eval(c) == 1 {
				bm[i>>6] |= 1 << (uint(i) & 63)
			}
		}
		truthCache.Store(key, bm)
	}
	yes, no = *d, *d
	for i := range bm {
		yes.bits[i] = d.bits[i] & bm[i]
		no.bits[i] = d.bits[i] &^ bm[i]
	}
	return
}
func (d *domain) empty() bool { return d.bits == [4]uint64{} }
func (d *domain) first() uint64 {
	for i := 0; i < d.n; i++ {
		if d.has(i) {
			return d.lo + uint64(i)
		}
	}
	return 0
}

func (st *State) setDom(v *Term, d *domain) {
	if st.domsOwn != st.tok {
		m := make(map[*Term]*domain, len(st.doms)+1)
		for k, x := range st.doms {
			m[k] = x
		}
		st.doms = m
		st.domsOwn = st.tok
	}
	st.doms[v] = d
}
func (st *State) entangle(vs []*Term) {
	if st.entOwn != st.tok {
		m := make(map[*Term]bool, len(st.ent)+1)
		for k := range st.ent {
			m[k] = true
		}
		st.ent = m
		st.entOwn = st.tok
	}
	for _, v := range vs {
		st.ent[v] = true
	}
}

// addPC appends a constraint known to be satisfied by st.model.
func (st *State) addPC(c *Term) {
	if c.isConst() {
		return
	}
	if c.op == OAnd {
		st.learn(c, true)
		st.addPC(c.a)
		st.addPC(c.b)
		return
	}
	if v, ok := st.lookupKnown(stripNot(c)); ok && v == (c.op != ONot) {
		return
	}
	st.learn(c, true)
	if c.op == ONot && c.a.op == OOr {
		st.addPC(tNot(c.a.a))
		st.addPC(tNot(c.a.b))
		return
	}
	if len(c.vars) == 1 {
		v := c.vars[0]
		if d := st.doms[v]; d != nil {
			y, _ := st.truth(c, v, d)
			st.setDom(v, &y)
		}
	} else {
		st.entangle(c.vars)
	}
	st.pc = append(st.pc, c)
}

func stripNot(c *Term) *Term {
	for c.op == ONot {
		c = c.a
	}
	return c
}

func (st *State) setModel(upd Model) {
	n := make(Model, len(st.model)+len(upd))
	for k, v := range st.model {
		n[k] = v
	}
	for k, v := range upd {
		n[k] = v
	}
	st.model = n
}

// decide returns (value, decided) for a boolean condition without forking.
func (st *State) quick(c *Term) (bool, bool) {
	if c.isConst() {
		return c.val == 1, true
	}
	neg := false
	for c.op == ONot {
		c = c.a
		neg = !neg
	}
	if v, ok := st.lookupKnown(c); ok {
		return v != neg, true
	}
	switch c.op {
	case OAnd:
		a, ok1 := st.quick(c.a)
		b, ok2 := st.quick(c.b)
		if ok1 && !a || ok2 && !b {
			return neg, true
		}
		if ok1 && ok2 {
			return !neg, true
		}
	case OOr:
		a, ok1 := st.quick(c.a)
		b, ok2 := st.quick(c.b)
		if ok1 && a || ok2 && b {
			return !neg, true
		}
		if ok1 && ok2 {
			return neg, true
		}
	}
	if len(c.vars) == 1 {
		if d := st.doms[c.vars[0]]; d != nil {
			y, n := st.truth(c, c.vars[0], d)
			if n.empty() {
				return !neg, true
			}
			if y.empty() {
				return neg, true
			}
		}
	}
	return false, false
}

func (st *State) solve(extra *Term) (Res, Model) {
	cs := sliceConstraints(st.pc, []*Term{extra})
	// domains of the involved variables that come from declarations are in pc as well
	key := cacheKey(cs)
	qcache.Lock()
	e, ok := qcache.m[key]
	qcache.Unlock()
	if ok {
		atomic.AddInt64(&stats.cacheHits, 1)
		return e.r, e.m
	}
	r, m := st.w.solver.check(cs, true)
	if r != Unknown {
		qcache.Lock()
		qcache.m[key] = cacheEntry{r, m}
		qcache.Unlock()
	}
	return r, m
}

// feasible finds a model for pc ∧ c (c not decided by quick).
func (st *State) feasible(c *Term) (Res, Model) {
	if len(c.vars) == 1 {
		v := c.vars[0]
		if d := st.doms[v]; d != nil && !st.ent[v] {
			y, _ := st.truth(c, v, d)
			if y.empty() {
				return Unsat, nil
			}
			return Sat, Model{v: y.first()}
		}
	}
	return st.solve(c)
}

// branch decides a condition; when both sides are feasible the other side is
// forked as a clone that re-executes the current instruction.
func (st *State) branch(c *Term) bool {
	if v, ok := st.quick(c); ok {
		return v
	}
	mv := st.model.eval(c) == 1
	mine, other := c, tNot(c)
	if !mv {
		mine, other = other, mine
	}
	r, m := st.feasible(other)
	switch r {
	case Unsat:
		st.learn(mine, true)
		return mv
	case Unknown:
		st.w.ex.noteUnknown(st)
		st.addPC(mine)
		return mv
	}
	n := st.clone()
	n.setModel(m)
	n.addPC(other)
	n.forks = append(n.forks, other)
	n.top().pc--
	st.addPC(mine)
	st.forks = append(st.forks, mine)
	st.w.push(n)
	return mv
}

func (st *State) branchV(v Value) bool {
	switch x := v.(type) {
	case bool:
		return x
	case *Term:
		return st.branch(x)
	}
	panic(fmt.Sprintf("branchV %T", v))
}

// concretize picks a value for t on this path, forking the others.
func (st *State) concretize(t *Term) uint64 {
	if t.isConst() {
		return t.val
	}
	if t.w == 0 {
		return b2u(st.branch(t))
	}
	v := st.model.eval(t)
	c := tEq(t, tConst(v, t.w))
	if c.isConst() {
		return v
	}
	if st.branch(c) {
		return v
	}
	// the model value was excluded while branching cannot happen
	panic("concretize: model inconsistent")
}

func (st *State) concInt(v Value, ti *TInfo) int64 {
	switch x := v.(type) {
	case Int:
		if ti.signed {
			return sext64(uint64(x), ti.w)
		}
		return int64(x)
	case *Term:
		u := st.concretize(x)
		if ti.signed {
			return sext64(u, ti.w)
		}
		return int64(u)
	}
	panic(fmt.Sprintf("concInt %T", v))
}

// concAll concretizes every symbolic scalar within v.
func (st *State) concAll(v Value) Value {
	switch x := v.(type) {
	case *Term:
		u := st.concretize(x)
		return fromTerm(tConst(u, x.w))
	case *SymStr:
		b := make([]byte, len(x.b))
		for i, y := range x.b {
			switch z := y.(type) {
			case Int:
				b[i] = byte(z)
			case *Term:
				b[i] = byte(st.concretize(z))
			}
		}
		return string(b)
	case Agg:
		n := make(Agg, len(x))
		for i := range x {
			n[i] = st.concAll(x[i])
		}
		return n
	case Iface:
		return Iface{x.t, st.concAll(x.v)}
	}
	return v
}

// inVar is the variable of the next input.  Paths share the variable of the
// same position and sort, so terms and solver work are shared between paths.
var inVars sync.Map

type inVarKey struct {
	n int
	w uint8
}

func (st *State) inVar(w uint8) *Term {
	k := inVarKey{len(st.inputs), w}
	if v, ok := inVars.Load(k); ok {
		return v.(*Term)
	}
	v, _ := inVars.LoadOrStore(k, newVar(fmt.Sprintf("in%d", k.n), w))
	return v.(*Term)
}

func (st *State) newInput(kind, label string, w uint8) *Term {
	return st.inVar(w)
}

// choice creates (once per instruction execution) a symbolic choice in [0,n)
// and concretizes it.
func (st *State) choice(label string, n int) int {
	if n <= 1 {
		return 0
	}
	if st.pending == nil {
		t := st.inVar(8)
		st.declare(t, 0, uint64(n-1))
		st.inputs = append(st.inputs, Input{Kind: "choice", Label: label, t: t})
		st.pending = t
	}
	v := st.concretize(st.pending)
	st.pending = nil
	return int(v)
}

// declare a variable with an unsigned range (both bounds inclusive); sets model.
func (st *State) declare(t *Term, lo, hi uint64) {
	st.setModel(Model{t: lo})
	if hi-lo < 256 {
		d := &domain{lo: lo, n: int(hi-lo) + 1}
		for i := 0; i < d.n; i++ {
			d.bits[i>>6] |= 1 << (uint(i) & 63)
		}
		st.setDom(t, d)
	}
	if lo > 0 {
		st.pc = append(st.pc, tNot(mk(OUlt, 0, 0, t, tConst(lo, t.w), nil)))
		st.learn(tCmp(OUlt, t, tConst(lo, t.w)), false)
	}
	if hi < mask(t.w) {
		st.pc = append(st.pc, tNot(mk(OUlt, 0, 0, tConst(hi, t.w), t, nil)))
		st.learn(tCmp(OUlt, tConst(hi, t.w), t), false)
	}
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "gosym: fatal: "+f+"\n", a...)
	os.Exit(2)
}

func (st *State) stackTrace() string {
	var sb strings.Builder
	g := st.g()
	for i := len(g.frames) - 1; i >= 0 && i > len(g.frames)-14; i-- {
		f := g.frames[i]
		pos := ""
		if f.fn.blocks != nil && f.blk < len(f.fn.blocks) {
			b := f.fn.blocks[f.blk]
			p := f.pc - 1
			if p < 0 {
				p = 0
			}
			if p < len(b.instrs) {
				pos = prog.Fset.Position(b.instrs[p].in.Pos()).String()
			}
		}
		fmt.Fprintf(&sb, "    %s  %s\n", f.fn.name, pos)
	}
	return sb.String()
}
