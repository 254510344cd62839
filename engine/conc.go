package main

import "golang.org/x/tools/go/ssa"

// Goroutines, channels, select, locks and timers.  Scheduling decisions are
// symbolic choice variables that are concretized path by path.

func (st *State) goStmt(fr *Frame, in *Instr) {
	var c *Closure
	var args []Value
	if in.builtin != nil {
		unsupported("go builtin")
	}
	c, args = st.resolve(fr, in)
	st.spawn(c, args)
}

func (st *State) spawn(c *Closure, args []Value) {
	if st.mergeD > 0 {
		panic(mergeAbort{})
	}
	c.fn.prepare()
	g := &Gor{id: len(st.gs)}
	st.gs = append(st.gs, g)
	saved := st.cur
	st.cur = g.id
	if c.fn.intr != nil || c.fn.nobody || c.fn.redirTo != nil {
		st.cur = saved
		unsupported("go statement on intrinsic %s", c.fn.name)
	}
	st.pushFrame(c.fn, c.binds, args, -1)
	st.cur = saved
}

// runnable goroutines other than the current one
func (st *State) runnable() []int {
	var out []int
	for i, g := range st.gs {
		if g.status == gRun || g.status == gBlocked && st.ready(g) {
			out = append(out, i)
		}
	}
	return out
}

// ready: a blocked goroutine whose wait can be satisfied by re-execution.
func (st *State) ready(g *Gor) bool {
	switch g.wait.kind {
	case wLock:
		return st.lockFree(g.wait.p)
	case wRLock:
		return st.obj(g.wait.p.obj).cells[g.wait.p.off] == Value(Int(0))
	case wWG:
		return st.obj(g.wait.p.obj).cells[g.wait.p.off] == Value(Int(0))
	case wCond:
		return g.wait.woken
	}
	return false
}

func (st *State) lockFree(p Ptr) bool {
	c := st.obj(p.obj).cells
	if c[p.off] != Value(Int(0)) {
		return false
	}
	// RWMutex: readers are counted in the next cell
	return c[p.off+1] == Value(Int(0))
}

// block suspends the current goroutine; it re-executes its instruction when ready.
func (st *State) block(w Wait) {
	if st.mergeD > 0 {
		panic(mergeAbort{})
	}
	if st.w.initMode {
		unsupported("blocking in init")
	}
	g := st.g()
	st.top().pc--
	g.status = gBlocked
	g.wait = w
	st.waitSeq++
	g.seq = st.waitSeq
}

func (st *State) schedule() {
	cands := st.runnable()
	if len(cands) == 0 {
		if st.fireTimer() {
			return
		}
		st.end("deadlock", "all goroutines are asleep:\n"+st.allStacks())
		return
	}
	k := 0
	if len(cands) > 1 && st.w.ex.cfg.SchedChoices {
		// fork over which goroutine runs next; there is no current instruction,
		// so the choice is made without re-execution
		k = st.schedChoice(len(cands))
	} else if len(cands) > 1 {
		// round robin, with up to Preempt deviations
		for i, c := range cands {
			if c > st.cur {
				k = i
				break
			}
		}
		if cfg := st.w.ex.cfg; st.preempts < cfg.Preempt && st.mergeD == 0 && !st.w.initMode {
			k = st.schedDelay(cands, k)
		}
	}
	st.cur = cands[k]
	g := st.gs[st.cur]
	g.status = gRun
	g.wait = Wait{}
	g.passed = true
}

// schedChoice forks one state per candidate (an n-way choice variable fixed to
// each of its values).
func (st *State) schedChoice(n int) int {
	t := st.inVar(8)
	st.declare(t, 0, uint64(n-1))
	st.inputs = append(st.inputs, Input{Kind: "choice", Label: "sched", t: t})
	cands := st.runnable()
	for i := 1; i < n; i++ {
		c := st.clone()
		c.setModel(Model{t: uint64(i)})
		c.addPC(tEq(t, tConst(uint64(i), 8)))
		c.cur = cands[i]
		g := c.gs[c.cur]
		g.status = gRun
		g.wait = Wait{}
		g.passed = true
		st.w.push(c)
	}
	st.addPC(tEq(t, tConst(0, 8)))
	return 0
}

// schedDelay continues with the default candidate here and, in forked states,
// with each other one at the price of one preemption.
func (st *State) schedDelay(cands []int, def int) int {
	n := len(cands)
	t := st.inVar(8)
	st.declare(t, 0, uint64(n-1))
	st.inputs = append(st.inputs, Input{Kind: "choice", Label: "sched", t: t})
	for i := 1; i < n; i++ {
		c := st.clone()
		c.setModel(Model{t: uint64(i)})
		c.addPC(tEq(t, tConst(uint64(i), 8)))
		c.preempts++
		c.cur = cands[(def+i)%n]
		g := c.gs[c.cur]
		g.status = gRun
		g.wait = Wait{}
		g.passed = true
		st.w.push(c)
	}
	st.addPC(tEq(t, tConst(0, 8)))
	return def
}

// schedPoint offers a preemption before a visible operation; true when the
// current goroutine was switched out (the instruction will be re-executed).
func (st *State) schedPoint() bool {
	cfg := st.w.ex.cfg
	g := st.g()
	if g.passed {
		g.passed = false
		return false
	}
	if st.mergeD > 0 || st.w.initMode || st.preempts >= cfg.Preempt {
		return false
	}
	var cands []int
	for _, c := range st.runnable() {
		if c != st.cur {
			cands = append(cands, c)
		}
	}
	timers := cfg.AsyncTimers && st.nextTimer() != nil
	n := len(cands) + 1
	if timers {
		n++
	}
	if n == 1 {
		return false
	}
	k := st.choice("preempt", n)
	if k == 0 {
		return false
	}
	st.preempts++
	st.top().pc--
	if k <= len(cands) {
		st.cur = cands[k-1]
		h := st.gs[st.cur]
		h.status = gRun
		h.wait = Wait{}
		h.passed = true
		return true
	}
	st.fireTimer()
	return true
}

func (st *State) nextTimer() *Timer {
	var best *Timer
	for _, t := range st.timers {
		if t.live && (best == nil || t.when < best.when) {
			best = t
		}
	}
	return best
}

// fireTimer advances the virtual clock to the earliest timer and fires it.
func (st *State) fireTimer() bool {
	t := st.nextTimer()
	if t == nil {
		return false
	}
	if st.w.ex.cfg.MaxTimers > 0 {
		st.nChoice++
		if st.nChoice > st.w.ex.cfg.MaxTimers {
			st.end("bound", "timer firings exceed the bound")
			return true
		}
	}
	if st.clock < t.when {
		st.clock = t.when
	}
	if t.period > 0 {
		t.when += t.period
	} else {
		t.live = false
	}
	switch {
	case t.fn != nil:
		st.spawn(t.fn, nil)
	case t.ch != 0:
		st.trySend(t.ch, st.timeValue())
	case t.g >= 0:
		g := st.gs[t.g]
		if g.wait.kind == wSleep && g.wait.timer == t.id {
			g.status = gRun
			g.wait = Wait{}
			f := st.frameOf(g)
			f.pc++ // past the Sleep call
			g.passed = false
		}
	}
	return true
}

// ---------------------------------------------------------------------------
// channels
// ---------------------------------------------------------------------------

// waiter finds the longest-waiting goroutine with a matching case.
func (st *State) waiter(ch ChanRef, send bool) (*Gor, int) {
	var best *Gor
	bi := -1
	for _, g := range st.gs {
		if g.status != gBlocked || g.wait.kind != wChan {
			continue
		}
		for i, c := range g.wait.cases {
			if c.ch == ch && c.send == send {
				if best == nil || g.seq < best.seq {
					best, bi = g, i
				}
				break
			}
		}
	}
	return best, bi
}

// complete finishes the blocked operation of g with its case ci.
func (st *State) complete(g *Gor, ci int, v Value, ok bool) {
	f := st.frameOf(g)
	in := f.fn.blocks[f.blk].instrs[f.pc]
	f.pc++
	c := g.wait.cases[ci]
	g.status = gRun
	switch in.op {
	case iRecv:
		if in.flag {
			f.env[in.dst] = Tuple{v, ok}
		} else {
			f.env[in.dst] = v
		}
	case iSelect:
		f.env[in.dst] = st.selectResult(in, c.idx, v, ok)
	case iSend:
	}
	g.wait = Wait{}
}

func (st *State) selElem(in *Instr, k int) *TInfo {
	return tinfo(in.in.(*ssa.Select).States[k].Chan.Type()).elem()
}

func (st *State) selectResult(in *Instr, idx int, v Value, ok bool) Value {
	t := Tuple{Int(uint64(int64(idx))), ok}
	for i, s := range in.sel {
		if s.send {
			continue
		}
		if i == idx && v != nil {
			t = append(t, v)
		} else {
			t = append(t, st.selElem(in, i).zero)
		}
	}
	return t
}

// recvReady: value, ok, ready
func (st *State) canRecv(ch ChanRef) bool {
	c := st.obj(int32(ch)).c
	if len(c.buf) > 0 || c.closed {
		return true
	}
	g, _ := st.waiter(ch, true)
	return g != nil
}
func (st *State) canSend(ch ChanRef) bool {
	c := st.obj(int32(ch)).c
	if c.closed || len(c.buf) < c.cap {
		return true
	}
	g, _ := st.waiter(ch, false)
	return g != nil
}

func (st *State) doRecv(ch ChanRef, et *TInfo) (Value, bool) {
	c := st.wobj(int32(ch)).c
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = append([]Value(nil), c.buf[1:]...)
		if g, i := st.waiter(ch, true); g != nil {
			c.buf = append(c.buf, g.wait.cases[i].val)
			st.complete(g, i, nil, false)
		}
		return v, true
	}
	if g, i := st.waiter(ch, true); g != nil && !c.closed {
		v := g.wait.cases[i].val
		st.complete(g, i, nil, false)
		return v, true
	}
	return et.zero, false // closed
}

func (st *State) doSend(ch ChanRef, v Value) {
	c := st.wobj(int32(ch)).c
	if c.closed {
		panic(goPanic{Iface{rtErrTI, "send on closed channel"}})
	}
	if g, i := st.waiter(ch, false); g != nil {
		st.complete(g, i, v, true)
		return
	}
	c.buf = append(c.buf, v)
}

func (st *State) trySend(ch ChanRef, v Value) bool {
	if !st.canSend(ch) {
		return false
	}
	st.doSend(ch, v)
	return true
}

func (st *State) closeChan(fr *Frame, ch ChanRef) Value {
	if ch == 0 {
		panic(goPanic{Iface{rtErrTI, "close of nil channel"}})
	}
	c := st.wobj(int32(ch)).c
	if c.closed {
		panic(goPanic{Iface{rtErrTI, "close of closed channel"}})
	}
	c.closed = true
	for {
		g, i := st.waiter(ch, false)
		if g == nil {
			break
		}
		st.complete(g, i, st.zeroOfRecv(g), false)
	}
	// blocked senders panic when re-executed
	for _, g := range st.gs {
		if g.status == gBlocked && g.wait.kind == wChan {
			for _, k := range g.wait.cases {
				if k.ch == ch && k.send {
					g.status = gRun
					g.wait = Wait{}
					break
				}
			}
		}
	}
	return nil
}

func (st *State) zeroOfRecv(g *Gor) Value {
	f := g.frames[len(g.frames)-1]
	in := f.fn.blocks[f.blk].instrs[f.pc]
	if in.op == iRecv {
		return in.ti2.zero
	}
	return nil
}

func (st *State) execSend(fr *Frame, in *Instr) {
	if st.schedPoint() {
		return
	}
	ch := fr.get(&in.a).(ChanRef)
	v := fr.get(&in.b)
	if ch == 0 {
		st.block(Wait{kind: wForever})
		return
	}
	if st.canSend(ch) {
		st.doSend(ch, v)
		return
	}
	st.block(Wait{kind: wChan, cases: []WaitCase{{ch, true, v, 0}}})
}

func (st *State) execRecv(fr *Frame, in *Instr) {
	if st.schedPoint() {
		return
	}
	ch := fr.get(&in.a).(ChanRef)
	if ch == 0 {
		st.block(Wait{kind: wForever})
		return
	}
	if st.canRecv(ch) {
		v, ok := st.doRecv(ch, in.ti2)
		if in.flag {
			fr.env[in.dst] = Tuple{v, ok}
		} else {
			fr.env[in.dst] = v
		}
		return
	}
	st.block(Wait{kind: wChan, cases: []WaitCase{{ch, false, nil, 0}}})
}

func (st *State) execSelect(fr *Frame, in *Instr) {
	if st.schedPoint() {
		return
	}
	var readyIdx []int
	for i := range in.sel {
		s := &in.sel[i]
		ch := fr.get(&s.ch).(ChanRef)
		if ch == 0 {
			continue
		}
		if s.send && st.canSend(ch) || !s.send && st.canRecv(ch) {
			readyIdx = append(readyIdx, i)
		}
	}
	if len(readyIdx) > 0 {
		k := readyIdx[0]
		if len(readyIdx) > 1 {
			k = readyIdx[st.choice("select", len(readyIdx))]
		}
		s := &in.sel[k]
		ch := fr.get(&s.ch).(ChanRef)
		if s.send {
			st.doSend(ch, fr.get(&s.val))
			fr.env[in.dst] = st.selectResult(in, k, nil, false)
			return
		}
		v, ok := st.doRecv(ch, st.selElem(in, k))
		fr.env[in.dst] = st.selectResult(in, k, v, ok)
		return
	}
	if !in.flag {
		fr.env[in.dst] = st.selectResult(in, -1, nil, false)
		return
	}
	var cases []WaitCase
	for i := range in.sel {
		s := &in.sel[i]
		ch := fr.get(&s.ch).(ChanRef)
		if ch == 0 {
			continue
		}
		var v Value
		if s.send {
			v = fr.get(&s.val)
		}
		cases = append(cases, WaitCase{ch, s.send, v, i})
	}
	if len(cases) == 0 {
		st.block(Wait{kind: wForever})
		return
	}
	st.block(Wait{kind: wChan, cases: cases, sel: true})
}
