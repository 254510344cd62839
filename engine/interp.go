package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"os"
	"strings"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type engineError struct{ msg string }

func unsupported(f string, a ...any) { panic(engineError{fmt.Sprintf(f, a...)}) }

type pathEnd struct{}

// goPanic raises a Go panic in the interpreted program.
type goPanic struct{ v Iface }

func rtErr(f string, a ...any) goPanic {
	return goPanic{Iface{rtErrTI, fmt.Sprintf(f, a...)}}
}

var rtErrTI *TInfo

func (f *Frame) get(o *Opd) Value {
	if o.reg >= 0 {
		return f.env[o.reg]
	}
	return o.c
}

// run executes st until its path ends or it is suspended.
func (w *Worker) run(st *State) {
	st.w = w
	for !st.ended {
		w.runSome(st)
	}
}

func (w *Worker) runSome(st *State) {
	defer func() {
		if r := recover(); r != nil {
			if w.initMode && w.initSkip(st, r) {
				return
			}
			switch x := r.(type) {
			case goPanic:
				st.startPanic(x.v)
			case pathEnd:
				st.ended = true
			case engineError:
				st.end("unsupported", x.msg+"\n"+st.stackTrace())
			case mergeAbort:
				if st.mergeD == 0 {
					panic(r)
				}
				st.ended = true
				st.endKind = "mergeabort"
			default:
				if debugPanics {
					panic(r)
				}
				st.end("unsupported", fmt.Sprintf("internal error: %v\n%s", r, st.stackTrace()))
			}
		}
	}()
	for !st.ended {
		g := st.gs[st.cur]
		if g.status != gRun {
			st.schedule()
			continue
		}
		fr := st.top()
		if fr.panicking || fr.recovered {
			st.unwind(fr)
			continue
		}
		st.steps++
		if st.steps&1023 == 0 {
			w.checkBudget(st)
			if st.ended {
				return
			}
		}
		blk := fr.fn.blocks[fr.blk]
		in := blk.instrs[fr.pc]
		fr.pc++
		st.exec(fr, in)
	}
}

// initSkip abandons one initialiser expression the engine cannot run (mostly
// reflection in the standard library): the value stays zero.
func (w *Worker) initSkip(st *State, r any) bool {
	if debugPanics {
		fmt.Fprintln(os.Stderr, "init skip:", r, st.stackTrace())
	}
	g := st.gs[st.cur]
	for i := len(g.frames) - 1; i >= 0; i-- {
		f := g.frames[i].fn.f
		if f.Synthetic == "package initializer" && f.Pkg != nil {
			if strings.Contains(f.Pkg.Pkg.Path(), "phoenix") {
				return false
			}
			if i == len(g.frames)-1 {
				// the initialiser's own instruction: skip it
				w.ex.noteExtern("init instruction of " + f.Pkg.Pkg.Path())
				return true
			}
			w.ex.noteExtern("init expression of " + f.Pkg.Pkg.Path())
			callee := g.frames[i+1]
			g.frames = g.frames[:i+1]
			fr := st.top()
			if callee.dst >= 0 {
				fr.env[callee.dst] = callee.fn.zeroResult()
			}
			return true
		}
	}
	return false
}

func (st *State) end(kind, msg string) {
	st.ended = true
	st.endKind = kind
	st.endMsg = msg
}

func (st *State) jump(fr *Frame, to int) {
	from := fr.blk
	fr.prev = from
	fr.blk = to
	fr.pc = 0
	b := fr.fn.blocks[to]
	if len(b.phis) > 0 {
		e := 0
		for i, p := range b.preds {
			if p == from {
				e = i
				break
			}
		}
		if len(b.phis) == 1 {
			p := b.phis[0]
			fr.env[p.dst] = fr.get(&p.args[e])
			return
		}
		var tmp [16]Value
		vs := tmp[:0]
		for _, p := range b.phis {
			vs = append(vs, fr.get(&p.args[e]))
		}
		for i, p := range b.phis {
			fr.env[p.dst] = vs[i]
		}
	}
}

func (st *State) exec(fr *Frame, in *Instr) {
	switch in.op {
	case iAlloc:
		fr.env[in.dst] = Ptr{st.allocZero(in.ti), 0}
	case iBinOp:
		fr.env[in.dst] = st.binop(in, fr.get(&in.a), fr.get(&in.b))
	case iUnNot:
		switch x := fr.get(&in.a).(type) {
		case bool:
			fr.env[in.dst] = !x
		case *Term:
			fr.env[in.dst] = tNot(x)
		}
	case iUnNeg:
		switch x := fr.get(&in.a).(type) {
		case Int:
			fr.env[in.dst] = Int(-uint64(x) & mask(in.ti.w))
		case float64:
			fr.env[in.dst] = -x
		case float32:
			fr.env[in.dst] = -x
		case complex128:
			fr.env[in.dst] = -x
		case *Term:
			if x.w == wF64 {
				fr.env[in.dst] = mk(OFNeg, wF64, 0, x, nil, nil)
			} else {
				fr.env[in.dst] = fromTerm(tNeg(x))
			}
		}
	case iUnCompl:
		switch x := fr.get(&in.a).(type) {
		case Int:
			fr.env[in.dst] = Int(^uint64(x) & mask(in.ti.w))
		case *Term:
			fr.env[in.dst] = tBNot(x)
		}
	case iLoad:
		switch p := fr.get(&in.a).(type) {
		case Ptr:
			if p.obj == 0 {
				panic(rtErr("invalid memory address or nil pointer dereference"))
			}
			fr.env[in.dst] = st.load(p, in.ti)
		case SymPtr:
			fr.env[in.dst] = st.loadSym(p, in.ti)
		default:
			unsupported("load through %T", p)
		}
	case iStore:
		v := fr.get(&in.b)
		switch p := fr.get(&in.a).(type) {
		case Ptr:
			if p.obj == 0 {
				panic(rtErr("invalid memory address or nil pointer dereference"))
			}
			st.store(p, in.ti, v)
		case SymPtr:
			i := st.concretize(p.idx)
			st.store(Ptr{p.obj, p.base + int32(i)*p.stride}, in.ti, v)
		default:
			unsupported("store through %T", p)
		}
	case iCall:
		st.call(fr, in)
	case iGo:
		st.goStmt(fr, in)
	case iDefer:
		st.deferStmt(fr, in)
	case iRunDefers:
		if fr.defers != nil {
			d := fr.defers
			fr.defers = d.next
			fr.pc--
			st.runDeferred(d)
		}
	case iReturn:
		var r Value
		switch len(in.args) {
		case 0:
		case 1:
			r = fr.get(&in.args[0])
		default:
			t := make(Tuple, len(in.args))
			for i := range in.args {
				t[i] = fr.get(&in.args[i])
			}
			r = t
		}
		st.ret(fr, r)
	case iJump:
		st.jump(fr, fr.fn.blocks[fr.blk].succs[0])
	case iIf:
		st.execIf(fr, in)
	case iPanic:
		v := fr.get(&in.a).(Iface)
		if v.t == nil {
			panic(rtErr("panic called with nil argument (use GODEBUG=panicnil=1 to disable)"))
		}
		panic(goPanic{v})
	case iFieldAddr:
		switch p := fr.get(&in.a).(type) {
		case Ptr:
			if p.obj == 0 {
				panic(rtErr("invalid memory address or nil pointer dereference"))
			}
			fr.env[in.dst] = Ptr{p.obj, p.off + in.n}
		case SymPtr:
			p.base += in.n
			fr.env[in.dst] = p
		default:
			unsupported("fieldaddr through %T", p)
		}
	case iField:
		fr.env[in.dst] = sub(fr.get(&in.a).(Agg), in.n, in.ti)
	case iIndexAddr:
		st.indexAddr(fr, in)
	case iIndex:
		st.index(fr, in, fr.get(&in.a), fr.get(&in.b))
	case iLookup:
		st.lookup(fr, in)
	case iMapUpdate:
		st.mapUpdate(fr.get(&in.a).(MapRef), fr.get(&in.b), fr.get(&in.c), in.ti)
	case iSlice:
		st.slice(fr, in)
	case iSliceToArrayPtr:
		s := fr.get(&in.a).(Slice)
		if s.len < in.n {
			panic(rtErr("cannot convert slice with length %d to array or pointer to array with length %d", s.len, in.n))
		}
		fr.env[in.dst] = Ptr{s.obj, s.off}
	case iMakeSlice:
		st.makeSlice(fr, in)
	case iMakeMap:
		fr.env[in.dst] = st.newMap()
	case iMakeChan:
		n := st.concInt(fr.get(&in.a), tiInt)
		fr.env[in.dst] = ChanRef(st.newObj(&Obj{c: &ChanData{cap: int(n)}}))
	case iMakeClosure:
		b := make([]Value, len(in.args))
		for i := range in.args {
			b[i] = fr.get(&in.args[i])
		}
		fr.env[in.dst] = &Closure{fn: in.callee, binds: b}
	case iMakeInterface:
		fr.env[in.dst] = Iface{in.ti, fr.get(&in.a)}
	case iChangeInterface:
		fr.env[in.dst] = fr.get(&in.a)
	case iConvert:
		st.convert(fr, in)
	case iTypeAssert:
		st.typeAssert(fr, in)
	case iExtract:
		fr.env[in.dst] = fr.get(&in.a).(Tuple)[in.n]
	case iRange:
		st.rangeInit(fr, in)
	case iNext:
		st.next(fr, in)
	case iSend:
		st.execSend(fr, in)
	case iRecv:
		st.execRecv(fr, in)
	case iSelect:
		st.execSelect(fr, in)
	default:
		unsupported("instruction %T %v", in.in, in.in)
	}
}

var tiInt, tiString, tiByte, tiError, tiBool, tiRune, tiF64 *TInfo

func initBasicTypes() {
	tiInt = tinfo(types.Typ[types.Int])
	tiString = tinfo(types.Typ[types.String])
	tiByte = tinfo(types.Typ[types.Uint8])
	tiBool = tinfo(types.Typ[types.Bool])
	tiRune = tinfo(types.Typ[types.Int32])
	tiF64 = tinfo(types.Typ[types.Float64])
	tiError = tinfo(types.Universe.Lookup("error").Type())
}

// ---------------------------------------------------------------------------
// calls
// ---------------------------------------------------------------------------

func (st *State) resolve(fr *Frame, in *Instr) (*Closure, []Value) {
	n := len(in.args)
	if in.method != nil {
		recv := fr.get(&in.a).(Iface)
		if recv.t == nil {
			panic(rtErr("invalid memory address or nil pointer dereference"))
		}
		args := make([]Value, 0, n+1)
		args = append(args, recv.v)
		for i := range in.args {
			args = append(args, fr.get(&in.args[i]))
		}
		return &Closure{fn: findMethod(recv.t, in.method)}, args
	}
	args := make([]Value, n)
	for i := range in.args {
		args[i] = fr.get(&in.args[i])
	}
	if in.callee != nil {
		return &Closure{fn: in.callee}, args
	}
	c, _ := fr.get(&in.a).(*Closure)
	if c == nil {
		panic(rtErr("invalid memory address or nil pointer dereference"))
	}
	return c, args
}

func findMethod(t *TInfo, m *types.Func) *Fn {
	key := m.Id()
	t.mu.Lock()
	defer t.mu.Unlock()
	if f, ok := t.mcache[key]; ok {
		return f
	}
	buildMu.Lock()
	f := prog.LookupMethod(t.t, m.Pkg(), m.Name())
	buildMu.Unlock()
	if f == nil {
		unsupported("no method %s on %s", m.Name(), t)
	}
	fn := getFn(f)
	if t.mcache == nil {
		t.mcache = map[string]*Fn{}
	}
	t.mcache[key] = fn
	return fn
}

func (st *State) call(fr *Frame, in *Instr) {
	if in.builtin != nil {
		st.builtin(fr, in)
		return
	}
	if in.callee != nil && len(in.args) <= 8 {
		var tmp [8]Value
		args := tmp[:len(in.args)]
		for i := range in.args {
			args[i] = fr.get(&in.args[i])
		}
		st.invoke(fr, in, in.callee, nil, args, in.dst)
		return
	}
	c, args := st.resolve(fr, in)
	if c.nat != nil {
		unsupported("builtin value call")
	}
	st.invoke(fr, in, c.fn, c.binds, args, in.dst)
}

type pendingT struct{}

var pending Value = pendingT{}

// invoke calls fn from frame fr; the result goes to register dst of fr.
func (st *State) invoke(fr *Frame, in *Instr, fn *Fn, binds []Value, args []Value, dst int32) {
	if st.w.initMode && fn.f.Name() == "init" && fn.f.Synthetic == "package initializer" && fn.f.Pkg != nil && initDenied(fn.f.Pkg.Pkg.Path()) {
		return
	}
	fn.prepare()
	if fn.redirTo != nil && fn.redirTo != fr.fn {
		fn = fn.redirTo
		fn.prepare()
		if fn.intr != nil {
			goto intr
		}
		st.pushFrame(fn, binds, args, dst)
		return
	}
intr:
	if fn.intr != nil {
		cp := make([]Value, len(args))
		copy(cp, args)
		v := fn.intr(st, fr, in, cp)
		if v == pending {
			return
		}
		if v != (fallthroughT{}) {
			if dst >= 0 {
				fr.env[dst] = v
			}
			return
		}
	}
	if fn.nobody {
		if st.w.initMode {
			st.w.ex.noteExtern(fn.name)
			if dst >= 0 {
				fr.env[dst] = fn.zeroResult()
			}
			return
		}
		unsupported("call of external function %s", fn.name)
	}
	if dst >= 0 && st.w.ex.cfg.Merge > 1 && st.tryMerge(fr, in, fn, binds, args, dst) {
		return
	}
	st.pushFrame(fn, binds, args, dst)
}

type fallthroughT struct{}

func (fn *Fn) zeroResult() Value {
	switch len(fn.resTI) {
	case 0:
		return nil
	case 1:
		return fn.resTI[0].zero
	}
	t := Tuple{}
	for _, r := range fn.resTI {
		t = append(t, r.zero)
	}
	return t
}

func (st *State) pushFrame(fn *Fn, binds []Value, args []Value, dst int32) *Frame {
	g := st.gs[st.cur]
	if len(g.frames) > 2000 {
		st.end("steps", "call stack deeper than 2000 frames\n"+st.stackTrace())
		panic(pathEnd{})
	}
	if fn.blocks == nil {
		fn.prepare()
		if fn.blocks == nil {
			unsupported("no body: %s", fn.name)
		}
	}
	atomic.AddInt64(&fn.hits, 1)
	env := make([]Value, fn.nreg)
	copy(env, args)
	copy(env[fn.params:], binds)
	f := &Frame{owner: st.tok, fn: fn, env: env, dst: dst, prev: -1}
	g.frames = append(g.frames, f)
	return f
}

// callClosure pushes a call to a closure whose result is handed to onRet.
func (st *State) callClosure(c *Closure, args []Value, dst int32, onRet func(st *State, r Value) Value) {
	c.fn.prepare()
	f := st.pushFrame(c.fn, c.binds, args, dst)
	f.onRet = onRet
}

func (st *State) ret(fr *Frame, r Value) {
	g := st.gs[st.cur]
	g.frames = g.frames[:len(g.frames)-1]
	if fr.barrier {
		st.subRet = r
		st.ended = true
		st.endKind = "subret"
		return
	}
	if len(g.frames) == 0 {
		st.gorExit(g)
		return
	}
	caller := st.top()
	if fr.onRet != nil {
		r = fr.onRet(st, r)
		caller = st.top()
	}
	if fr.dst >= 0 && !fr.discard {
		caller.env[fr.dst] = r
	}
}

func (st *State) gorExit(g *Gor) {
	g.status = gDone
	if g.id == 0 {
		st.end("ok", "")
		return
	}
}

func (st *State) deferStmt(fr *Frame, in *Instr) {
	d := &deferRec{next: fr.defers}
	if in.builtin != nil {
		d.nat = in
		for i := range in.args {
			d.args = append(d.args, fr.get(&in.args[i]))
		}
	} else {
		d.fn, d.args = st.resolve(fr, in)
	}
	fr.defers = d
}

func (st *State) runDeferred(d *deferRec) {
	if d.nat != nil {
		st.builtinCall(st.top(), d.nat, d.nat.builtin.Name(), d.args)
		return
	}
	fn := d.fn.fn
	fn.prepare()
	if fn.intr != nil {
		fr := st.top()
		v := fn.intr(st, fr, nil, append([]Value(nil), d.args...))
		if v == pending {
			// a deferred blocking intrinsic: only frame pushes are allowed here
			st.top().discard = true
			return
		}
		if v != (fallthroughT{}) {
			return
		}
	}
	if fn.redirTo != nil {
		fn = fn.redirTo
	}
	if fn.nobody {
		if st.w.initMode {
			return
		}
		unsupported("deferred call of external %s", fn.name)
	}
	f := st.pushFrame(fn, d.fn.binds, d.args, -1)
	f.isDefer = true
	f.discard = true
}

func (st *State) startPanic(v Iface) {
	g := st.gs[st.cur]
	if len(g.frames) == 0 {
		st.end("panic", "panic outside a frame")
		return
	}
	if st.mergeD > 0 {
		st.ended = true
		st.endKind = "mergeabort"
		return
	}
	st.panics++
	fr := st.top()
	if st.w.initMode {
		fmt.Println("panic in init:", st.panicString(v), st.stackTrace())
	}
	if st.trace == nil {
		st.trace = []string{st.panicString(v) + "\n" + st.stackTrace()}
	} else {
		st.trace = append(st.trace[:len(st.trace):len(st.trace)], st.panicString(v)+"\n"+st.stackTrace())
	}
	fr.panicking = true
	fr.recovered = false
	fr.panicVal = v
}

func (st *State) panicString(v Iface) string {
	if v.t == nil {
		return "nil"
	}
	switch x := v.v.(type) {
	case string:
		return x
	case *SymStr:
		b := make([]byte, len(x.b))
		for i, y := range x.b {
			b[i] = byte(st.model.eval(asTerm(y, 8)))
		}
		return string(b)
	}
	if p, ok := v.v.(Ptr); ok && p.obj != 0 {
		if s, ok := st.obj(p.obj).cells[p.off].(string); ok {
			return v.t.String() + ": " + s
		}
	}
	return fmt.Sprintf("%s(%v)", v.t, v.v)
}

// unwind advances a frame that is panicking, or that recovered.
func (st *State) unwind(fr *Frame) {
	if fr.defers != nil {
		d := fr.defers
		fr.defers = d.next
		st.runDeferred(d)
		return
	}
	if fr.recovered {
		fr.recovered = false
		fr.panicking = false
		if fr.fn.recov >= 0 {
			fr.blk = fr.fn.recov
			fr.pc = 0
			return
		}
		st.ret(fr, fr.fn.zeroResult())
		return
	}
	g := st.gs[st.cur]
	v := fr.panicVal
	g.frames = g.frames[:len(g.frames)-1]
	if fr.barrier {
		st.ended = true
		st.endKind = "mergeabort"
		return
	}
	if len(g.frames) == 0 {
		tr := ""
		if len(st.trace) > 0 {
			tr = st.trace[len(st.trace)-1]
		}
		st.end("panic", "uncaught panic: "+st.panicString(v)+"\n"+tr)
		return
	}
	p := st.top()
	p.panicking = true
	p.recovered = false
	p.panicVal = v
}

func (st *State) doRecover(fr *Frame) Value {
	g := st.gs[st.cur]
	n := len(g.frames)
	if !fr.isDefer || n < 2 {
		return Iface{}
	}
	p := st.frameAt(n - 2)
	if !p.panicking {
		return Iface{}
	}
	v := p.panicVal
	p.panicking = false
	p.recovered = true
	p.panicVal = Iface{}
	return v
}

// ---------------------------------------------------------------------------
// operators
// ---------------------------------------------------------------------------

func (st *State) binop(in *Instr, a, b Value) Value {
	ti := in.ti
	switch in.tok {
	case token.EQL, token.NEQ:
		v, e := valEq(a, b, ti)
		if e != "" {
			panic(rtErr("%s", e))
		}
		if in.tok == token.NEQ {
			switch x := v.(type) {
			case bool:
				return !x
			case *Term:
				return fromTerm(tNot(x))
			}
		}
		return v
	}
	switch ti.kind {
	case KInt:
		x, ok1 := a.(Int)
		y, ok2 := b.(Int)
		if ok1 && ok2 {
			return intOp(in, uint64(x), uint64(y))
		}
		return st.symIntOp(in, a, b)
	case KF64:
		x, ok1 := a.(float64)
		y, ok2 := b.(float64)
		if ok1 && ok2 {
			switch in.tok {
			case token.ADD:
				return x + y
			case token.SUB:
				return x - y
			case token.MUL:
				return x * y
			case token.QUO:
				return x / y
			case token.LSS:
				return x < y
			case token.LEQ:
				return x <= y
			case token.GTR:
				return x > y
			case token.GEQ:
				return x >= y
			}
		}
		s, t := asTerm(a, wF64), asTerm(b, wF64)
		switch in.tok {
		case token.ADD:
			return fromTerm(tFBin(OFAdd, s, t))
		case token.SUB:
			return fromTerm(tFBin(OFSub, s, t))
		case token.MUL:
			return fromTerm(tFBin(OFMul, s, t))
		case token.QUO:
			return fromTerm(tFBin(OFDiv, s, t))
		case token.LSS:
			return fromTerm(tFCmp(OFLt, s, t))
		case token.LEQ:
			return fromTerm(tFCmp(OFLe, s, t))
		case token.GTR:
			return fromTerm(tFCmp(OFLt, t, s))
		case token.GEQ:
			return fromTerm(tFCmp(OFLe, t, s))
		}
	case KF32:
		x, y := a.(float32), b.(float32)
		switch in.tok {
		case token.ADD:
			return x + y
		case token.SUB:
			return x - y
		case token.MUL:
			return x * y
		case token.QUO:
			return x / y
		case token.LSS:
			return x < y
		case token.LEQ:
			return x <= y
		case token.GTR:
			return x > y
		case token.GEQ:
			return x >= y
		}
	case KC128:
		x, y := a.(complex128), b.(complex128)
		switch in.tok {
		case token.ADD:
			return x + y
		case token.SUB:
			return x - y
		case token.MUL:
			return x * y
		case token.QUO:
			return x / y
		}
	case KStr:
		switch in.tok {
		case token.ADD:
			return strCat(a, b)
		case token.LSS:
			return strLess(a, b)
		case token.GTR:
			return strLess(b, a)
		case token.LEQ:
			return notV(strLess(b, a))
		case token.GEQ:
			return notV(strLess(a, b))
		}
	case KBool:
		// go/ssa lowers && and || to control flow; & and | on bools do not exist
	}
	unsupported("binop %v on %v", in.tok, ti)
	return nil
}

func notV(v Value) Value {
	switch x := v.(type) {
	case bool:
		return !x
	case *Term:
		return fromTerm(tNot(x))
	}
	panic("notV")
}

func intOp(in *Instr, x, y uint64) Value {
	ti := in.ti
	w := ti.w
	m := mask(w)
	switch in.tok {
	case token.ADD:
		return Int((x + y) & m)
	case token.SUB:
		return Int((x - y) & m)
	case token.MUL:
		return Int((x * y) & m)
	case token.QUO:
		if y == 0 {
			panic(rtErr("integer divide by zero"))
		}
		if ti.signed {
			v, _ := foldBin(OSDiv, x, y, w)
			return Int(v)
		}
		return Int(x / y)
	case token.REM:
		if y == 0 {
			panic(rtErr("integer divide by zero"))
		}
		if ti.signed {
			v, _ := foldBin(OSRem, x, y, w)
			return Int(v)
		}
		return Int(x % y)
	case token.AND:
		return Int(x & y)
	case token.OR:
		return Int(x | y)
	case token.XOR:
		return Int(x ^ y)
	case token.AND_NOT:
		return Int(x &^ y)
	case token.SHL, token.SHR:
		if in.ti2.signed {
			s := sext64(y, in.ti2.w)
			if s < 0 {
				panic(rtErr("negative shift amount"))
			}
		}
		if in.tok == token.SHL {
			if y >= uint64(w) {
				return Int(0)
			}
			return Int((x << y) & m)
		}
		if ti.signed {
			if y >= uint64(w) {
				y = uint64(w) - 1
			}
			return Int(uint64(sext64(x, w)>>y) & m)
		}
		if y >= uint64(w) {
			return Int(0)
		}
		return Int(x >> y)
	case token.LSS:
		if ti.signed {
			return sext64(x, w) < sext64(y, w)
		}
		return x < y
	case token.LEQ:
		if ti.signed {
			return sext64(x, w) <= sext64(y, w)
		}
		return x <= y
	case token.GTR:
		if ti.signed {
			return sext64(x, w) > sext64(y, w)
		}
		return x > y
	case token.GEQ:
		if ti.signed {
			return sext64(x, w) >= sext64(y, w)
		}
		return x >= y
	}
	unsupported("int op %v", in.tok)
	return nil
}

func (st *State) symIntOp(in *Instr, a, b Value) Value {
	ti := in.ti
	w := ti.w
	x := asTerm(a, w)
	switch in.tok {
	case token.SHL, token.SHR:
		y := asTerm(b, in.ti2.w)
		if in.ti2.signed {
			neg := tCmp(OSlt, y, tConst(0, y.w))
			if st.branch(neg) {
				panic(rtErr("negative shift amount"))
			}
		}
		// align widths
		if y.w < w {
			y = tZext(y, w)
		} else if y.w > w {
			big := tNot(tCmp(OUlt, y, tConst(uint64(w), y.w)))
			y = tIte(big, tConst(uint64(w), w), tTrunc(y, w))
		}
		switch {
		case in.tok == token.SHL:
			return fromTerm(tBin(OShl, x, y))
		case ti.signed:
			return fromTerm(tBin(OAshr, x, y))
		default:
			return fromTerm(tBin(OLshr, x, y))
		}
	}
	y := asTerm(b, w)
	lt, le := OUlt, OUle
	if ti.signed {
		lt, le = OSlt, OSle
	}
	switch in.tok {
	case token.ADD:
		return fromTerm(tBin(OAdd, x, y))
	case token.SUB:
		return fromTerm(tBin(OSub, x, y))
	case token.MUL:
		return fromTerm(tBin(OMul, x, y))
	case token.QUO, token.REM:
		if !y.isConst() {
			if st.branch(tEq(y, tConst(0, w))) {
				panic(rtErr("integer divide by zero"))
			}
		} else if y.val == 0 {
			panic(rtErr("integer divide by zero"))
		}
		op := OUDiv
		if in.tok == token.REM {
			op = OURem
		}
		if ti.signed {
			if t := fewDiv(in.tok == token.REM, x, y); t != nil {
				return fromTerm(t)
			}
			if y.isConst() && len(x.vars) >= 2 && narrowed(mk(OSDiv, w, 0, x, y, nil)) != nil {
				// left as it is: computed in few bits, or over the integers
				if op == OURem {
					return fromTerm(tBin(OSRem, x, y))
				}
				return fromTerm(tBin(OSDiv, x, y))
			}
			xl, _ := x.srange()
			yl, _ := y.srange()
			nonneg := xl >= 0 && yl > 0
			if !nonneg && yl > 0 {
				if v, ok := st.quick(tCmp(OSlt, x, tConst(0, w))); ok && !v {
					nonneg = true
				}
			}
			if nonneg {
				// both operands non-negative: unsigned division on narrowed operands
				return fromTerm(narrowDiv(op, x, y))
			}
			if op == OUDiv {
				op = OSDiv
			} else {
				op = OSRem
			}
			return fromTerm(tBin(op, x, y))
		}
		return fromTerm(narrowDiv(op, x, y))
	case token.AND:
		return fromTerm(tBin(OBAnd, x, y))
	case token.OR:
		return fromTerm(tBin(OBOr, x, y))
	case token.XOR:
		return fromTerm(tBin(OBXor, x, y))
	case token.AND_NOT:
		return fromTerm(tBin(OBAnd, x, tBNot(y)))
	case token.LSS:
		return fromTerm(tCmp(lt, x, y))
	case token.LEQ:
		return fromTerm(tCmp(le, x, y))
	case token.GTR:
		return fromTerm(tCmp(lt, y, x))
	case token.GEQ:
		return fromTerm(tCmp(le, y, x))
	}
	unsupported("symbolic int op %v", in.tok)
	return nil
}

// narrowDiv performs an unsigned division at the smallest sufficient width.
// fewDiv divides by a positive constant without a division when the quotient
// can only take a few values; nil otherwise.
func fewDiv(rem bool, x, y *Term) *Term {
	if !y.isConst() || x.isConst() || x.size > 200 {
		return nil
	}
	c := sext64(y.val, y.w)
	if c < 2 {
		return nil
	}
	l, h := x.srange()
	ql, qh := l/c, h/c
	if qh-ql > 5 || qh-ql < 0 {
		return nil
	}
	part := func(q int64) *Term {
		if !rem {
			return tConst(uint64(q)&mask(x.w), x.w)
		}
		return tBin(OSub, x, tConst(uint64(q*c)&mask(x.w), x.w))
	}
	t := part(qh)
	for q := qh - 1; q >= ql; q-- {
		// q is the quotient below the first value whose quotient is q+1
		lim := (q + 1) * c
		if q+1 <= 0 {
			lim -= c - 1 // division truncates towards zero
		}
		t = tIte(tCmp(OSlt, x, tConst(uint64(lim)&mask(x.w), x.w)), part(q), t)
	}
	return t
}

func narrowDiv(op Op, x, y *Term) *Term {
	_, xh := x.urange()
	_, yh := y.urange()
	h := max(xh, yh)
	for _, nw := range []uint8{8, 12, 16, 24, 32, 48} {
		if nw >= x.w {
			break
		}
		if h <= mask(nw) {
			return tZext(tBin(op, tTrunc(x, nw), tTrunc(y, nw)), x.w)
		}
	}
	return tBin(op, x, y)
}

// pickClass fixes which value among cells the index t picks (not which index,
// so that equal cells are one case) and returns an index of it.
func (st *State) pickClass(t *Term, cells []Value) int {
	i := int(st.model.eval(t))
	same := func(j int) bool {
		switch x := cells[i].(type) {
		case Slice:
			y, ok := cells[j].(Slice)
			return ok && x == y
		case Ptr:
			y, ok := cells[j].(Ptr)
			return ok && x == y
		case string:
			y, ok := cells[j].(string)
			return ok && x == y
		}
		return i == j
	}
	// the class as runs lo..hi
	c := tFalse
	for j := 0; j < len(cells); j++ {
		if !same(j) {
			continue
		}
		lo := j
		for j+1 < len(cells) && same(j+1) {
			j++
		}
		r := tTrue
		if lo == j {
			r = tEq(t, tConst(uint64(lo), t.w))
		} else {
			if lo > 0 {
				r = tNot(tCmp(OUlt, t, tConst(uint64(lo), t.w)))
			}
			if j+1 < len(cells) {
				r = tAnd(r, tCmp(OUlt, t, tConst(uint64(j+1), t.w)))
			}
		}
		c = tOr(c, r)
	}
	if v, ok := st.quick(c); ok && v || st.branch(c) {
		return i
	}
	panic("pickClass: model inconsistent")
}

// index bounds check; returns concrete index or a symbolic one known in range
func (st *State) checkIndex(v Value, ti *TInfo, n int) (int, *Term) {
	switch x := v.(type) {
	case Int:
		i := int64(x)
		if ti.signed {
			i = sext64(uint64(x), ti.w)
		}
		if i < 0 || i >= int64(n) {
			panic(rtErr("index out of range [%d] with length %d", i, n))
		}
		return int(i), nil
	case *Term:
		var ok *Term
		t := x
		if t.w < 64 {
			if ti.signed {
				t = tSext(t, 64)
			} else {
				t = tZext(t, 64)
			}
		}
		ok = tCmp(OUlt, t, tConst(uint64(n), 64))
		if !st.branch(ok) {
			panic(rtErr("index out of range [symbolic] with length %d", n))
		}
		if n == 1 {
			return 0, nil
		}
		return 0, t
	}
	panic("checkIndex")
}

func (st *State) indexAddr(fr *Frame, in *Instr) {
	iv := fr.get(&in.b)
	var obj, off int32
	var n int
	if in.flag {
		switch p := fr.get(&in.a).(type) {
		case Ptr:
			if p.obj == 0 {
				panic(rtErr("invalid memory address or nil pointer dereference"))
			}
			obj, off, n = p.obj, p.off, int(in.n)
		case SymPtr:
			// index within a symbolically chosen array: fix the outer index
			i := st.concretize(p.idx)
			obj, off, n = p.obj, p.base+int32(i)*p.stride, int(in.n)
		}
	} else {
		s := fr.get(&in.a).(Slice)
		obj, off, n = s.obj, s.off, int(s.len)
	}
	i, t := st.checkIndex(iv, in.ti2, n)
	if t == nil {
		fr.env[in.dst] = Ptr{obj, off + int32(i)*in.ti.size}
		return
	}
	if !st.indexMergeable(in.ti, n) {
		var i int
		if in.once && in.ti.size == 1 && n <= 4096 {
			i = st.pickClass(t, st.obj(obj).cells[off:int(off)+n])
		} else {
			i = int(st.concretize(t))
		}
		fr.env[in.dst] = Ptr{obj, off + int32(i)*in.ti.size}
		return
	}
	fr.env[in.dst] = SymPtr{obj, off, in.ti.size, int32(n), t}
}

func (st *State) indexMergeable(e *TInfo, n int) bool {
	if n > 4096 {
		return false
	}
	switch e.kind {
	case KInt, KBool, KF64:
		return true
	case KStruct, KArray:
		// scalars only
		if e.size > 16 {
			return false
		}
		var ok func(t *TInfo) bool
		ok = func(t *TInfo) bool {
			switch t.kind {
			case KInt, KBool, KF64:
				return true
			case KStruct:
				for _, f := range t.fields {
					if !ok(f.ti) {
						return false
					}
				}
				return true
			case KArray:
				return ok(t.elem_)
			}
			return false
		}
		return ok(e)
	}
	return false
}

// loadSym builds a balanced ite over the candidate cells.
func (st *State) loadSym(p SymPtr, ti *TInfo) Value {
	o := st.obj(p.obj)
	if ti.isAgg() {
		out := make(Agg, ti.size)
		for j := int32(0); j < ti.size; j++ {
			q := p
			q.base += j
			w := leafWidth(ti, j)
			out[j] = st.loadSymLeaf(o.cells, q, w)
		}
		return out
	}
	return st.loadSymLeaf(o.cells, p, leafWidth(ti, 0))
}

func leafWidth(ti *TInfo, j int32) uint8 {
	switch ti.kind {
	case KInt:
		return ti.w
	case KBool:
		return 0
	case KF64:
		return wF64
	case KStruct:
		for i := len(ti.fields) - 1; i >= 0; i-- {
			f := ti.fields[i]
			if j >= f.off && f.ti.size > 0 {
				return leafWidth(f.ti, j-f.off)
			}
		}
	case KArray:
		return leafWidth(ti.elem_, j%ti.elem_.size)
	}
	unsupported("symbolic index into %v", ti)
	return 0
}

func (st *State) loadSymLeaf(cells []Value, p SymPtr, w uint8) Value {
	vals := make([]*Term, p.count)
	for i := int32(0); i < p.count; i++ {
		vals[i] = asTerm(cells[p.base+i*p.stride], w)
	}
	return fromTerm(selectTerm(vals, p.idx))
}

// selectTerm = vals[idx], idx known < len(vals)
func selectTerm(vals []*Term, idx *Term) *Term {
	// compress runs
	var rec func(lo, hi int) *Term
	rec = func(lo, hi int) *Term {
		same := true
		for i := lo + 1; i < hi; i++ {
			if vals[i] != vals[lo] {
				same = false
				break
			}
		}
		if same {
			return vals[lo]
		}
		mid := (lo + hi) / 2
		// prefer run boundaries near the middle
		return tIte(tCmp(OUlt, idx, tConst(uint64(mid), idx.w)), rec(lo, mid), rec(mid, hi))
	}
	return rec(0, len(vals))
}

func (st *State) index(fr *Frame, in *Instr, a, iv Value) {
	if in.ti.kind == KStr {
		n := strLen(a)
		i, t := st.checkIndex(iv, in.ti2, n)
		if t == nil {
			fr.env[in.dst] = strAt(a, i)
			return
		}
		vals := make([]*Term, n)
		for j := range vals {
			vals[j] = asTerm(strAt(a, j), 8)
		}
		fr.env[in.dst] = fromTerm(selectTerm(vals, t))
		return
	}
	e := in.ti.elem_
	i, t := st.checkIndex(iv, in.ti2, int(in.ti.n))
	if t != nil {
		i = int(st.concretize(t))
	}
	fr.env[in.dst] = sub(a.(Agg), int32(i)*e.size, e)
}

// ---------------------------------------------------------------------------
// maps
// ---------------------------------------------------------------------------

func (st *State) newMap() MapRef {
	return MapRef(st.newObj(&Obj{m: &MapData{index: map[any]int{}}}))
}

// mapFind returns the entry index or -1.
func (st *State) mapFind(m *MapData, k Value, kt *TInfo) int {
	if kt.kind == KIface {
		if x := k.(Iface); x.t != nil && !types.Comparable(x.t.t) {
			panic(rtErr("hash of unhashable type %s", x.t))
		}
	}
	hk, conc := hashKey(k)
	if conc && !m.symKeys {
		if i, ok := m.index[hk]; ok {
			return i
		}
		return -1
	}
	if conc {
		if i, ok := m.index[hk]; ok && m.live[i] {
			return i
		}
	}
	for i := range m.keys {
		if !m.live[i] {
			continue
		}
		e, s := valEq(k, m.keys[i], kt)
		if s != "" {
			panic(rtErr("%s", s))
		}
		if st.branchV(e) {
			return i
		}
	}
	return -1
}

func (st *State) lookup(fr *Frame, in *Instr) {
	if in.ti.kind == KStr {
		st.index(fr, in, fr.get(&in.a), fr.get(&in.b))
		return
	}
	mt := in.ti
	m := fr.get(&in.a).(MapRef)
	et := mt.elem()
	i := -1
	var md *MapData
	if m != 0 {
		md = st.obj(int32(m)).m
		i = st.mapFind(md, fr.get(&in.b), in.ti2)
	}
	var v Value
	if i >= 0 {
		v = md.vals[i]
	} else {
		v = et.zero
	}
	if in.flag {
		fr.env[in.dst] = Tuple{v, i >= 0}
	} else {
		fr.env[in.dst] = v
	}
}

func (st *State) mapUpdate(m MapRef, k, v Value, kt *TInfo) {
	if m == 0 {
		panic(goPanic{Iface{rtErrTI, "assignment to entry in nil map"}})
	}
	i := st.mapFind(st.obj(int32(m)).m, k, kt)
	md := st.wobj(int32(m)).m
	if i >= 0 {
		md.vals[i] = v
		return
	}
	hk, conc := hashKey(k)
	if conc {
		md.index[hk] = len(md.keys)
	} else {
		md.symKeys = true
	}
	md.keys = append(md.keys, k)
	md.vals = append(md.vals, v)
	md.live = append(md.live, true)
	md.n++
}

func (st *State) mapDelete(m MapRef, k Value, kt *TInfo) {
	if m == 0 {
		return
	}
	i := st.mapFind(st.obj(int32(m)).m, k, kt)
	if i < 0 {
		return
	}
	md := st.wobj(int32(m)).m
	if hk, ok := hashKey(md.keys[i]); ok {
		delete(md.index, hk)
	}
	md.live[i] = false
	md.n--
}

type mapIter struct {
	m    MapRef
	perm []int // remaining entry indexes (nil until first Next)
	pos  int
}
type strIter struct {
	s   Value
	pos int
}

func (st *State) rangeInit(fr *Frame, in *Instr) {
	v := fr.get(&in.a)
	if in.ti.kind == KStr {
		fr.env[in.dst] = strIter{v, 0}
		return
	}
	fr.env[in.dst] = mapIter{m: v.(MapRef)}
}

func (st *State) next(fr *Frame, in *Instr) {
	x := in.in.(*ssa.Next)
	iterReg := in.a.reg
	switch it := fr.get(&in.a).(type) {
	case strIter:
		n := strLen(it.s)
		if it.pos >= n {
			fr.env[in.dst] = Tuple{false, Int(0), Int(0)}
			return
		}
		if s, ok := it.s.(string); ok {
			r, sz := decodeRune(s[it.pos:])
			fr.env[in.dst] = Tuple{true, Int(it.pos), Int(uint32(r))}
			fr.env[iterReg] = strIter{it.s, it.pos + sz}
			return
		}
		b0 := strAt(it.s, it.pos)
		ascii := false
		if c, ok := b0.(Int); ok {
			ascii = c < 0x80
		} else {
			ascii = st.branch(tCmp(OUlt, b0.(*Term), tConst(0x80, 8)))
		}
		if ascii {
			r := fromTerm(tZext(asTerm(b0, 8), 32))
			fr.env[in.dst] = Tuple{true, Int(it.pos), r}
			fr.env[iterReg] = strIter{it.s, it.pos + 1}
			return
		}
		tail := strSub(it.s, it.pos, n)
		dst, pos, s := in.dst, it.pos, it.s
		st.callClosure(&Closure{fn: decodeRuneFn()}, []Value{tail}, dst, func(st *State, r Value) Value {
			t := r.(Tuple)
			var sz int
			if c, ok := t[1].(Int); ok {
				sz = int(c)
			} else {
				sz = int(st.concretize(t[1].(*Term)))
			}
			f := st.top()
			f.env[iterReg] = strIter{s, pos + sz}
			return Tuple{true, Int(pos), t[0]}
		})
	case mapIter:
		if it.m == 0 {
			st.nextDone(fr, in, x)
			return
		}
		md := st.obj(int32(it.m)).m
		if st.w.ex.cfg.MapOrder && md.n > 1 && md.n-it.pos > 0 && md.n <= st.w.ex.cfg.MapOrderMax {
			// any iteration order: pick the next live entry symbolically
			var cand []int
			seen := map[int]bool{}
			for _, p := range it.perm {
				seen[p] = true
			}
			for i := range md.keys {
				if md.live[i] && !seen[i] {
					cand = append(cand, i)
				}
			}
			if len(cand) == 0 {
				st.nextDone(fr, in, x)
				return
			}
			c := cand[st.choice("maporder", len(cand))]
			np := append(append([]int(nil), it.perm...), c)
			fr.env[iterReg] = mapIter{it.m, np, it.pos + 1}
			fr.env[in.dst] = Tuple{true, md.keys[c], md.vals[c]}
			return
		}
		i := it.pos
		for i < len(md.keys) && !md.live[i] {
			i++
		}
		if i >= len(md.keys) {
			st.nextDone(fr, in, x)
			return
		}
		fr.env[iterReg] = mapIter{it.m, nil, i + 1}
		fr.env[in.dst] = Tuple{true, md.keys[i], md.vals[i]}
	default:
		unsupported("next on %T", it)
	}
}

func (st *State) nextDone(fr *Frame, in *Instr, x *ssa.Next) {
	tt := x.Type().(*types.Tuple)
	z := func(t types.Type) Value {
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return nil
		}
		return tinfo(t).zero
	}
	fr.env[in.dst] = Tuple{false, z(tt.At(1).Type()), z(tt.At(2).Type())}
}

// ---------------------------------------------------------------------------
// slices
// ---------------------------------------------------------------------------

func (st *State) slice(fr *Frame, in *Instr) {
	x := fr.get(&in.a)
	getI := func(k int, def int64) int64 {
		o := &in.args[k]
		if o.reg < 0 && o.c == nil {
			return def
		}
		v := fr.get(o)
		sv := in.in.(*ssa.Slice)
		var t types.Type
		switch k {
		case 0:
			t = sv.Low.Type()
		case 1:
			t = sv.High.Type()
		case 2:
			t = sv.Max.Type()
		}
		return st.concInt(v, tinfo(t))
	}
	switch in.ti.kind {
	case KStr:
		n := int64(strLen(x))
		lo, hi := getI(0, 0), getI(1, n)
		if hi < 0 || hi > n {
			panic(rtErr("slice bounds out of range [:%d] with length %d", hi, n))
		}
		if lo < 0 || lo > hi {
			panic(rtErr("slice bounds out of range [%d:%d]", lo, hi))
		}
		fr.env[in.dst] = strSub(x, int(lo), int(hi))
	case KSlice:
		s := x.(Slice)
		e := in.ti.elem()
		lo, hi := getI(0, 0), getI(1, int64(s.len))
		mx := getI(2, int64(s.cap))
		st.slice3(fr, in, s.obj, s.off, int64(s.cap), e.size, lo, hi, mx, in.args[2].reg >= 0 || in.args[2].c != nil)
	case KPtr:
		p, ok := x.(Ptr)
		if !ok {
			sp := x.(SymPtr)
			p = Ptr{sp.obj, sp.base + int32(st.concretize(sp.idx))*sp.stride}
		}
		if p.obj == 0 {
			panic(rtErr("invalid memory address or nil pointer dereference"))
		}
		at := in.ti.elem()
		lo, hi := getI(0, 0), getI(1, at.n)
		mx := getI(2, at.n)
		st.slice3(fr, in, p.obj, p.off, at.n, at.elem_.size, lo, hi, mx, in.args[2].reg >= 0 || in.args[2].c != nil)
	default:
		unsupported("slice of %v", in.ti)
	}
}

func (st *State) slice3(fr *Frame, in *Instr, obj, off int32, capn int64, esz int32, lo, hi, mx int64, three bool) {
	if mx < 0 || mx > capn {
		panic(rtErr("slice bounds out of range [::%d] with capacity %d", mx, capn))
	}
	if hi < 0 || hi > mx {
		panic(rtErr("slice bounds out of range [:%d] with capacity %d", hi, mx))
	}
	if lo < 0 || lo > hi {
		panic(rtErr("slice bounds out of range [%d:%d]", lo, hi))
	}
	if obj == 0 {
		fr.env[in.dst] = Slice{}
		return
	}
	fr.env[in.dst] = Slice{obj, off + int32(lo)*esz, int32(hi - lo), int32(mx - lo)}
}

func (st *State) makeSlice(fr *Frame, in *Instr) {
	lv, cv := fr.get(&in.a), fr.get(&in.b)
	n := st.concInt(lv, tiInt)
	c := st.concInt(cv, tiInt)
	if n < 0 || n > 1<<24 {
		panic(goPanic{Iface{rtErrTI, "makeslice: len out of range"}})
	}
	if c < n || c > 1<<24 {
		panic(goPanic{Iface{rtErrTI, "makeslice: cap out of range"}})
	}
	id := st.allocArray(in.ti, int(c))
	fr.env[in.dst] = Slice{id, 0, int32(n), int32(c)}
}

func growCap(old, need int) int {
	c := old
	if need > 2*old {
		c = need
	} else if old < 256 {
		c = 2 * old
	} else {
		for c < need {
			c += (c + 3*256) / 4
		}
	}
	if c < need {
		c = need
	}
	return c
}

func (st *State) appendVals(s Slice, e *TInfo, vals []Value, n int) Slice {
	if n == 0 {
		return s
	}
	need := int(s.len) + n
	if need <= int(s.cap) {
		o := st.wobj(s.obj)
		copy(o.cells[s.off+s.len*e.size:], vals)
		return Slice{s.obj, s.off, int32(need), s.cap}
	}
	c := growCap(int(s.cap), need)
	if e.kind == KInt && e.w == 8 && c < 8 {
		c = 8
	}
	cells := make([]Value, 0, c*int(e.size))
	if s.len > 0 {
		cells = append(cells, st.obj(s.obj).cells[s.off:s.off+s.len*e.size]...)
	}
	cells = append(cells, vals...)
	for i := need; i < c; i++ {
		cells = e.appendZeroV(cells)
	}
	id := st.newObj(&Obj{cells: cells})
	return Slice{id, 0, int32(need), int32(c)}
}

// ---------------------------------------------------------------------------
// conversions, type assertions
// ---------------------------------------------------------------------------

func (st *State) convert(fr *Frame, in *Instr) {
	v := fr.get(&in.a)
	from, to := in.ti, in.ti2
	switch to.kind {
	case KInt:
		switch from.kind {
		case KInt:
			switch x := v.(type) {
			case Int:
				if from.signed {
					fr.env[in.dst] = Int(uint64(sext64(uint64(x), from.w)) & mask(to.w))
				} else {
					fr.env[in.dst] = Int(uint64(x) & mask(to.w))
				}
			case *Term:
				var t *Term
				switch {
				case to.w < from.w:
					t = tTrunc(x, to.w)
				case to.w == from.w:
					t = x
				case from.signed:
					t = tSext(x, to.w)
				default:
					t = tZext(x, to.w)
				}
				fr.env[in.dst] = fromTerm(t)
			default:
				unsupported("convert %T to int", v)
			}
			return
		case KF64:
			switch x := v.(type) {
			case float64:
				if to.signed {
					fr.env[in.dst] = Int(uint64(int64(x)) & mask(to.w))
				} else {
					fr.env[in.dst] = Int(uint64(x) & mask(to.w))
				}
			case *Term:
				op := OFToS
				if n, _, _, ok := exactInt(x); ok {
					fr.env[in.dst] = fromTerm(tTrunc(tSext(n, 64), to.w))
					return
				}
				fr.env[in.dst] = fromTerm(tTrunc(mk(op, 64, 0, x, nil, nil), to.w))
			}
			return
		case KF32:
			fr.env[in.dst] = Int(uint64(int64(v.(float32))) & mask(to.w))
			return
		case KUnsafe:
			p := v.(Ptr)
			fr.env[in.dst] = Int(uint64(p.obj)<<20 | uint64(p.off)<<3)
			return
		}
	case KF64:
		switch from.kind {
		case KInt:
			switch x := v.(type) {
			case Int:
				if from.signed {
					fr.env[in.dst] = float64(sext64(uint64(x), from.w))
				} else {
					fr.env[in.dst] = float64(uint64(x))
				}
			case *Term:
				op := OFFromS
				if !from.signed {
					op = OFFromU
				}
				fr.env[in.dst] = mk(op, wF64, 0, x, nil, nil)
			}
			return
		case KF64:
			fr.env[in.dst] = v
			return
		case KF32:
			fr.env[in.dst] = float64(v.(float32))
			return
		}
	case KF32:
		switch from.kind {
		case KInt:
			x := st.concInt(v, from)
			if from.signed {
				fr.env[in.dst] = float32(x)
			} else {
				fr.env[in.dst] = float32(uint64(x))
			}
			return
		case KF64:
			if _, ok := v.(float64); !ok {
				unsupported("symbolic float32 conversion")
			}
			fr.env[in.dst] = float32(v.(float64))
			return
		case KF32:
			fr.env[in.dst] = v
			return
		}
	case KC128:
		fr.env[in.dst] = v
		return
	case KStr:
		switch from.kind {
		case KStr:
			fr.env[in.dst] = v
			return
		case KInt: // string(rune)
			if x, ok := v.(Int); ok {
				r := rune(sext64(uint64(x), from.w))
				if !from.signed && uint64(x) > 0x10FFFF || from.w == 64 && sext64(uint64(x), 64) != int64(r) {
					r = 0xFFFD
				}
				fr.env[in.dst] = string(r)
				return
			}
			if x, ok := v.(*Term); ok && from.w != 32 {
				switch {
				case from.w == 64:
					x = tIte(tCmp(OUlt, x, tConst(0x110000, 64)), tTrunc(x, 32), tConst(0xFFFD, 32))
				case from.signed:
					x = tSext(x, 32)
				default:
					x = tZext(x, 32)
				}
				v = fromTerm(x)
			}
			st.callSym("EncodeRune", []Value{v}, in.dst)
			return
		case KSlice:
			s := v.(Slice)
			e := from.elem()
			if e.w == 8 {
				fr.env[in.dst] = mkStr(append([]Value(nil), st.sliceCells(s)...))
				return
			}
			cells := st.sliceCells(s)
			conc := true
			for _, c := range cells {
				if _, ok := c.(Int); !ok {
					conc = false
				}
			}
			if conc {
				rs := make([]rune, len(cells))
				for i, c := range cells {
					rs[i] = rune(int32(uint32(c.(Int))))
				}
				fr.env[in.dst] = string(rs)
				return
			}
			st.callSym("RunesToString", []Value{v}, in.dst)
			return
		}
	case KSlice:
		if from.kind == KStr {
			e := to.elem()
			if e.w == 8 {
				if strLen(v) == 0 {
					id := st.allocCells(0)
					fr.env[in.dst] = Slice{id, 0, 0, 0}
					return
				}
				fr.env[in.dst] = st.newBytes(strBytes(v))
				return
			}
			if s, ok := v.(string); ok {
				rs := []rune(s)
				cells := make([]Value, len(rs))
				for i, r := range rs {
					cells[i] = Int(uint32(r))
				}
				id := st.newObj(&Obj{cells: cells})
				fr.env[in.dst] = Slice{id, 0, int32(len(rs)), int32(len(rs))}
				return
			}
			st.callSym("StringToRunes", []Value{v}, in.dst)
			return
		}
		if from.kind == KSlice {
			fr.env[in.dst] = v
			return
		}
	case KPtr, KUnsafe:
		if _, ok := v.(Ptr); ok {
			fr.env[in.dst] = v
			return
		}
		if x, ok := v.(Int); ok && x == 0 {
			fr.env[in.dst] = Ptr{}
			return
		}
		if _, ok := v.(SymPtr); ok {
			fr.env[in.dst] = v
			return
		}
	default:
		fr.env[in.dst] = v
		return
	}
	unsupported("convert %v -> %v (%T)", from, to, v)
}

func (st *State) callSym(name string, args []Value, dst int32) {
	f := symPkg.Func(name)
	if f == nil {
		fatal("sym.%s missing", name)
	}
	fn := getFn(f)
	fn.prepare()
	fr := st.top()
	if st.w.ex.cfg.Merge > 1 && dst >= 0 && st.tryMerge(fr, nil, fn, nil, args, dst) {
		return
	}
	st.pushFrame(fn, nil, args, dst)
}

type implKey struct{ t, i *TInfo }

func implements(t, it *TInfo) bool {
	k := implKey{t, it}
	if v, ok := implCache.Load(k); ok {
		return v.(bool)
	}
	r := types.Implements(t.t, it.t.Underlying().(*types.Interface))
	implCache.Store(k, r)
	return r
}

func (st *State) typeAssert(fr *Frame, in *Instr) {
	x := fr.get(&in.a).(Iface)
	at := in.ti
	ok := false
	var v Value
	if at.kind == KIface {
		if x.t != nil && implements(x.t, at) {
			ok = true
			v = x
		}
	} else if x.t == at {
		ok = true
		v = x.v
	}
	if !ok {
		if !in.flag {
			if x.t == nil {
				panic(rtErr("interface conversion: interface is nil, not %s", at))
			}
			panic(rtErr("interface conversion: interface is %s, not %s", x.t, at))
		}
		v = at.zero
	}
	if in.flag {
		fr.env[in.dst] = Tuple{v, ok}
	} else {
		fr.env[in.dst] = v
	}
}

var _ = math.Inf
