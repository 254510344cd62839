package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
	"sync"
	"sync/atomic"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

var truthCache sync.Map
var implCache sync.Map

func decodeRune(s string) (rune, int) { return utf8.DecodeRuneInString(s) }

var decFn *Fn
var decMu sync.Mutex

func decodeRuneFn() *Fn {
	decMu.Lock()
	defer decMu.Unlock()
	if decFn == nil {
		decFn = getFn(symPkg.Func("DecodeRune"))
	}
	return decFn
}

// ---------------------------------------------------------------------------
// If: region merging.  Small side-effect free regions following a symbolic
// condition are evaluated on both sides and joined with ite terms, so that
// `a && b`, min/max and similar diamonds do not fork.
// ---------------------------------------------------------------------------

type leaf struct {
	cond     *Term
	blk, frm int
}

func (st *State) execIf(fr *Frame, in *Instr) {
	switch c := fr.get(&in.a).(type) {
	case bool:
		s := fr.fn.blocks[fr.blk].succs
		if c {
			st.jump(fr, s[0])
		} else {
			st.jump(fr, s[1])
		}
	case *Term:
		s := fr.fn.blocks[fr.blk].succs
		if v, ok := st.quick(c); ok {
			if v {
				st.jump(fr, s[0])
			} else {
				st.jump(fr, s[1])
			}
			return
		}
		if st.w.ex.cfg.Merge > 0 && st.mergeIf(fr, c) {
			return
		}
		if st.branch(c) {
			st.jump(fr, s[0])
		} else {
			st.jump(fr, s[1])
		}
	}
}

func (st *State) mergeIf(fr *Frame, c *Term) bool {
	b := fr.fn.blocks[fr.blk]
	var leaves []leaf
	expanded := false
	n := 0
	var grow func(blk, frm int, cond *Term, depth int) bool
	grow = func(blk, frm int, cond *Term, depth int) bool {
		if cond == tFalse {
			return true
		}
		n++
		if n > 40 {
			return false
		}
		if depth < 8 && len(fr.fn.blocks[blk].preds) == 1 && st.specBlock(fr, blk) {
			expanded = true
			t := fr.fn.blocks[blk]
			last := t.instrs[len(t.instrs)-1]
			if last.op == iJump {
				return grow(t.succs[0], blk, cond, depth+1)
			}
			switch v := fr.get(&last.a).(type) {
			case bool:
				if v {
					return grow(t.succs[0], blk, cond, depth+1)
				}
				return grow(t.succs[1], blk, cond, depth+1)
			case *Term:
				if q, ok := st.quick(v); ok {
					if q {
						return grow(t.succs[0], blk, cond, depth+1)
					}
					return grow(t.succs[1], blk, cond, depth+1)
				}
				return grow(t.succs[0], blk, tAnd(cond, v), depth+1) &&
					grow(t.succs[1], blk, tAnd(cond, tNot(v)), depth+1)
			}
			return false
		}
		leaves = append(leaves, leaf{cond, blk, frm})
		return true
	}
	if !grow(b.succs[0], fr.blk, c, 0) || !grow(b.succs[1], fr.blk, tNot(c), 0) {
		return false
	}
	// group by target
	type group struct {
		blk  int
		cond *Term
		ls   []leaf
	}
	var gs []*group
	for _, l := range leaves {
		var g *group
		for _, x := range gs {
			if x.blk == l.blk {
				g = x
			}
		}
		if g == nil {
			g = &group{blk: l.blk, cond: tFalse}
			gs = append(gs, g)
		}
		g.cond = tOr(g.cond, l.cond)
		g.ls = append(g.ls, l)
	}
	if !expanded && len(gs) == 2 {
		return false
	}
	if len(gs) > 2 {
		return false
	}
	// phi values per group
	vals := make([][]Value, len(gs))
	for gi, g := range gs {
		t := fr.fn.blocks[g.blk]
		for _, p := range t.phis {
			var v Value
			for i := len(g.ls) - 1; i >= 0; i-- {
				l := g.ls[i]
				e := 0
				for k, q := range t.preds {
					if q == l.frm {
						e = k
						break
					}
				}
				x := fr.get(&p.args[e])
				if i == len(g.ls)-1 {
					v = x
					continue
				}
				m, ok := st.mergeVal(l.cond, x, v, p.ti)
				if !ok {
					return false
				}
				v = m
			}
			vals[gi] = append(vals[gi], v)
		}
	}
	pick := 0
	if len(gs) == 2 {
		if !st.branch(gs[0].cond) {
			pick = 1
		}
	}
	g := gs[pick]
	fr.prev = g.ls[0].frm
	fr.blk = g.blk
	fr.pc = 0
	for i, p := range fr.fn.blocks[g.blk].phis {
		fr.env[p.dst] = vals[pick][i]
	}
	return true
}

func (st *State) mergeVal(c *Term, a, b Value, ti *TInfo) (Value, bool) {
	switch ti.kind {
	case KBool:
		return fromTerm(tIte(c, asTerm(a, 0), asTerm(b, 0))), true
	case KInt:
		if x, ok := a.(Int); ok {
			if y, ok := b.(Int); ok && x == y {
				return a, true
			}
		}
		if st.w.ex.cfg.MergeInts || st.mergeD > 0 {
			return fromTerm(tIte(c, asTerm(a, ti.w), asTerm(b, ti.w))), true
		}
		return nil, false
	case KF64:
		x, y := asTerm(a, wF64), asTerm(b, wF64)
		if x == y {
			return a, true
		}
		if st.w.ex.cfg.MergeInts {
			return fromTerm(tIte(c, x, y)), true
		}
		return nil, false
	case KStr:
		if strLen(a) != strLen(b) {
			return nil, false
		}
		x, y := strBytes(a), strBytes(b)
		out := make([]Value, len(x))
		for i := range x {
			out[i] = fromTerm(tIte(c, asTerm(x[i], 8), asTerm(y[i], 8)))
		}
		return mkStr(out), true
	case KPtr, KSlice, KMap, KChan, KUnsafe:
		if a == b {
			return a, true
		}
	case KIface:
		if x, ok := a.(Iface); ok {
			if y, ok := b.(Iface); ok && x.t == nil && y.t == nil {
				return a, true
			}
		}
	case KFunc:
		if a == b {
			return a, true
		}
	}
	return nil, false
}

// specBlock speculatively evaluates a block made of pure instructions; false
// when some instruction could panic, has effects, or branches.
func (st *State) specBlock(fr *Frame, bi int) bool {
	b := fr.fn.blocks[bi]
	// the verdict is published only when it is complete: other workers look too
	pure := atomic.LoadInt32(&b.npure)
	if pure == 0 {
		pure = 1
		if len(b.instrs) > 24 || len(b.phis) > 0 {
			pure = -1
		}
		for i, in := range b.instrs {
			lastI := i == len(b.instrs)-1
			switch in.op {
			case iBinOp, iUnNot, iUnNeg, iUnCompl, iLoad, iFieldAddr, iField, iIndexAddr, iIndex, iConvert, iExtract, iChangeInterface, iLookup:
				if in.op == iLookup && in.ti.kind != KStr {
					pure = -1
				}
				if in.op == iConvert && (in.ti2.kind == KStr || in.ti2.kind == KSlice) {
					pure = -1
				}
			case iCall:
				if in.builtin == nil || (in.builtin.Name() != "len" && in.builtin.Name() != "cap" && in.builtin.Name() != "min" && in.builtin.Name() != "max") {
					pure = -1
				}
			case iJump, iIf:
				if !lastI {
					pure = -1
				}
			default:
				pure = -1
			}
		}
		atomic.StoreInt32(&b.npure, pure)
	}
	if pure < 0 {
		return false
	}
	for _, in := range b.instrs {
		switch in.op {
		case iJump, iIf:
			return true
		case iBinOp:
			x, y := fr.get(&in.a), fr.get(&in.b)
			if in.ti.kind == KIface || in.ti.kind == KStruct || in.ti.kind == KArray {
				return false
			}
			switch in.tok {
			case token.QUO, token.REM:
				if in.ti.kind == KInt {
					if yi, ok := y.(Int); !ok || yi == 0 {
						return false
					}
				}
			case token.SHL, token.SHR:
				if in.ti2.signed {
					if yi, ok := y.(Int); !ok || sext64(uint64(yi), in.ti2.w) < 0 {
						return false
					}
				}
			}
			fr.env[in.dst] = st.binop(in, x, y)
		case iLoad:
			switch p := fr.get(&in.a).(type) {
			case Ptr:
				if p.obj == 0 {
					return false
				}
				fr.env[in.dst] = st.load(p, in.ti)
			case SymPtr:
				fr.env[in.dst] = st.loadSym(p, in.ti)
			default:
				return false
			}
		case iFieldAddr:
			if p, ok := fr.get(&in.a).(Ptr); !ok || p.obj == 0 {
				return false
			}
			st.exec(fr, in)
		case iIndexAddr, iIndex, iLookup:
			idx, ok := fr.get(&in.b).(Int)
			if !ok {
				return false
			}
			i := int64(idx)
			if in.ti2.signed {
				i = sext64(uint64(idx), in.ti2.w)
			}
			var n int64
			switch x := fr.get(&in.a).(type) {
			case Slice:
				n = int64(x.len)
			case string:
				n = int64(len(x))
			case *SymStr:
				n = int64(len(x.b))
			case Ptr:
				if x.obj == 0 {
					return false
				}
				n = int64(in.n)
			case Agg:
				n = in.ti.n
			default:
				return false
			}
			if i < 0 || i >= n {
				return false
			}
			st.exec(fr, in)
		case iCall:
			for i := range in.args {
				if in.builtin.Name() == "min" || in.builtin.Name() == "max" {
					if in.ti.kind != KInt {
						return false
					}
				}
				_ = i
			}
			st.exec(fr, in)
		default:
			st.exec(fr, in)
		}
	}
	return false
}

// ---------------------------------------------------------------------------
// call merging: a statically pure function with scalar results called with a
// symbolic argument is explored on its own and its return values are joined by
// ite over its decision tree.
// ---------------------------------------------------------------------------

func scalarTI(ti *TInfo) bool {
	switch ti.kind {
	case KInt, KBool:
		return true
	}
	return false
}

var mergeMu sync.Mutex

func (fn *Fn) mergeable() bool {
	mergeMu.Lock()
	defer mergeMu.Unlock()
	return fn.mergeableL(map[*Fn]bool{})
}

func (fn *Fn) mergeableL(seen map[*Fn]bool) bool {
	if m := atomic.LoadInt32(&fn.merge); m != 0 {
		return m > 0
	}
	if seen[fn] {
		return true
	}
	seen[fn] = true
	ok := fn.mergeableTop() && fn.pureBody(seen)
	if ok {
		atomic.StoreInt32(&fn.merge, 1)
	} else {
		atomic.StoreInt32(&fn.merge, -1)
	}
	return ok
}

func (fn *Fn) mergeableTop() bool {
	if len(fn.resTI) == 0 || fn.blocks == nil || len(fn.resTI) > 3 {
		return false
	}
	for _, r := range fn.resTI {
		if !scalarTI(r) {
			return false
		}
	}
	if len(fn.blocks) < 2 {
		return false
	}
	// decoders return sizes the callers loop on: forking is cheaper there
	if strings.HasPrefix(fn.name, "unicode/utf8.") || strings.HasSuffix(fn.name, "/zzsym.DecodeRune") {
		return false
	}
	return true
}

// pureBody: no stores except to local allocations, no goroutines/defers/maps
// writes, only calls to functions whose body is pure.
func (fn *Fn) pureBody(seen map[*Fn]bool) bool {
	if fn.blocks == nil {
		return false
	}
	if strings.Contains(fn.name, "/zzsym.") && !strings.HasPrefix(fn.f.Name(), "model") && fn.f.Name() != "DecodeRune" {
		return false
	}
	for _, b := range fn.f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if !localAddr(x.Addr) {
					return false
				}
			case *ssa.MapUpdate, *ssa.Go, *ssa.Defer, *ssa.Send, *ssa.Select, *ssa.MakeChan, *ssa.RunDefers, *ssa.Panic:
				return false
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					return false
				}
			case *ssa.Call:
				switch c := x.Call.Value.(type) {
				case *ssa.Builtin:
					switch c.Name() {
					case "len", "cap", "min", "max":
					default:
						return false
					}
				case *ssa.Function:
					g := getFn(c)
					g.prepare()
					if g.intr != nil {
						return false
					}
					if g.redirTo != nil {
						g = g.redirTo
						g.prepare()
					}
					if seen[g] {
						continue
					}
					if atomic.LoadInt32(&g.merge) > 0 {
						continue
					}
					if g.blocks == nil || len(g.resTI) == 0 {
						return false
					}
					for _, r := range g.resTI {
						if !scalarTI(r) {
							return false
						}
					}
					seen[g] = true
					if !g.pureBody(seen) {
						return false
					}
				default:
					return false
				}
			}
		}
	}
	return true
}

func localAddr(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FieldAddr:
		return localAddr(x.X)
	case *ssa.IndexAddr:
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			return localAddr(x.X)
		}
	}
	return false
}

func (st *State) argKey(fn *Fn, binds, args []Value) (string, bool) {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%p", fn)
	for _, l := range [][]Value{binds, args} {
		for _, a := range l {
			switch x := a.(type) {
			case *Term:
				fmt.Fprintf(&sb, "|t%d", x.id)
			case Int:
				fmt.Fprintf(&sb, "|%d", uint64(x))
			case bool:
				fmt.Fprintf(&sb, "|%v", x)
			case string:
				fmt.Fprintf(&sb, "|%q", x)
			case *SymStr:
				sb.WriteString("|s")
				for _, y := range x.b {
					if t, ok := y.(*Term); ok {
						fmt.Fprintf(&sb, ".t%d", t.id)
					} else {
						fmt.Fprintf(&sb, ".%d", y)
					}
				}
			default:
				return "", false
			}
		}
	}
	return sb.String(), true
}

func (st *State) tryMerge(fr *Frame, in *Instr, fn *Fn, binds, args []Value, dst int32) bool {
	fm := atomic.LoadInt32(&fn.merge)
	if fm < 0 {
		return false
	}
	sym := false
	for _, a := range args {
		switch a.(type) {
		case *Term, *SymStr:
			sym = true
		}
	}
	if !sym {
		return false
	}
	if fm == 0 && !fn.mergeable() {
		return false
	}
	if len(binds) > 0 {
		return false
	}
	key, keyOK := st.argKey(fn, binds, args)
	if keyOK {
		for l := st.memo; l != nil; l = l.parent {
			if v, ok := l.m[key]; ok {
				if v == nil {
					return false
				}
				fr.env[dst] = v
				return true
			}
		}
	}
	v, ok := st.subExplore(fn, binds, args)
	if !ok {
		v = nil
	}
	if keyOK && st.w.mergeAbortWhy != "budget" {
		if st.memo == nil {
			st.memo = &memoLayer{m: map[string]Value{}}
		}
		st.memo.m[key] = v
	}
	if !ok {
		return false
	}
	fr.env[dst] = v
	return true
}

const maxSubPaths = 600

func (st *State) subExplore(fn *Fn, binds, args []Value) (Value, bool) {
	w := st.w
	sub := st.clone()
	// the clone bumped ownership; keep st usable
	sub.mergeD = st.mergeD + 1
	sub.mergeBase = int32(sub.nobj) + 1
	sub.forks = nil
	g := *sub.gs[sub.cur]
	g.frames = nil
	sub.gs = append([]*Gor(nil), sub.gs...)
	sub.gs[sub.cur] = &g
	f := sub.pushFrame(fn, binds, args, -1)
	f.barrier = true
	saved := w.wl
	w.wl = nil
	w.subDepth++
	defer func() {
		w.wl = saved
		w.subDepth--
	}()
	type res struct {
		forks []*Term
		v     Value
	}
	var out []res
	todo := []*State{sub}
	var steps int64
	for len(todo) > 0 {
		s := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		w.wl = &todo
		base := s.steps
		w.runSub(s)
		steps += s.steps - base
		if s.endKind == "subret" {
			out = append(out, res{s.forks, s.subRet})
		} else {
			w.mergeAbortWhy = s.endKind
			return nil, false
		}
		if len(out)+len(todo) > maxSubPaths || steps > 400000 {
			w.mergeAbortWhy = "toomany"
			return nil, false
		}
	}
	if len(out) == 0 {
		return nil, false
	}
	nres := len(fn.resTI)
	comp := func(v Value, i int) *Term {
		if nres > 1 {
			v = v.(Tuple)[i]
		}
		return asTerm(v, fn.resTI[i].w)
	}
	bad := false
	var build func(l []res, d, k int) *Term
	build = func(l []res, d, k int) *Term {
		if len(l) == 1 {
			return comp(l[0].v, k)
		}
		if d >= len(l[0].forks) {
			bad = true
			return comp(l[0].v, k)
		}
		c := l[0].forks[d]
		var yes, no []res
		for _, r := range l {
			if d < len(r.forks) && r.forks[d] == c {
				yes = append(yes, r)
			} else if d < len(r.forks) && r.forks[d] == tNot(c) {
				no = append(no, r)
			} else {
				bad = true
				return comp(l[0].v, k)
			}
		}
		if len(no) == 0 {
			return build(yes, d+1, k)
		}
		return tIte(c, build(yes, d+1, k), build(no, d+1, k))
	}
	if nres == 1 {
		t := build(out, 0, 0)
		if bad {
			return nil, false
		}
		return fromTerm(t), true
	}
	tu := make(Tuple, nres)
	for i := 0; i < nres; i++ {
		tu[i] = fromTerm(build(out, 0, i))
	}
	if bad {
		return nil, false
	}
	return tu, true
}

func (w *Worker) runSub(s *State) {
	s.w = w
	for !s.ended {
		w.runSome(s)
	}
}
