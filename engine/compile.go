package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type IOp uint8

const (
	iNop IOp = iota
	iAlloc
	iBinOp
	iUnNot
	iUnNeg
	iUnCompl
	iLoad
	iRecv
	iCall
	iGo
	iDefer
	iRunDefers
	iReturn
	iJump
	iIf
	iPanic
	iStore
	iSend
	iSelect
	iFieldAddr
	iField
	iIndexAddr
	iIndex
	iLookup
	iMapUpdate
	iSlice
	iSliceToArrayPtr
	iMakeSlice
	iMakeMap
	iMakeChan
	iMakeClosure
	iMakeInterface
	iChangeInterface
	iChangeType
	iConvert
	iTypeAssert
	iExtract
	iRange
	iNext
	iPhi
	iUnsupported
)

type Opd struct {
	reg int32
	c   Value
}

type Instr struct {
	op      IOp
	tok     token.Token
	flag    bool
	once    bool // iIndexAddr: only loaded from, at once
	dst     int32
	n       int32
	a, b, c Opd
	args    []Opd
	ti, ti2 *TInfo
	callee  *Fn
	builtin *ssa.Builtin
	method  *types.Func
	in      ssa.Instruction
	fn      *Fn
	sel     []SelState
}

type SelState struct {
	send bool
	ch   Opd
	val  Opd
}

type Blk struct {
	idx    int
	instrs []*Instr
	phis   []*Instr
	preds  []int
	succs  []int
	npure  int32 // 0 unknown, 1 pure region candidate, -1 not
}

type Fn struct {
	f       *ssa.Function
	name    string
	once    sync.Once
	nreg    int
	blocks  []*Blk
	params  int
	nfree   int
	recov   int
	intr    Intrinsic
	redirTo *Fn
	nobody  bool
	merge   int32
	hits    int64
	zeroRes Value
	resTI   []*TInfo
	instrs  int
}

var fnMap sync.Map // *ssa.Function -> *Fn
var fnMu sync.Mutex

func getFn(f *ssa.Function) *Fn {
	if v, ok := fnMap.Load(f); ok {
		return v.(*Fn)
	}
	fnMu.Lock()
	defer fnMu.Unlock()
	if v, ok := fnMap.Load(f); ok {
		return v.(*Fn)
	}
	fn := &Fn{f: f, name: fnName(f)}
	fnMap.Store(f, fn)
	return fn
}

func fnName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		return o.String()
	}
	return f.String()
}

var globalIDs = map[*ssa.Global]int32{}
var buildMu sync.Mutex

func (fn *Fn) prepare() {
	fn.once.Do(func() {
		f := fn.f
		fn.intr = findIntrinsic(fn)
		if r, ok := redirects[fn.name]; ok && symPkg != nil {
			if m := symPkg.Func(r); m != nil {
				fn.redirTo = getFn(m)
			} else {
				fatal("redirect target sym.%s missing", r)
			}
		}
		res := f.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			fn.resTI = append(fn.resTI, tinfo(res.At(i).Type()))
		}
		if f.Blocks == nil && f.Pkg != nil {
			buildMu.Lock()
			f.Pkg.Build()
			buildMu.Unlock()
		}
		if f.Blocks == nil {
			fn.nobody = true
			return
		}
		fn.compile()
	})
}

func (fn *Fn) compile() {
	f := fn.f
	regs := map[ssa.Value]int32{}
	n := int32(0)
	for _, p := range f.Params {
		regs[p] = n
		n++
	}
	fn.params = int(n)
	for _, p := range f.FreeVars {
		regs[p] = n
		n++
	}
	fn.nfree = len(f.FreeVars)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				regs[v] = n
				n++
			}
		}
	}
	fn.nreg = int(n)
	fn.recov = -1
	if f.Recover != nil {
		fn.recov = f.Recover.Index
	}
	opd := func(v ssa.Value) Opd { return mkOpd(v, regs) }
	for _, b := range f.Blocks {
		blk := &Blk{idx: b.Index}
		for _, p := range b.Preds {
			blk.preds = append(blk.preds, p.Index)
		}
		for _, s := range b.Succs {
			blk.succs = append(blk.succs, s.Index)
		}
		for _, in := range b.Instrs {
			i := &Instr{in: in, dst: -1, fn: fn}
			if v, ok := in.(ssa.Value); ok {
				i.dst = regs[v]
			}
			fn.compileInstr(i, in, opd)
			if i.op == iPhi {
				blk.phis = append(blk.phis, i)
				continue
			}
			if i.op == iNop {
				continue
			}
			blk.instrs = append(blk.instrs, i)
			fn.instrs++
		}
		fn.blocks = append(fn.blocks, blk)
	}
}

func mkOpd(v ssa.Value, regs map[ssa.Value]int32) Opd {
	if v == nil {
		return Opd{reg: -1}
	}
	switch x := v.(type) {
	case *ssa.Const:
		return Opd{-1, constVal(x)}
	case *ssa.Global:
		id, ok := globalIDs[x]
		if !ok {
			fatal("unknown global %v", x)
		}
		return Opd{-1, Ptr{id, 0}}
	case *ssa.Function:
		return Opd{-1, &Closure{fn: getFn(x)}}
	case *ssa.Builtin:
		return Opd{-1, &Closure{nat: x}}
	}
	r, ok := regs[v]
	if !ok {
		panic(fmt.Sprintf("no reg for %v (%T)", v, v))
	}
	return Opd{r, nil}
}

func constVal(c *ssa.Const) Value {
	ti := tinfo(c.Type())
	if c.Value == nil {
		if _, ok := c.Type().Underlying().(*types.TypeParam); ok {
			return nil
		}
		return ti.zero
	}
	switch ti.kind {
	case KBool:
		return constant.BoolVal(c.Value)
	case KInt:
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return Int(uint64(i) & mask(ti.w))
		}
		u, _ := constant.Uint64Val(v)
		return Int(u & mask(ti.w))
	case KF64:
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		return f
	case KF32:
		f, _ := constant.Float32Val(constant.ToFloat(c.Value))
		return f
	case KStr:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		i, _ := constant.Int64Val(c.Value)
		return string(rune(i))
	case KC128:
		re, _ := constant.Float64Val(constant.Real(c.Value))
		im, _ := constant.Float64Val(constant.Imag(c.Value))
		return complex(re, im)
	case KUnsafe:
		return Ptr{}
	}
	return ti.zero
}

func (fn *Fn) compileInstr(i *Instr, in ssa.Instruction, opd func(ssa.Value) Opd) {
	switch x := in.(type) {
	case *ssa.DebugRef:
		i.op = iNop
	case *ssa.Alloc:
		i.op = iAlloc
		i.ti = tinfo(x.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.BinOp:
		i.op = iBinOp
		i.tok = x.Op
		i.a, i.b = opd(x.X), opd(x.Y)
		i.ti = tinfo(x.X.Type())
		i.ti2 = tinfo(x.Y.Type())
	case *ssa.UnOp:
		i.a = opd(x.X)
		i.ti = tinfo(x.Type())
		switch x.Op {
		case token.NOT:
			i.op = iUnNot
		case token.SUB:
			i.op = iUnNeg
		case token.XOR:
			i.op = iUnCompl
		case token.MUL:
			i.op = iLoad
		case token.ARROW:
			i.op = iRecv
			i.flag = x.CommaOk
			i.ti2 = tinfo(x.X.Type()).elem()
		}
	case *ssa.Call:
		i.op = iCall
		fn.compileCall(i, &x.Call, opd)
	case *ssa.Go:
		i.op = iGo
		fn.compileCall(i, &x.Call, opd)
	case *ssa.Defer:
		i.op = iDefer
		fn.compileCall(i, &x.Call, opd)
		if x.DeferStack != nil {
			i.op = iUnsupported
		}
	case *ssa.RunDefers:
		i.op = iRunDefers
	case *ssa.Return:
		i.op = iReturn
		for _, r := range x.Results {
			i.args = append(i.args, opd(r))
		}
	case *ssa.Jump:
		i.op = iJump
	case *ssa.If:
		i.op = iIf
		i.a = opd(x.Cond)
	case *ssa.Panic:
		i.op = iPanic
		i.a = opd(x.X)
	case *ssa.Store:
		i.op = iStore
		i.a, i.b = opd(x.Addr), opd(x.Val)
		i.ti = tinfo(x.Val.Type())
	case *ssa.Send:
		i.op = iSend
		i.a, i.b = opd(x.Chan), opd(x.X)
	case *ssa.Select:
		i.op = iSelect
		i.flag = x.Blocking
		for _, s := range x.States {
			ss := SelState{send: s.Dir == types.SendOnly, ch: opd(s.Chan)}
			if s.Send != nil {
				ss.val = opd(s.Send)
			}
			i.sel = append(i.sel, ss)
		}
		i.ti = tinfo(x.Type())
	case *ssa.FieldAddr:
		i.op = iFieldAddr
		i.a = opd(x.X)
		st := tinfo(x.X.Type().Underlying().(*types.Pointer).Elem())
		i.n = st.fields[x.Field].off
	case *ssa.Field:
		i.op = iField
		i.a = opd(x.X)
		st := tinfo(x.X.Type())
		i.n = st.fields[x.Field].off
		i.ti = st.fields[x.Field].ti
	case *ssa.IndexAddr:
		i.op = iIndexAddr
		i.a, i.b = opd(x.X), opd(x.Index)
		i.ti = tinfo(x.X.Type())
		i.ti2 = tinfo(x.Index.Type())
		if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			at := tinfo(p.Elem())
			i.n = int32(at.n)
			i.flag = true
			i.ti = at.elem_
		} else {
			i.ti = i.ti.elem()
		}
		i.once = loadedAtOnce(x)
	case *ssa.Index:
		i.op = iIndex
		i.a, i.b = opd(x.X), opd(x.Index)
		i.ti = tinfo(x.X.Type())
		i.ti2 = tinfo(x.Index.Type())
	case *ssa.Lookup:
		i.op = iLookup
		i.a, i.b = opd(x.X), opd(x.Index)
		i.ti = tinfo(x.X.Type())
		i.ti2 = tinfo(x.Index.Type())
		i.flag = x.CommaOk
	case *ssa.MapUpdate:
		i.op = iMapUpdate
		i.a, i.b, i.c = opd(x.Map), opd(x.Key), opd(x.Value)
		i.ti = tinfo(x.Key.Type())
	case *ssa.Slice:
		i.op = iSlice
		i.ti = tinfo(x.X.Type())
		i.a = opd(x.X)
		for _, y := range []ssa.Value{x.Low, x.High, x.Max} {
			if y == nil {
				i.args = append(i.args, Opd{-1, nil})
			} else {
				i.args = append(i.args, opd(y))
			}
		}
	case *ssa.SliceToArrayPointer:
		i.op = iSliceToArrayPtr
		i.a = opd(x.X)
		i.n = int32(tinfo(x.Type()).elem().n)
	case *ssa.MakeSlice:
		i.op = iMakeSlice
		i.a, i.b = opd(x.Len), opd(x.Cap)
		i.ti = tinfo(x.Type()).elem()
	case *ssa.MakeMap:
		i.op = iMakeMap
	case *ssa.MakeChan:
		i.op = iMakeChan
		i.a = opd(x.Size)
	case *ssa.MakeClosure:
		i.op = iMakeClosure
		i.callee = getFn(x.Fn.(*ssa.Function))
		for _, b := range x.Bindings {
			i.args = append(i.args, opd(b))
		}
	case *ssa.MakeInterface:
		i.op = iMakeInterface
		i.a = opd(x.X)
		i.ti = tinfo(x.X.Type())
	case *ssa.ChangeInterface:
		i.op = iChangeInterface
		i.a = opd(x.X)
	case *ssa.ChangeType:
		i.op = iChangeInterface
		i.a = opd(x.X)
	case *ssa.Convert:
		i.op = iConvert
		i.a = opd(x.X)
		i.ti = tinfo(x.X.Type())
		i.ti2 = tinfo(x.Type())
	case *ssa.MultiConvert:
		i.op = iConvert
		i.a = opd(x.X)
		i.ti = tinfo(x.X.Type())
		i.ti2 = tinfo(x.Type())
	case *ssa.TypeAssert:
		i.op = iTypeAssert
		i.a = opd(x.X)
		i.ti = tinfo(x.AssertedType)
		i.flag = x.CommaOk
	case *ssa.Extract:
		i.op = iExtract
		i.a = opd(x.Tuple)
		i.n = int32(x.Index)
	case *ssa.Range:
		i.op = iRange
		i.a = opd(x.X)
		i.ti = tinfo(x.X.Type())
	case *ssa.Next:
		i.op = iNext
		i.a = opd(x.Iter)
		i.flag = x.IsString
		i.ti = tinfo(x.Type())
	case *ssa.Phi:
		i.op = iPhi
		for _, e := range x.Edges {
			i.args = append(i.args, opd(e))
		}
		i.ti = tinfo(x.Type())
	default:
		i.op = iUnsupported
	}
}

func (fn *Fn) compileCall(i *Instr, c *ssa.CallCommon, opd func(ssa.Value) Opd) {
	if c.IsInvoke() {
		i.method = c.Method
		i.a = opd(c.Value)
	} else {
		switch v := c.Value.(type) {
		case *ssa.Builtin:
			i.builtin = v
		case *ssa.Function:
			i.callee = getFn(v)
		default:
			i.a = opd(c.Value)
		}
	}
	for _, a := range c.Args {
		i.args = append(i.args, opd(a))
	}
	if len(c.Args) > 0 {
		i.ti = tinfo(c.Args[0].Type())
		if i.builtin != nil && len(c.Args) > 1 {
			i.ti2 = tinfo(c.Args[1].Type())
		}
	}
}

// loadedAtOnce reports whether the only use of an element's address is a load
// in the next instruction.
func loadedAtOnce(x *ssa.IndexAddr) bool {
	b := x.Block()
	for k, in := range b.Instrs {
		if in != ssa.Instruction(x) {
			continue
		}
		n := 0
		for _, r := range *x.Referrers() {
			if _, ok := r.(*ssa.DebugRef); !ok {
				n++
			}
		}
		for k++; k < len(b.Instrs); k++ {
			if _, ok := b.Instrs[k].(*ssa.DebugRef); !ok {
				break
			}
		}
		if n != 1 || k == len(b.Instrs) {
			return false
		}
		u, ok := b.Instrs[k].(*ssa.UnOp)
		return ok && u.Op == token.MUL && u.X == ssa.Value(x)
	}
	return false
}
