package main

import (
	"bytes"
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Intrinsic func(st *State, fr *Frame, in *Instr, a []Value) Value

// functions replaced by Go models living in the sym package
var redirects = map[string]string{
	"errors.Is":               "ErrorsIs",
	"unicode/utf8.DecodeRune": "",
	"github.com/unilibs/uniwidth.isASCIIOnly": "ModelASCIIOnly",
	"github.com/unilibs/uniwidth.asciiWidth":  "ModelASCIIWidth",
	"os.Pipe":                       "OSPipe",
	"(*os.File).Read":               "FileRead",
	"(*os.File).Write":              "FileWrite",
	"(*os.File).WriteString":        "FileWriteString",
	"(*os.File).Close":              "FileClose",
	"(*os.File).Sync":               "FileSync",
	"(*os.File).SetReadDeadline":    "FileSetReadDeadline",
	"sort.Slice":                              "SortSlice",
	"sort.SliceStable":                        "SortSliceStable",
	"strings.EqualFold":                       "",
	"(*strings.Builder).String":               "",
}

func init() {
	for k, v := range redirects {
		if v == "" {
			delete(redirects, k)
		}
	}
}

var intrinsics map[string]Intrinsic

func nop(st *State, fr *Frame, in *Instr, a []Value) Value { return nil }

func findIntrinsic(fn *Fn) Intrinsic {
	n := fn.name
	if i, ok := intrinsics[n]; ok {
		return i
	}
	if fn.f != nil && fn.f.Pkg != nil && fn.f.Pkg == symPkg && fn.f.Signature.Recv() == nil && fn.f.Parent() == nil {
		if i, ok := symIntr[fn.f.Name()]; ok {
			return i
		}
	}
	if strings.HasPrefix(n, "internal/race.") || strings.HasPrefix(n, "internal/godebug.") || strings.HasPrefix(n, "(*internal/godebug.Setting)") || strings.HasPrefix(n, "internal/asan.") || strings.HasPrefix(n, "internal/msan.") {
		return func(st *State, fr *Frame, in *Instr, a []Value) Value {
			return fn.zeroResult()
		}
	}
	return nil
}

// natFn makes a callable function implemented by the engine.
func natFn(name string, i Intrinsic) *Fn {
	f := &Fn{name: name, intr: i}
	f.once.Do(func() {})
	return f
}

func mathF1(f func(float64) float64) Intrinsic {
	return func(st *State, fr *Frame, in *Instr, a []Value) Value {
		if x, ok := a[0].(float64); ok {
			return f(x)
		}
		return fallthroughT{}
	}
}

func bytesOrStr(st *State, v Value) Value {
	if s, ok := v.(Slice); ok {
		return mkStr(append([]Value(nil), st.sliceCells(s)...))
	}
	return v
}

// concStr returns the concrete string or ok=false
func (st *State) concStr(v Value) (string, bool) {
	s, ok := bytesOrStr(st, v).(string)
	return s, ok
}

func byteArg(v Value) (byte, bool) {
	x, ok := v.(Int)
	return byte(x), ok
}

func (st *State) callModel(name string, a []Value, in *Instr) Value {
	dst := int32(-1)
	if in != nil {
		dst = in.dst
	}
	st.callSym(name, a, dst)
	return pending
}

func atomicAdd(w uint8) Intrinsic {
	return func(st *State, fr *Frame, in *Instr, a []Value) Value {
		if st.schedPoint() {
			return pending
		}
		p := mustPtr(a[0])
		o := st.obj(p.obj).cells[p.off]
		n := fromTerm(tBin(OAdd, asTerm(o, w), asTerm(a[1], w)))
		st.wobj(p.obj).cells[p.off] = n
		return n
	}
}
func mustPtr(v Value) Ptr {
	p, ok := v.(Ptr)
	if !ok {
		unsupported("symbolic pointer to intrinsic")
	}
	if p.obj == 0 {
		panic(rtErr("invalid memory address or nil pointer dereference"))
	}
	return p
}
func atomicLoad(st *State, fr *Frame, in *Instr, a []Value) Value {
	if st.schedPoint() {
		return pending
	}
	p := mustPtr(a[0])
	return st.obj(p.obj).cells[p.off]
}
func atomicStore(st *State, fr *Frame, in *Instr, a []Value) Value {
	if st.schedPoint() {
		return pending
	}
	p := mustPtr(a[0])
	st.wobj(p.obj).cells[p.off] = a[1]
	return nil
}
func atomicSwap(st *State, fr *Frame, in *Instr, a []Value) Value {
	if st.schedPoint() {
		return pending
	}
	p := mustPtr(a[0])
	o := st.wobj(p.obj)
	v := o.cells[p.off]
	o.cells[p.off] = a[1]
	return v
}
func atomicCAS(st *State, fr *Frame, in *Instr, a []Value) Value {
	if st.schedPoint() {
		return pending
	}
	p := mustPtr(a[0])
	v := st.obj(p.obj).cells[p.off]
	eq := false
	switch x := v.(type) {
	case *Term:
		eq = st.branch(tEq(x, asTerm(a[1], x.w)))
	case Int:
		if t, ok := a[1].(*Term); ok {
			eq = st.branch(tEq(t, asTerm(x, t.w)))
		} else {
			eq = v == a[1]
		}
	default:
		eq = v == a[1]
	}
	if eq {
		st.wobj(p.obj).cells[p.off] = a[2]
	}
	return eq
}

func blockOn(st *State, in *Instr, k WaitKind, p Ptr) Value {
	if in == nil {
		unsupported("blocking operation in a deferred intrinsic")
	}
	st.block(Wait{kind: k, p: p})
	return pending
}

func mutexLock(st *State, fr *Frame, in *Instr, a []Value) Value {
	if st.schedPoint() {
		return pending
	}
	p := mustPtr(a[0])
	if !st.lockFree(p) {
		return blockOn(st, in, wLock, p)
	}
	st.wobj(p.obj).cells[p.off] = Int(1)
	return nil
}
func mutexUnlock(st *State, fr *Frame, in *Instr, a []Value) Value {
	p := mustPtr(a[0])
	o := st.wobj(p.obj)
	if o.cells[p.off] != Value(Int(1)) {
		st.end("fatal", "fatal error: sync: unlock of unlocked mutex\n"+st.stackTrace())
		return nil
	}
	o.cells[p.off] = Int(0)
	return nil
}

func (st *State) clockTerm() Value { return Int(uint64(st.clock)) }

const baseSec = 1700000000 // wall clock base (2023-11-14)

func (st *State) timeValue() Value {
	// Time{wall, ext, loc}: monotonic reading present
	const hasMono = uint64(1) << 63
	const unixToInternal = int64((1969*365 + 1969/4 - 1969/100 + 1969/400) * 86400)
	const wallToInternal = int64((1884*365 + 1884/4 - 1884/100 + 1884/400) * 86400)
	ns := st.clock
	sec := int64(baseSec) + ns/1e9 + unixToInternal - wallToInternal
	wall := hasMono | uint64(sec)<<30 | uint64(ns%1e9)
	return Agg{Int(wall), Int(uint64(ns + 1)), localLocPtr()}
}

func localLocPtr() Ptr {
	p := prog.ImportedPackage("time")
	if p == nil {
		return Ptr{}
	}
	return Ptr{globalIDs[p.Var("localLoc")], 0}
}

func init() {
	intrinsics = map[string]Intrinsic{
		"runtime.GC":                   nop,
		"runtime.KeepAlive":            nop,
		"runtime.Gosched":              func(st *State, fr *Frame, in *Instr, a []Value) Value { return goYield(st, in) },
		"runtime.NumGoroutine":         func(st *State, fr *Frame, in *Instr, a []Value) Value { return Int(1) },
		"runtime.SetFinalizer":         nop,
		"runtime/debug.PrintStack":     nop,
		"runtime/debug.Stack":          func(st *State, fr *Frame, in *Instr, a []Value) Value { return Slice{} },
		"runtime.Stack":                func(st *State, fr *Frame, in *Instr, a []Value) Value { return Int(0) },
		"internal/abi.NoEscape":        func(st *State, fr *Frame, in *Instr, a []Value) Value { return a[0] },
		"internal/abi.Escape":          func(st *State, fr *Frame, in *Instr, a []Value) Value { return a[0] },
		"strings.noescape":             func(st *State, fr *Frame, in *Instr, a []Value) Value { return a[0] },
		"(*strings.Builder).copyCheck": nop,

		"internal/bytealg.MakeNoZero": func(st *State, fr *Frame, in *Instr, a []Value) Value {
			n := st.concInt(a[0], tiInt)
			id := st.allocArray(tiByte, int(n))
			return Slice{id, 0, int32(n), int32(n)}
		},
		"internal/bytealg.IndexByte": func(st *State, fr *Frame, in *Instr, a []Value) Value {
			s, ok := st.concStr(a[0])
			c, ok2 := byteArg(a[1])
			if ok && ok2 {
				return Int(uint64(int64(strings.IndexByte(s, c))))
			}
			return st.callModel("ModelIndexByte", []Value{bytesOrStr(st, a[0]), a[1]}, in)
		},
		"internal/bytealg.IndexByteString": func(st *State, fr *Frame, in *Instr, a []Value) Value {
			s, ok := st.concStr(a[0])
			c, ok2 := byteArg(a[1])
			if ok && ok2 {
				return Int(uint64(int64(strings.IndexByte(s, c))))
			}
			return st.callModel("ModelIndexByte", a, in)
		},
		"internal/bytealg.Count":         bytealgCount,
		"internal/bytealg.CountString":   bytealgCount,
		"internal/bytealg.Compare":       bytealgCompare,
		"internal/bytealg.CompareString": bytealgCompare,
		"internal/bytealg.Equal": func(st *State, fr *Frame, in *Instr, a []Value) Value {
			return strEq(bytesOrStr(st, a[0]), bytesOrStr(st, a[1]))
		},
		"bytes.Equal": func(st *State, fr *Frame, in *Instr, a []Value) Value {
			return strEq(bytesOrStr(st, a[0]), bytesOrStr(st, a[1]))
		},
		"internal/bytealg.Index":       bytealgIndex,
		"internal/bytealg.IndexString": bytealgIndex,
		"internal/stringslite.Index":   bytealgIndex,
		"strings.Index":                bytealgIndex,
		"bytes.Index":                  bytealgIndex,
		"unique.Make":                  nil,

		"math.Float64bits": func(st *State, fr *Frame, in *Instr, a []Value) Value {
			return Int(math.Float64bits(concF(a[0])))
		},
		"math.Float64frombits": func(st *State, fr *Frame, in *Instr, a []Value) Value {
			return math.Float64frombits(uint64(st.concInt(a[0], tiInt)))
		},
		"math.Float32bits": func(st *State, fr *Frame, in *Instr, a []Value) Value {
			return Int(math.Float32bits(a[0].(float32)))
		},
		"math.Float32frombits": func(st *State, fr *Frame, in *Instr, a []Value) Value {
			return math.Float32frombits(uint32(a[0].(Int)))
		},
		"math.Abs": func(st *State, fr *Frame, in *Instr, a []Value) Value {
			if x, ok := a[0].(float64); ok {
				return math.Abs(x)
			}
			x := a[0].(*Term)
			return fromTerm(tIte(tFCmp(OFLt, x, tF(0)), mk(OFNeg, wF64, 0, x, nil, nil), x))
		},
		"math.Sqrt": func(st *State, fr *Frame, in *Instr, a []Value) Value {
			if x, ok := a[0].(*Term); ok {
				return fromTerm(tFSqrt(x))
			}
			return math.Sqrt(concF(a[0]))
		},
		"math.Floor": roundF(OFRoundD, math.Floor),
		"math.Ceil":  roundF(OFRoundU, math.Ceil),
		"math.Trunc": roundF(OFRoundZ, math.Trunc),
		"math.Round": roundF(OFRoundA, math.Round),
		"math.Pow": func(st *State, fr *Frame, in *Instr, a []Value) Value {
			return math.Pow(concF(a[0]), concF(a[1]))
		},
		"math.IsNaN": func(st *State, fr *Frame, in *Instr, a []Value) Value {
			if x, ok := a[0].(float64); ok {
				return math.IsNaN(x)
			}
			return fromTerm(tNot(tFCmp(OFEq, a[0].(*Term), a[0].(*Term))))
		},
		"math.Sin": concMath1(math.Sin), "math.Cos": concMath1(math.Cos), "math.Log": concMath1(math.Log), "math.Exp": concMath1(math.Exp),
		"math.Log10": concMath1(math.Log10), "math.Log2": concMath1(math.Log2), "math.Cbrt": concMath1(math.Cbrt),
		"math.archMax": nil,
		"math.Mod": func(st *State, fr *Frame, in *Instr, a []Value) Value {
			return math.Mod(concF(a[0]), concF(a[1]))
		},

		"(*sync.Mutex).Lock":   mutexLock,
		"(*sync.Mutex).Unlock": mutexUnlock,
		"(*sync.Mutex).TryLock": func(st *State, fr *Frame, in *Instr, a []Value) Value {
			p := mustPtr(a[0])
			if !st.lockFree(p) {
				return false
			}
			st.wobj(p.obj).cells[p.off] = Int(1)
			return true
		},
		"(*internal/sync.Mutex).Lock":   mutexLock,
		"(*internal/sync.Mutex).Unlock": mutexUnlock,
		"(*sync.RWMutex).Lock":          mutexLock,
		"(*sync.RWMutex).Unlock":        mutexUnlock,
		"(*sync.RWMutex).RLock": func(st *State, fr *Frame, in *Instr, a []Value) Value {
			if st.schedPoint() {
				return pending
			}
			p := mustPtr(a[0])
			if st.obj(p.obj).cells[p.off] != Value(Int(0)) {
				return blockOn(st, in, wRLock, p)
			}
			o := st.wobj(p.obj)
			o.cells[p.off+1] = o.cells[p.off+1].(Int) + 1
			return nil
		},
		"(*sync.RWMutex).RUnlock": func(st *State, fr *Frame, in *Instr, a []Value) Value {
			p := mustPtr(a[0])
			o := st.wobj(p.obj)
			if o.cells[p.off+1] == Value(Int(0)) {
				st.end("fatal", "fatal error: sync: RUnlock of unlocked RWMutex\n"+st.stackTrace())
				return nil
			}
			o.cells[p.off+1] = o.cells[p.off+1].(Int) - 1
			return nil
		},
		"(*sync.WaitGroup).Add": func(st *State, fr *Frame, in *Instr, a []Value) Value {
			p := mustPtr(a[0])
			o := st.wobj(p.obj)
			n := int64(uint64(o.cells[p.off].(Int))) + st.concInt(a[1], tiInt)
			if n < 0 {
				panic(goPanic{Iface{tiString, "sync: negative WaitGroup counter"}})
			}
			o.cells[p.off] = Int(uint64(n))
			return nil
		},
		"(*sync.WaitGroup).Done": func(st *State, fr *Frame, in *Instr, a []Value) Value {
			p := mustPtr(a[0])
			o := st.wobj(p.obj)
			n := int64(uint64(o.cells[p.off].(Int))) - 1
			if n < 0 {
				panic(goPanic{Iface{tiString, "sync: negative WaitGroup counter"}})
			}
			o.cells[p.off] = Int(uint64(n))
			return nil
		},
		"(*sync.WaitGroup).Wait": func(st *State, fr *Frame, in *Instr, a []Value) Value {
			if st.schedPoint() {
				return pending
			}
			p := mustPtr(a[0])
			if st.obj(p.obj).cells[p.off] != Value(Int(0)) {
				return blockOn(st, in, wWG, p)
			}
			return nil
		},
		"(*sync.Pool).Get": func(st *State, fr *Frame, in *Instr, a []Value) Value {
			p := mustPtr(a[0])
			cells := st.obj(p.obj).cells
			if l, ok := cells[p.off].(Agg); ok && len(l) > 0 {
				v := l[len(l)-1]
				st.wobj(p.obj).cells[p.off] = l[: len(l)-1 : len(l)-1]
				return v
			}
			nw, _ := cells[p.off+4].(*Closure)
			if nw == nil {
				return Iface{}
			}
			dst := int32(-1)
			if in != nil {
				dst = in.dst
			}
			st.callClosure(nw, nil, dst, nil)
			return pending
		},
		"(*sync.Pool).Put": func(st *State, fr *Frame, in *Instr, a []Value) Value {
			p := mustPtr(a[0])
			if a[1].(Iface).t == nil {
				return nil
			}
			o := st.wobj(p.obj)
			l, _ := o.cells[p.off].(Agg)
			o.cells[p.off] = append(l[:len(l):len(l)], a[1])
			return nil
		},
		"(*sync.noCopy).Lock": nop,

		"sync/atomic.AddInt32": atomicAdd(32), "sync/atomic.AddUint32": atomicAdd(32), "sync/atomic.AddInt64": atomicAdd(64), "sync/atomic.AddUint64": atomicAdd(64), "sync/atomic.AddUintptr": atomicAdd(64),
		"(*sync/atomic.Value).Load": atomicLoad,
		"(*sync/atomic.Value).Store": func(st *State, fr *Frame, in *Instr, a []Value) Value {
			return atomicStore(st, fr, in, a)
		},
		"(*sync/atomic.Value).Swap": atomicSwap,

		"time.now":              timeNow3,
		"time.runtimeNow":       timeNow3,
		"time.runtimeNano":      func(st *State, fr *Frame, in *Instr, a []Value) Value { return Int(uint64(st.clock + 1)) },
		"time.runtimeIsBubbled": func(st *State, fr *Frame, in *Instr, a []Value) Value { return false },
		"time.Now":              func(st *State, fr *Frame, in *Instr, a []Value) Value { return st.timeValue() },
		"time.Sleep":            timeSleep,
		"time.newTimer":         timeNewTimer,
		"time.stopTimer":        timeStop,
		"time.resetTimer":       timeReset,
		"time.syncTimer":        func(st *State, fr *Frame, in *Instr, a []Value) Value { return Ptr{} },
		"time.initLocal":        nop,
		"(*time.Location).get": func(st *State, fr *Frame, in *Instr, a []Value) Value {
			p := a[0].(Ptr)
			if p.obj == 0 || p == localLocPtr() {
				return Ptr{globalIDs[prog.ImportedPackage("time").Var("utcLoc")], 0}
			}
			return p
		},
		"time.runtimeNowUnsafe": nil,

		"os.Getenv": func(st *State, fr *Frame, in *Instr, a []Value) Value {
			if v, ok := st.env[st.mustStr(a[0])]; ok {
				return v
			}
			return ""
		},
		"os.LookupEnv": func(st *State, fr *Frame, in *Instr, a []Value) Value {
			if v, ok := st.env[st.mustStr(a[0])]; ok {
				return Tuple{v, true}
			}
			return Tuple{"", false}
		},
		"os.Setenv": func(st *State, fr *Frame, in *Instr, a []Value) Value {
			m := map[string]Value{}
			for k, v := range st.env {
				m[k] = v
			}
			m[st.mustStr(a[0])] = a[1]
			st.env = m
			return Iface{}
		},
		"os.Unsetenv": func(st *State, fr *Frame, in *Instr, a []Value) Value {
			m := map[string]Value{}
			for k, v := range st.env {
				m[k] = v
			}
			delete(m, st.mustStr(a[0]))
			st.env = m
			return Iface{}
		},
		"os.Exit": func(st *State, fr *Frame, in *Instr, a []Value) Value {
			st.end("exit", "os.Exit")
			panic(pathEnd{})
		},
		"(*os.File).Fd": func(st *State, fr *Frame, in *Instr, a []Value) Value {
			if fd, ok := fileFds[a[0].(Ptr)]; ok {
				return Int(fd)
			}
			return Int(99)
		},

		"internal/reflectlite.Swapper": func(st *State, fr *Frame, in *Instr, a []Value) Value {
			x := a[0].(Iface)
			return &Closure{fn: swapFn, binds: []Value{x}}
		},
		"github.com/google/uuid.New":       uuidNew,
		"github.com/google/uuid.NewString": nil,
	}
	for k, v := range intrinsics {
		if v == nil {
			delete(intrinsics, k)
		}
	}
	for _, t := range []string{"Int32", "Uint32", "Int64", "Uint64", "Uintptr", "Pointer"} {
		intrinsics["sync/atomic.Load"+t] = atomicLoad
		intrinsics["sync/atomic.Store"+t] = atomicStore
		intrinsics["sync/atomic.Swap"+t] = atomicSwap
		intrinsics["sync/atomic.CompareAndSwap"+t] = atomicCAS
	}
}

var swapFn = natFn("swap", func(st *State, fr *Frame, in *Instr, a []Value) Value {
	unsupported("swap closure")
	return nil
})

var fileFds = map[Ptr]int{}
var stdoutPtr, stderrPtr, stdinPtr Ptr

func (st *State) fileWrite(p Ptr, b []Value) {
	if st.capOn && p == stdoutPtr {
		st.capOut = append(st.capOut, b...)
	}
}

func (st *State) mustStr(v Value) string {
	if s, ok := v.(string); ok {
		return s
	}
	s, _ := st.concAll(v).(string)
	return s
}

func concF(v Value) float64 {
	switch x := v.(type) {
	case float64:
		return x
	case Int:
		return float64(x)
	}
	unsupported("symbolic float in a concrete-only math function")
	return 0
}
func concMath1(f func(float64) float64) Intrinsic {
	return func(st *State, fr *Frame, in *Instr, a []Value) Value { return f(concF(a[0])) }
}
func roundF(op Op, f func(float64) float64) Intrinsic {
	return func(st *State, fr *Frame, in *Instr, a []Value) Value {
		if x, ok := a[0].(float64); ok {
			return f(x)
		}
		return mk(op, wF64, 0, a[0].(*Term), nil, nil)
	}
}

func bytealgCount(st *State, fr *Frame, in *Instr, a []Value) Value {
	s, ok := st.concStr(a[0])
	c, ok2 := byteArg(a[1])
	if ok && ok2 {
		return Int(bytes.Count([]byte(s), []byte{c}))
	}
	return st.callModel("ModelCountByte", []Value{bytesOrStr(st, a[0]), a[1]}, in)
}
func bytealgCompare(st *State, fr *Frame, in *Instr, a []Value) Value {
	x, y := bytesOrStr(st, a[0]), bytesOrStr(st, a[1])
	s, ok := x.(string)
	t, ok2 := y.(string)
	if ok && ok2 {
		return Int(uint64(int64(strings.Compare(s, t))))
	}
	lt, gt := asTerm(strLess(x, y), 0), asTerm(strLess(y, x), 0)
	return fromTerm(tIte(lt, tConst(^uint64(0), 64), tIte(gt, tConst(1, 64), tConst(0, 64))))
}
func bytealgIndex(st *State, fr *Frame, in *Instr, a []Value) Value {
	x, y := bytesOrStr(st, a[0]), bytesOrStr(st, a[1])
	s, ok := x.(string)
	t, ok2 := y.(string)
	if ok && ok2 {
		return Int(uint64(int64(strings.Index(s, t))))
	}
	return st.callModel("ModelIndex", []Value{x, y}, in)
}

func goYield(st *State, in *Instr) Value { return nil }

func timeNow3(st *State, fr *Frame, in *Instr, a []Value) Value {
	ns := st.clock
	return Tuple{Int(uint64(baseSec + ns/1e9)), Int(uint64(ns % 1e9)), Int(uint64(ns + 1))}
}

func (st *State) addTimer(t *Timer) int {
	t.id = len(st.timers) + 1
	t.live = true
	st.timers = append(st.timers, t)
	return t.id
}

func timeSleep(st *State, fr *Frame, in *Instr, a []Value) Value {
	d := st.concInt(a[0], tiInt)
	if d <= 0 {
		return nil
	}
	id := st.addTimer(&Timer{when: st.clock + d, g: st.cur})
	st.block(Wait{kind: wSleep, timer: id})
	return pending
}

func timeNewTimer(st *State, fr *Frame, in *Instr, a []Value) Value {
	when := st.concInt(a[0], tiInt)
	period := st.concInt(a[1], tiInt)
	f, _ := a[2].(*Closure)
	arg := a[3].(Iface)
	// *time.Timer: struct{C <-chan Time; initTimer bool}
	ti := tinfo(prog.ImportedPackage("time").Type("Timer").Type())
	id := st.allocZero(ti)
	t := &Timer{when: when - 1, period: period, g: -1, ptr: Ptr{id, 0}}
	if f != nil && strings.HasSuffix(f.fn.name, "goFunc") {
		t.fn = arg.v.(*Closure)
	} else {
		switch c := arg.v.(type) {
		case ChanRef:
			t.ch = c
		default:
			unsupported("timer argument %T", arg.v)
		}
	}
	tid := st.addTimer(t)
	st.wobj(id).cells[1] = true
	_ = tid
	return Ptr{id, 0}
}
func (st *State) findTimer(p Ptr) *Timer {
	for _, t := range st.timers {
		if t.ptr == p && t.ptr.obj != 0 {
			return t
		}
	}
	return nil
}
func timeStop(st *State, fr *Frame, in *Instr, a []Value) Value {
	t := st.findTimer(a[0].(Ptr))
	if t == nil {
		return false
	}
	was := t.live
	t.live = false
	if t.ch != 0 {
		st.wobj(int32(t.ch)).c.buf = nil
	}
	return was
}
func timeReset(st *State, fr *Frame, in *Instr, a []Value) Value {
	t := st.findTimer(a[0].(Ptr))
	if t == nil {
		return false
	}
	was := t.live
	t.live = true
	t.when = st.concInt(a[1], tiInt) - 1
	t.period = st.concInt(a[2], tiInt)
	if t.ch != 0 {
		st.wobj(int32(t.ch)).c.buf = nil
	}
	return was
}

func uuidNew(st *State, fr *Frame, in *Instr, a []Value) Value {
	st.waitSeq++
	n := st.waitSeq
	out := make(Agg, 16)
	for i := range out {
		out[i] = Int(0)
	}
	out[6], out[8] = Int(0x40), Int(0x80)
	out[14], out[15] = Int(byte(n>>8)), Int(byte(n))
	return out
}

func (st *State) allStacks() string {
	var sb strings.Builder
	cur := st.cur
	for i, g := range st.gs {
		if g.status == gDone {
			continue
		}
		st.cur = i
		fmt.Fprintf(&sb, "  goroutine %d (wait %d):\n%s", i, g.wait.kind, st.stackTrace())
	}
	st.cur = cur
	return sb.String()
}

var _ = types.Typ
var _ *ssa.Function
