package main

import (
	"fmt"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Value is one of: Int, bool, float64, float32, *Term (symbolic scalar),
// string, *SymStr, Ptr, SymPtr, Slice, MapRef, ChanRef, *Closure, Iface, Agg,
// Tuple, complex128.
type Value = any

type Int uint64

type SymStr struct{ b []Value } // bytes: Int or *Term

type Ptr struct{ obj, off int32 }

// SymPtr addresses one of count cells obj[base+stride*idx]; idx symbolic (w=64).
type SymPtr struct {
	obj, base, stride, count int32
	idx                      *Term
}
type Slice struct{ obj, off, len, cap int32 }
type MapRef int32
type ChanRef int32
type Closure struct {
	fn    *Fn
	binds []Value
	nat   *ssa.Builtin
}
type Iface struct {
	t *TInfo
	v Value
}
type Agg []Value
type Tuple []Value

type TKind uint8

const (
	KInt TKind = iota
	KBool
	KF64
	KF32
	KC128
	KStr
	KPtr
	KUnsafe
	KSlice
	KMap
	KChan
	KFunc
	KIface
	KStruct
	KArray
	KTuple
	KOther
)

type FieldInfo struct {
	off int32
	ti  *TInfo
}

type TInfo struct {
	t      types.Type
	kind   TKind
	w      uint8
	signed bool
	size   int32
	elem_  *TInfo
	fields []FieldInfo
	n      int64
	zero   Value
	id     int
	mu     sync.Mutex
	mcache map[string]*Fn
	once   sync.Once
	canon  *TInfo
}

var tmu sync.RWMutex
var tcanon typeutil.Map // types.Type -> *TInfo
var tfast sync.Map      // types.Type pointer -> *TInfo
var tcount int

func tinfo(t types.Type) *TInfo {
	if v, ok := tfast.Load(t); ok {
		return v.(*TInfo)
	}
	tmu.Lock()
	defer tmu.Unlock()
	return tinfoL(t)
}

func tinfoL(t types.Type) *TInfo {
	if v, ok := tfast.Load(t); ok {
		return v.(*TInfo)
	}
	if v := tcanon.At(t); v != nil {
		ti := v.(*TInfo)
		tfast.Store(t, ti)
		return ti
	}
	ti := &TInfo{t: t, id: tcount}
	tcount++
	switch u := t.Underlying().(type) {
	case *types.Basic:
		ti.size = 1
		switch {
		case u.Kind() == types.UnsafePointer:
			ti.kind = KUnsafe
			ti.zero = Ptr{}
		case u.Info()&types.IsBoolean != 0:
			ti.kind = KBool
			ti.zero = false
		case u.Info()&types.IsInteger != 0:
			ti.kind = KInt
			ti.zero = Int(0)
			ti.w, ti.signed = intWidth(u)
		case u.Kind() == types.Float64 || u.Kind() == types.UntypedFloat:
			ti.kind = KF64
			ti.zero = float64(0)
		case u.Kind() == types.Float32:
			ti.kind = KF32
			ti.zero = float32(0)
		case u.Info()&types.IsComplex != 0:
			ti.kind = KC128
			ti.zero = complex128(0)
		case u.Info()&types.IsString != 0:
			ti.kind = KStr
			ti.zero = ""
		case u.Kind() == types.UntypedNil:
			ti.kind = KOther
			ti.zero = Ptr{}
		default:
			ti.kind = KOther
		}
	case *types.Pointer:
		ti.kind, ti.size, ti.zero = KPtr, 1, Ptr{}
	case *types.Slice:
		ti.kind, ti.size, ti.zero = KSlice, 1, Slice{}
	case *types.Map:
		ti.kind, ti.size, ti.zero = KMap, 1, MapRef(0)
	case *types.Chan:
		ti.kind, ti.size, ti.zero = KChan, 1, ChanRef(0)
	case *types.Signature:
		ti.kind, ti.size, ti.zero = KFunc, 1, (*Closure)(nil)
	case *types.Interface:
		ti.kind, ti.size, ti.zero = KIface, 1, Iface{}
	case *types.Struct:
		ti.kind = KStruct
		z := Agg{}
		for i := 0; i < u.NumFields(); i++ {
			f := tinfoL(u.Field(i).Type())
			ti.fields = append(ti.fields, FieldInfo{ti.size, f})
			ti.size += f.size
			z = f.appendZero(z)
		}
		ti.zero = z
	case *types.Array:
		ti.kind = KArray
		e := tinfoL(u.Elem())
		ti.elem_ = e
		ti.n = u.Len()
		ti.size = int32(int64(e.size) * u.Len())
		if ti.size < 1<<22 {
			z := make(Agg, 0, ti.size)
			for i := int64(0); i < u.Len(); i++ {
				z = e.appendZero(z)
			}
			ti.zero = z
		}
	case *types.Tuple:
		ti.kind = KTuple
	default:
		ti.kind = KOther
	}
	tcanon.Set(t, ti)
	tfast.Store(t, ti)
	return ti
}

func (ti *TInfo) appendZero(z Agg) Agg {
	if ti.kind == KStruct || ti.kind == KArray {
		return append(z, ti.zero.(Agg)...)
	}
	return append(z, ti.zero)
}

func (ti *TInfo) isAgg() bool { return ti.kind == KStruct || ti.kind == KArray }

// elem type for pointer, slice, array, chan, map value
func (ti *TInfo) elem() *TInfo {
	ti.once.Do(func() {
		switch u := ti.t.Underlying().(type) {
		case *types.Pointer:
			ti.elem_ = tinfo(u.Elem())
		case *types.Slice:
			ti.elem_ = tinfo(u.Elem())
		case *types.Chan:
			ti.elem_ = tinfo(u.Elem())
		case *types.Map:
			ti.elem_ = tinfo(u.Elem())
		}
	})
	return ti.elem_
}

func intWidth(u *types.Basic) (uint8, bool) {
	switch u.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	}
	return 64, false
}

func (ti *TInfo) String() string { return ti.t.String() }

// toTerm converts a scalar of the given type to a term.
func toTerm(v Value, ti *TInfo) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case Int:
		return tConst(uint64(x), ti.w)
	case bool:
		return tBool(x)
	case float64:
		return tF(x)
	}
	panic(fmt.Sprintf("toTerm %T", v))
}

func asTerm(v Value, w uint8) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case Int:
		return tConst(uint64(x), w)
	case bool:
		return tBool(x)
	case float64:
		return tF(x)
	}
	panic(fmt.Sprintf("asTerm %T", v))
}

// fromTerm turns constant terms back into concrete values.
func fromTerm(t *Term) Value {
	if t.op == OConst {
		switch t.w {
		case 0:
			return t.val == 1
		case wF64:
			return f64(t.val)
		}
		return Int(t.val)
	}
	return t
}

func strLen(v Value) int {
	switch x := v.(type) {
	case string:
		return len(x)
	case *SymStr:
		return len(x.b)
	}
	panic(fmt.Sprintf("strLen %T", v))
}

func strBytes(v Value) []Value {
	switch x := v.(type) {
	case string:
		b := make([]Value, len(x))
		for i := 0; i < len(x); i++ {
			b[i] = Int(x[i])
		}
		return b
	case *SymStr:
		return x.b
	}
	panic(fmt.Sprintf("strBytes %T", v))
}

func mkStr(b []Value) Value {
	for _, x := range b {
		if _, ok := x.(Int); !ok {
			return &SymStr{b}
		}
	}
	bs := make([]byte, len(b))
	for i, x := range b {
		bs[i] = byte(x.(Int))
	}
	return string(bs)
}

func strAt(v Value, i int) Value {
	switch x := v.(type) {
	case string:
		return Int(x[i])
	case *SymStr:
		return x.b[i]
	}
	panic("strAt")
}

func strSub(v Value, lo, hi int) Value {
	switch x := v.(type) {
	case string:
		return x[lo:hi]
	case *SymStr:
		return mkStr(x.b[lo:hi:hi])
	}
	panic("strSub")
}

func strCat(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
		if x == "" {
			return b
		}
	}
	if y, ok := b.(string); ok && y == "" {
		return a
	}
	ab, bb := strBytes(a), strBytes(b)
	out := make([]Value, 0, len(ab)+len(bb))
	out = append(out, ab...)
	out = append(out, bb...)
	return mkStr(out)
}

// strEq returns bool or *Term
func strEq(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x == y
		}
	}
	n := strLen(a)
	if n != strLen(b) {
		return false
	}
	r := tTrue
	for i := 0; i < n; i++ {
		r = tAnd(r, tEq(asTerm(strAt(a, i), 8), asTerm(strAt(b, i), 8)))
		if r == tFalse {
			return false
		}
	}
	return fromTerm(r)
}

func strLess(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x < y
		}
	}
	na, nb := strLen(a), strLen(b)
	n := min(na, nb)
	r := tBool(na < nb)
	for i := n - 1; i >= 0; i-- {
		x, y := asTerm(strAt(a, i), 8), asTerm(strAt(b, i), 8)
		r = tIte(tEq(x, y), r, tCmp(OUlt, x, y))
	}
	return fromTerm(r)
}

// valEq compares two values of the same type; result bool or *Term.
// The error string is non-empty when comparing uncomparable dynamic types.
func valEq(a, b Value, ti *TInfo) (Value, string) {
	switch ti.kind {
	case KInt, KBool:
		if x, ok := a.(*Term); ok {
			return fromTerm(tEq(x, asTerm(b, ti.w))), ""
		}
		if y, ok := b.(*Term); ok {
			return fromTerm(tEq(asTerm(a, ti.w), y)), ""
		}
		return a == b, ""
	case KF64:
		x, ok1 := a.(float64)
		y, ok2 := b.(float64)
		if ok1 && ok2 {
			return x == y, ""
		}
		return fromTerm(tFCmp(OFEq, asTerm(a, wF64), asTerm(b, wF64))), ""
	case KF32, KC128, KPtr, KUnsafe, KMap, KChan, KOther:
		return a == b, ""
	case KStr:
		return strEq(a, b), ""
	case KSlice:
		return a.(Slice).obj == 0 && b.(Slice).obj == 0, ""
	case KFunc:
		x, _ := a.(*Closure)
		y, _ := b.(*Closure)
		return x == nil && y == nil, ""
	case KIface:
		x, y := a.(Iface), b.(Iface)
		if x.t != y.t {
			return false, ""
		}
		if x.t == nil {
			return true, ""
		}
		if !types.Comparable(x.t.t) {
			return false, "comparing uncomparable type " + x.t.t.String()
		}
		return valEq(x.v, y.v, x.t)
	case KStruct:
		r := tTrue
		x, y := a.(Agg), b.(Agg)
		st := ti.t.Underlying().(*types.Struct)
		for i, f := range ti.fields {
			if st.Field(i).Name() == "_" {
				continue
			}
			e, s := valEq(sub(x, f.off, f.ti), sub(y, f.off, f.ti), f.ti)
			if s != "" {
				return false, s
			}
			r = tAnd(r, asTerm(e, 0))
			if r == tFalse {
				return false, ""
			}
		}
		return fromTerm(r), ""
	case KArray:
		r := tTrue
		x, y := a.(Agg), b.(Agg)
		for i := int64(0); i < ti.n; i++ {
			o := int32(i) * ti.elem_.size
			e, s := valEq(sub(x, o, ti.elem_), sub(y, o, ti.elem_), ti.elem_)
			if s != "" {
				return false, s
			}
			r = tAnd(r, asTerm(e, 0))
			if r == tFalse {
				return false, ""
			}
		}
		return fromTerm(r), ""
	}
	panic("valEq " + ti.String())
}

// sub extracts the value of type ti at leaf offset off of an aggregate.
func sub(a Agg, off int32, ti *TInfo) Value {
	if ti.isAgg() {
		return a[off : off+ti.size : off+ti.size]
	}
	return a[off]
}

// isConcrete reports whether v contains no symbolic scalars (shallow: does not
// follow pointers).
func isConcrete(v Value) bool {
	switch x := v.(type) {
	case *Term, *SymStr, SymPtr:
		return false
	case Agg:
		for _, y := range x {
			if !isConcrete(y) {
				return false
			}
		}
	case Tuple:
		for _, y := range x {
			if !isConcrete(y) {
				return false
			}
		}
	case Iface:
		return isConcrete(x.v)
	}
	return true
}

// hashKey yields a Go-comparable key for a concrete value.
func hashKey(v Value) (any, bool) {
	switch x := v.(type) {
	case Int, bool, string, Ptr, float64, float32, ChanRef, MapRef, complex128:
		return x, true
	case *Term, *SymStr:
		return nil, false
	case Iface:
		if x.t == nil {
			return Iface{}, true
		}
		k, ok := hashKey(x.v)
		if !ok {
			return nil, false
		}
		return Iface{x.t, k}, true
	case Agg:
		s := "agg:"
		for _, y := range x {
			k, ok := hashKey(y)
			if !ok {
				return nil, false
			}
			if f, isI := k.(Iface); isI && f.t != nil {
				s += fmt.Sprintf("I%d:%T%v|", f.t.id, f.v, f.v)
				continue
			}
			s += fmt.Sprintf("%T%q|", k, fmt.Sprint(k))
		}
		return s, true
	}
	return nil, false
}

// ---------------------------------------------------------------------------
// heap
// ---------------------------------------------------------------------------

type ownTok struct{ _ byte }

type Obj struct {
	owner *ownTok
	cells []Value
	m     *MapData
	c     *ChanData
}

const pageBits = 6
const pageSize = 1 << pageBits

type page struct {
	owner *ownTok
	objs  [pageSize]*Obj
}

type MapData struct {
	keys, vals []Value // vals flattened as Value (Agg for aggregates)
	live       []bool
	n          int
	index      map[any]int
	symKeys    bool
}

func (m *MapData) clone() *MapData {
	c := &MapData{keys: append([]Value(nil), m.keys...), vals: append([]Value(nil), m.vals...), live: append([]bool(nil), m.live...), n: m.n, symKeys: m.symKeys, index: make(map[any]int, len(m.index))}
	for k, v := range m.index {
		c.index[k] = v
	}
	return c
}

type ChanData struct {
	buf    []Value
	cap    int
	closed bool
	timer  int // >0: fed by timer id
}

func (st *State) obj(id int32) *Obj {
	if id <= 0 || int(id) > st.nobj {
		panic(fmt.Sprintf("bad object id %d", id))
	}
	return st.pages[id>>pageBits].objs[id&(pageSize-1)]
}

func (st *State) wobj(id int32) *Obj {
	if id < st.mergeBase {
		panic(mergeAbort{})
	}
	p := st.pages[id>>pageBits]
	if p.owner != st.tok {
		q := *p
		q.owner = st.tok
		p = &q
		st.pages[id>>pageBits] = p
	}
	o := p.objs[id&(pageSize-1)]
	if o.owner != st.tok {
		n := &Obj{owner: st.tok}
		if o.cells != nil {
			n.cells = append(make([]Value, 0, len(o.cells)), o.cells...)
		}
		if o.m != nil {
			n.m = o.m.clone()
		}
		if o.c != nil {
			c := *o.c
			c.buf = append([]Value(nil), c.buf...)
			n.c = &c
		}
		p.objs[id&(pageSize-1)] = n
		o = n
	}
	return o
}

func (st *State) newObj(o *Obj) int32 {
	st.nobj++
	id := st.nobj
	if id>>pageBits >= len(st.pages) {
		st.pages = append(st.pages, &page{owner: st.tok})
	}
	p := st.pages[id>>pageBits]
	if p.owner != st.tok {
		q := *p
		q.owner = st.tok
		p = &q
		st.pages[id>>pageBits] = p
	}
	o.owner = st.tok
	p.objs[id&(pageSize-1)] = o
	return int32(id)
}

func (st *State) allocCells(n int) int32 {
	return st.newObj(&Obj{cells: make([]Value, n)})
}

func (st *State) allocZero(ti *TInfo) int32 {
	c := make([]Value, 0, ti.size)
	if ti.isAgg() {
		c = append(c, ti.zero.(Agg)...)
	} else {
		c = append(c, ti.zero)
	}
	return st.newObj(&Obj{cells: c})
}

func (st *State) allocArray(e *TInfo, n int) int32 {
	c := make([]Value, 0, int(e.size)*n)
	for i := 0; i < n; i++ {
		c = e.appendZeroV(c)
	}
	return st.newObj(&Obj{cells: c})
}

func (ti *TInfo) appendZeroV(c []Value) []Value {
	if ti.isAgg() {
		return append(c, ti.zero.(Agg)...)
	}
	return append(c, ti.zero)
}

func (st *State) load(p Ptr, ti *TInfo) Value {
	o := st.obj(p.obj)
	if ti.isAgg() {
		return append(make(Agg, 0, ti.size), o.cells[p.off:p.off+ti.size]...)
	}
	return o.cells[p.off]
}

func (st *State) store(p Ptr, ti *TInfo, v Value) {
	if ti.size == 0 {
		return
	}
	o := st.wobj(p.obj)
	if ti.isAgg() {
		copy(o.cells[p.off:p.off+ti.size], v.(Agg))
		return
	}
	o.cells[p.off] = v
}

// bytesOf reads a []byte slice's cells.
func (st *State) sliceCells(s Slice) []Value {
	if s.len == 0 {
		return nil
	}
	return st.obj(s.obj).cells[s.off : s.off+s.len]
}

func (st *State) newBytes(b []Value) Slice {
	id := st.newObj(&Obj{cells: append([]Value(nil), b...)})
	return Slice{id, 0, int32(len(b)), int32(len(b))}
}

type mergeAbort struct{}
