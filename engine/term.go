package main

import (
	"fmt"
	"math"
	"math/bits"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
)

// ---------------------------------------------------------------------------
// Terms: hash-consed SMT terms over Bool (w==0), bit-vectors (w 1..64) and
// IEEE double (w==wF64).  Fixed-width integers are always bit-vectors, so Go's
// wrap-around semantics is kept exactly.
// ---------------------------------------------------------------------------

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OXorB // bool xor
	OIte
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLshr
	OAshr
	OZext
	OSext
	OExtract // val = lo ; w = width
	OConcat
	// floats
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFLt
	OFLe
	OFEq
	OFFromS // signed bv -> f64
	OFFromU
	OFToS // f64 -> signed bv, RTZ
	OFToU
	OFRoundD // roundToIntegral
	OFRoundU
	OFRoundZ
	OFRoundA
	OFSqrt
)

const wF64 = 200

type Term struct {
	op      Op
	w       uint8
	size    int32
	id      uint32
	val     uint64
	a, b, c *Term
	vars    []*Term // sorted by id
	name    string
}

type termKey struct {
	op      Op
	w       uint8
	val     uint64
	a, b, c uint32
}

const nShards = 64

type termShard struct {
	mu sync.Mutex
	m  map[termKey]*Term
}

var shards [nShards]termShard
var termCtr uint32 = 1

func mask(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext64(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

func tid(t *Term) uint32 {
	if t == nil {
		return 0
	}
	return t.id
}

func mk(op Op, w uint8, val uint64, a, b, c *Term) *Term {
	k := termKey{op, w, val, tid(a), tid(b), tid(c)}
	h := (uint64(k.a)*0x9E3779B1 + uint64(k.b)*0x85EBCA77 + uint64(k.c)*0xC2B2AE3D + uint64(op)*31 + val*0x27D4EB2F) >> 3
	sh := &shards[h%nShards]
	sh.mu.Lock()
	if t, ok := sh.m[k]; ok {
		sh.mu.Unlock()
		return t
	}
	if sh.m == nil {
		sh.m = map[termKey]*Term{}
	}
	t := &Term{op: op, w: w, val: val, a: a, b: b, c: c}
	t.id = atomic.AddUint32(&termCtr, 1)
	t.size = 1
	for _, x := range []*Term{a, b, c} {
		if x != nil {
			t.size += x.size
			if t.size > 1<<29 {
				t.size = 1 << 29
			}
		}
	}
	t.vars = mergeVars(a, b, c)
	sh.m[k] = t
	sh.mu.Unlock()
	return t
}

func mergeVars(ts ...*Term) []*Term {
	var out []*Term
	for _, t := range ts {
		if t == nil || len(t.vars) == 0 {
			continue
		}
		if out == nil {
			out = t.vars
			continue
		}
		out = unionVars(out, t.vars)
	}
	return out
}

func unionVars(x, y []*Term) []*Term {
	if len(x) == len(y) {
		same := true
		for i := range x {
			if x[i] != y[i] {
				same = false
				break
			}
		}
		if same {
			return x
		}
	}
	out := make([]*Term, 0, len(x)+len(y))
	i, j := 0, 0
	for i < len(x) && j < len(y) {
		switch {
		case x[i] == y[j]:
			out = append(out, x[i])
			i++
			j++
		case x[i].id < y[j].id:
			out = append(out, x[i])
			i++
		default:
			out = append(out, y[j])
			j++
		}
	}
	out = append(out, x[i:]...)
	out = append(out, y[j:]...)
	if len(out) == len(x) {
		return x
	}
	if len(out) == len(y) {
		return y
	}
	return out
}

func newVar(name string, w uint8) *Term {
	id := atomic.AddUint32(&termCtr, 1)
	t := &Term{op: OVar, w: w, id: id, val: uint64(id), size: 1, name: name}
	t.vars = []*Term{t}
	return t
}

var tTrue = mk(OConst, 0, 1, nil, nil, nil)
var tFalse = mk(OConst, 0, 0, nil, nil, nil)

func tBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}
func tConst(v uint64, w uint8) *Term { return mk(OConst, w, v&maskF(w), nil, nil, nil) }
func maskF(w uint8) uint64 {
	if w == wF64 {
		return ^uint64(0)
	}
	return mask(w)
}
func (t *Term) isConst() bool { return t.op == OConst }

// ---- boolean constructors ----
func tNot(a *Term) *Term {
	switch a.op {
	case OConst:
		return tBool(a.val == 0)
	case ONot:
		return a.a
	}
	return mk(ONot, 0, 0, a, nil, nil)
}
func tAnd(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.isConst() {
		if a.val == 0 {
			return tFalse
		}
		return b
	}
	if b.isConst() {
		if b.val == 0 {
			return tFalse
		}
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return tFalse
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OAnd, 0, 0, a, b, nil)
}
func tOr(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.isConst() {
		if a.val == 1 {
			return tTrue
		}
		return b
	}
	if b.isConst() {
		if b.val == 1 {
			return tTrue
		}
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return tTrue
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OOr, 0, 0, a, b, nil)
}
func tAndAll(ts []*Term) *Term {
	r := tTrue
	for _, t := range ts {
		r = tAnd(r, t)
	}
	return r
}

func tIte(c, a, b *Term) *Term {
	if c.isConst() {
		if c.val == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if c.op == ONot {
		return tIte(c.a, b, a)
	}
	if a.w == 0 {
		if a.isConst() {
			if a.val == 1 {
				return tOr(c, b)
			}
			return tAnd(tNot(c), b)
		}
		if b.isConst() {
			if b.val == 1 {
				return tOr(tNot(c), a)
			}
			return tAnd(c, a)
		}
	}
	if a.op == OIte && a.a == c {
		a = a.b
	}
	if b.op == OIte && b.a == c {
		b = b.c
	}
	if a == b {
		return a
	}
	if b.op == OIte && b.b == a {
		return tIte(tOr(c, b.a), a, b.c)
	}
	return mk(OIte, a.w, 0, c, a, b)
}

func iteConstLeaves(t *Term, depth int) bool {
	if t.isConst() {
		return true
	}
	if t.op != OIte || depth == 0 {
		return false
	}
	return iteConstLeaves(t.b, depth-1) && iteConstLeaves(t.c, depth-1)
}

// push a unary function into an ite whose leaves are constants
func pushIte(t *Term, f func(*Term) *Term) *Term {
	if t.op == OIte {
		return tIte(t.a, pushIte(t.b, f), pushIte(t.c, f))
	}
	return f(t)
}

func tEq(a, b *Term) *Term {
	if a == b {
		if a.w == wF64 {
			panic("tEq on float")
		}
		return tTrue
	}
	if a.isConst() && b.isConst() {
		return tBool(a.val == b.val)
	}
	if a.w == 0 {
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 1 {
				return a
			}
			return tNot(a)
		}
		if a.id > b.id {
			a, b = b, a
		}
		return mk(OEq, 0, 0, a, b, nil)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.op == OIte && (a.b.isConst() || a.c.isConst()) && iteConstLeaves(a, 24) {
			return pushIte(a, func(x *Term) *Term { return tEq(x, b) })
		}
		if a.op == OZext {
			if b.val > mask(a.a.w) {
				return tFalse
			}
			return tEq(a.a, tConst(b.val, a.a.w))
		}
		if a.op == OSext {
			lo := b.val & mask(a.a.w)
			if uint64(sext64(lo, a.a.w))&mask(a.w) != b.val {
				return tFalse
			}
			return tEq(a.a, tConst(lo, a.a.w))
		}
		if a.op == OAdd && a.b.isConst() {
			return tEq(a.a, tConst(b.val-a.b.val, a.w))
		}
		if a.op == OSub && a.b.isConst() {
			return tEq(a.a, tConst(b.val+a.b.val, a.w))
		}
	}
	if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return tEq(a.a, b.a)
	}
	if a.op == OSext && b.op == OSext && a.a.w == b.a.w {
		return tEq(a.a, b.a)
	}
	if x, y := balance(OEq, a, b); !(x == a && y == b || x == b && y == a) {
		return tEq(x, y)
	}
	if a.id > b.id && !b.isConst() {
		a, b = b, a
	}
	return mk(OEq, 0, 0, a, b, nil)
}

func cmpFold(op Op, a, b uint64, w uint8) bool {
	switch op {
	case OUlt:
		return a < b
	case OUle:
		return a <= b
	case OSlt:
		return sext64(a, w) < sext64(b, w)
	case OSle:
		return sext64(a, w) <= sext64(b, w)
	}
	panic("cmp")
}

// cmpDiv compares a quotient with a constant by its dividend.
func cmpDiv(op Op, a, b *Term) *Term {
	quo := func(t *Term) (*Term, int64, bool) {
		if t.op == OSDiv && t.b.isConst() {
			if d := sext64(t.b.val, t.b.w); t.w == 64 && d > 0 && d < 1<<30 {
				return t.a, d, true
			}
		}
		return nil, 0, false
	}
	const lim = 1 << 30
	// x/d <= n
	le := func(x *Term, d, n int64) *Term {
		m := n * d
		if n >= 0 {
			m += d - 1
		}
		return tCmp(OSle, x, tConst(uint64(m), x.w))
	}
	if b.isConst() {
		if x, d, ok := quo(a); ok {
			n := sext64(b.val, b.w)
			if n <= -lim || n >= lim {
				return nil
			}
			if op == OSlt {
				n--
			}
			return le(x, d, n)
		}
	} else if a.isConst() {
		if x, d, ok := quo(b); ok {
			n := sext64(a.val, a.w)
			if n <= -lim || n >= lim {
				return nil
			}
			if op == OSle {
				n--
			}
			return tNot(le(x, d, n))
		}
	}
	return nil
}

func tCmp(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tBool(cmpFold(op, a.val, b.val, a.w))
	}
	if a == b {
		return tBool(op == OUle || op == OSle)
	}
	if b.isConst() && a.op == OIte && iteConstLeaves(a, 24) {
		return pushIte(a, func(x *Term) *Term { return tCmp(op, x, b) })
	}
	if a.isConst() && b.op == OIte && iteConstLeaves(b, 24) {
		return pushIte(b, func(x *Term) *Term { return tCmp(op, a, x) })
	}
	if op == OSlt || op == OSle {
		if b.isConst() && a.op == OIte && (a.b.isConst() || a.c.isConst()) && a.size < 400 {
			return tIte(a.a, tCmp(op, a.b, b), tCmp(op, a.c, b))
		}
		if a.isConst() && b.op == OIte && (b.b.isConst() || b.c.isConst()) && b.size < 400 {
			return tIte(b.a, tCmp(op, a, b.b), tCmp(op, a, b.c))
		}
		if t := cmpDiv(op, a, b); t != nil {
			return t
		}
	}
	// interval reasoning (context free)
	switch op {
	case OUlt, OUle:
		al, ah := a.urange()
		bl, bh := b.urange()
		if op == OUlt {
			if ah < bl {
				return tTrue
			}
			if al >= bh {
				return tFalse
			}
		} else {
			if ah <= bl {
				return tTrue
			}
			if al > bh {
				return tFalse
			}
		}
	case OSlt, OSle:
		al, ah := a.srange()
		bl, bh := b.srange()
		if op == OSlt {
			if ah < bl {
				return tTrue
			}
			if al >= bh {
				return tFalse
			}
		} else {
			if ah <= bl {
				return tTrue
			}
			if al > bh {
				return tFalse
			}
		}
	}
	if op == OSlt || op == OSle {
		if x, y := balance(op, a, b); x != a || y != b {
			return tCmp(op, x, y)
		}
	}
	// narrow zext/sext comparisons
	if op == OSlt || op == OSle {
		uop := OUlt
		if op == OSle {
			uop = OUle
		}
		if a.op == OZext && a.a.w < a.w {
			if b.op == OZext && b.a.w == a.a.w {
				return tCmp(uop, a.a, b.a)
			}
			if b.isConst() {
				v := sext64(b.val, b.w)
				if v >= 0 && uint64(v) <= mask(a.a.w) {
					return tCmp(uop, a.a, tConst(uint64(v), a.a.w))
				}
			}
		}
		if b.op == OZext && b.a.w < b.w && a.isConst() {
			v := sext64(a.val, a.w)
			if v >= 0 && uint64(v) <= mask(b.a.w) {
				return tCmp(uop, tConst(uint64(v), b.a.w), b.a)
			}
		}
		if a.op == OSext && b.isConst() {
			v := sext64(b.val, b.w)
			if v == sext64(uint64(v)&mask(a.a.w), a.a.w) {
				return tCmp(op, a.a, tConst(uint64(v), a.a.w))
			}
		}
		if b.op == OSext && a.isConst() {
			v := sext64(a.val, a.w)
			if v == sext64(uint64(v)&mask(b.a.w), b.a.w) {
				return tCmp(op, tConst(uint64(v), b.a.w), b.a)
			}
		}
		if a.op == OSext && b.op == OSext && a.a.w == b.a.w {
			return tCmp(op, a.a, b.a)
		}
	} else {
		if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
			return tCmp(op, a.a, b.a)
		}
		if a.op == OZext && b.isConst() && b.val <= mask(a.a.w) {
			return tCmp(op, a.a, tConst(b.val, a.a.w))
		}
		if b.op == OZext && a.isConst() && a.val <= mask(b.a.w) {
			return tCmp(op, tConst(a.val, b.a.w), b.a)
		}
	}
	// canonicalise: not(a<b) handled by tNot; x<=y as not(y<x)
	switch op {
	case OUle:
		return tNot(tCmp(OUlt, b, a))
	case OSle:
		return tNot(tCmp(OSlt, b, a))
	}
	return mk(op, 0, 0, a, b, nil)
}

// unsigned range, context free
func (t *Term) urange() (uint64, uint64) {
	switch t.op {
	case OConst:
		return t.val, t.val
	case OZext:
		return t.a.urange()
	case OExtract:
		if l, h, ok := remainder(t.a); ok && l >= 0 && uint64(h) <= mask(t.w) {
			return uint64(l), uint64(h)
		}
	case OIte:
		if t.size > 400 {
			return 0, mask(t.w)
		}
		l1, h1 := t.b.urange()
		l2, h2 := t.c.urange()
		return min(l1, l2), max(h1, h2)
	case OBAnd:
		_, h1 := t.a.urange()
		_, h2 := t.b.urange()
		return 0, min(h1, h2)
	case OAdd:
		if t.size > 400 {
			return 0, mask(t.w)
		}
		l1, h1 := t.a.urange()
		l2, h2 := t.b.urange()
		s, c := bits.Add64(h1, h2, 0)
		if c == 0 && s <= mask(t.w) {
			return l1 + l2, s
		}
	case OMul:
		if t.size > 400 {
			return 0, mask(t.w)
		}
		_, h1 := t.a.urange()
		_, h2 := t.b.urange()
		hi, lo := bits.Mul64(h1, h2)
		if hi == 0 && lo <= mask(t.w) {
			return 0, lo
		}
	case OURem:
		if t.b.isConst() && t.b.val > 0 {
			return 0, t.b.val - 1
		}
	case OUDiv:
		if t.b.isConst() && t.b.val > 0 {
			l, h := t.a.urange()
			return l / t.b.val, h / t.b.val
		}
	case OLshr:
		if t.b.isConst() && t.b.val < 64 {
			l, h := t.a.urange()
			return l >> t.b.val, h >> t.b.val
		}
	}
	return 0, mask(t.w)
}
func (t *Term) srange() (int64, int64) {
	lo, hi := sext64(uint64(1)<<(t.w-1), t.w), int64(mask(t.w)>>1)
	switch t.op {
	case OConst:
		v := sext64(t.val, t.w)
		return v, v
	case OSext:
		return t.a.srange()
	case OZext:
		if t.a.w < t.w {
			l, h := t.a.urange()
			return int64(l), int64(h)
		}
	case OIte:
		if t.size > 400 {
			return lo, hi
		}
		l1, h1 := t.b.srange()
		l2, h2 := t.c.srange()
		if t.w == 64 && t.size <= 150 {
			l1, h1 = within(t.a, t.b, true, l1, h1)
			l2, h2 = within(t.a, t.c, false, l2, h2)
		}
		return min(l1, l2), max(h1, h2)
	case OAdd, OSub:
		if t.size > 400 {
			return lo, hi
		}
		if l, h, ok := remainder(t); ok {
			return l, h
		}
		l1, h1 := t.a.srange()
		l2, h2 := t.b.srange()
		if t.op == OSub {
			if l2 == math.MinInt64 {
				return lo, hi
			}
			l2, h2 = -h2, -l2
		}
		const lim = int64(1) << 61
		if l1 > -lim && l2 > -lim && h1 < lim && h2 < lim {
			l, h := l1+l2, h1+h2
			if l >= lo && h <= hi {
				return l, h
			}
		}
	case OMul:
		if t.size > 400 {
			return lo, hi
		}
		l1, h1 := t.a.srange()
		l2, h2 := t.b.srange()
		const lim = int64(1) << 30
		if l1 > -lim && l2 > -lim && h1 < lim && h2 < lim {
			l := min(l1*l2, l1*h2, h1*l2, h1*h2)
			h := max(l1*l2, l1*h2, h1*l2, h1*h2)
			if l >= lo && h <= hi {
				if t.a == t.b && l < 0 {
					l = 0
				}
				return l, h
			}
		}
	case OSDiv:
		if t.b.isConst() && t.size <= 400 {
			if d := sext64(t.b.val, t.w); d > 0 {
				l, h := t.a.srange()
				return l / d, h / d
			}
		}
	case OSRem:
		if t.b.isConst() && t.size <= 400 {
			if d := sext64(t.b.val, t.w); d > 0 {
				l, h := t.a.srange()
				if l >= 0 {
					return 0, min(h, d-1)
				}
				return -(d - 1), d - 1
			}
		}
	case OBAnd, OURem, OLshr, OUDiv:
		l, h := t.urange()
		if h <= uint64(hi) {
			return int64(l), int64(h)
		}
	}
	return lo, hi
}

// remainder is the range of a sum with a remainder x - (x/c)*c in it.
func remainder(t *Term) (int64, int64, bool) {
	if t.op != OAdd && t.op != OSub {
		return 0, 0, false
	}
	if t.w < 16 || t.w > 64 || t.size > 400 {
		return 0, 0, false
	}
	div := false
	for _, u := range []*Term{t, t.a, t.b} {
		for _, v := range []*Term{u.a, u.b} {
			div = div || v != nil && v.op == OMul && (v.a.op == OUDiv || v.a.op == OSDiv)
		}
	}
	if !div {
		return 0, 0, false
	}
	var l lin
	l.add(t, 1)
	for i, d := range l.ts {
		if d.op != OUDiv && d.op != OSDiv || !d.b.isConst() {
			continue
		}
		c, k := sext64(d.b.val, t.w), sext64(l.cs[i], t.w)
		if c < 2 || c > 1<<30 || k < -(1<<30) || k > 1<<30 || k%c != 0 {
			continue
		}
		m := -k / c
		rest := lin{k: l.k}
		for j, u := range l.ts {
			if j != i {
				rest.add(u, l.cs[j])
			}
		}
		rest.add(d.a, uint64(-m)&mask(t.w))
		if len(rest.ts) != 0 {
			continue
		}
		lo, hi := int64(0), c-1
		if d.op == OSDiv {
			if l, _ := d.a.srange(); l < 0 {
				lo = -hi
			}
		}
		lo, hi = min(m*lo, m*hi), max(m*lo, m*hi)
		off := sext64(rest.k, t.w)
		if off < -(1<<30) || off > 1<<30 {
			continue
		}
		lo, hi = lo+off, hi+off
		if min, max := sext64(uint64(1)<<(t.w-1), t.w), int64(mask(t.w)>>1); lo < min || hi > max {
			continue
		}
		return lo, hi, true
	}
	return 0, 0, false
}

// within narrows the range of a difference (or a variable) by a comparison of
// the same numbers that holds or does not hold.
func within(c, t *Term, holds bool, lo, hi int64) (int64, int64) {
	for c.op == ONot {
		c, holds = c.a, !holds
	}
	if c.op != OSlt && c.op != OSle || c.a.w != 64 || t.isConst() {
		return lo, hi
	}
	const lim = int64(1) << 50
	la, ha := c.a.srange()
	lb, hb := c.b.srange()
	if la < -lim || lb < -lim || ha > lim || hb > lim || lo < -lim || hi > lim {
		return lo, hi
	}
	// d = a-b, of which the sign is known
	for _, sign := range []uint64{1, mask(64)} {
		var l lin
		l.add(t, 1)
		l.add(c.a, -sign)
		l.add(c.b, sign)
		if len(l.ts) != 0 {
			continue
		}
		k := int64(l.k) // t = k + sign*d
		if k < -lim || k > lim {
			continue
		}
		// holds: d <= -1 (or 0); does not hold: d >= 0 (or 1)
		up := !holds
		e := int64(0)
		if up && c.op == OSle {
			e = 1
		} else if !up && c.op == OSlt {
			e = -1
		}
		if sign == 1 {
			e += k
		} else {
			e, up = k-e, !up
		}
		if up {
			lo = max(lo, e)
		} else {
			hi = min(hi, e)
		}
		if lo > hi {
			lo = hi // never
		}
	}
	return lo, hi
}

func foldBin(op Op, a, b uint64, w uint8) (uint64, bool) {
	m := mask(w)
	switch op {
	case OAdd:
		return (a + b) & m, true
	case OSub:
		return (a - b) & m, true
	case OMul:
		return (a * b) & m, true
	case OUDiv:
		if b == 0 {
			return 0, false
		}
		return a / b, true
	case OURem:
		if b == 0 {
			return 0, false
		}
		return a % b, true
	case OSDiv:
		if b == 0 {
			return 0, false
		}
		x, y := sext64(a, w), sext64(b, w)
		if y == -1 {
			return uint64(-x) & m, true
		}
		return uint64(x/y) & m, true
	case OSRem:
		if b == 0 {
			return 0, false
		}
		x, y := sext64(a, w), sext64(b, w)
		if y == -1 {
			return 0, true
		}
		return uint64(x%y) & m, true
	case OBAnd:
		return a & b, true
	case OBOr:
		return a | b, true
	case OBXor:
		return a ^ b, true
	case OShl:
		if b >= uint64(w) {
			return 0, true
		}
		return (a << b) & m, true
	case OLshr:
		if b >= uint64(w) {
			return 0, true
		}
		return a >> b, true
	case OAshr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sext64(a, w)>>b) & m, true
	}
	panic(fmt.Sprint("foldBin ", op))
}

func tBin(op Op, a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() {
		if v, ok := foldBin(op, a.val, b.val, w); ok {
			return tConst(v, w)
		}
	}
	switch op {
	case OAdd, OMul, OBAnd, OBOr, OBXor:
		if a.isConst() {
			a, b = b, a
		} else if !b.isConst() && a.id > b.id {
			a, b = b, a
		}
	}
	if b.isConst() {
		switch op {
		case OAdd:
			if b.val == 0 {
				return a
			}
			if a.op == OAdd && a.b.isConst() {
				return tBin(OAdd, a.a, tConst(a.b.val+b.val, w))
			}
		case OSub:
			if b.val == 0 {
				return a
			}
			return tBin(OAdd, a, tConst(-b.val, w))
		case OMul:
			if b.val == 0 {
				return b
			}
			if b.val == 1 {
				return a
			}
		case OUDiv, OSDiv:
			if b.val == 1 {
				return a
			}
		case OBAnd:
			if b.val == 0 {
				return b
			}
			if b.val == mask(w) {
				return a
			}
			if a.op == OZext && mask(a.a.w)&b.val == mask(a.a.w) {
				return a
			}
			if a.op == OZext && b.val <= mask(a.a.w) {
				return tZext(tBin(OBAnd, a.a, tConst(b.val, a.a.w)), w)
			}
		case OBOr, OBXor, OShl, OLshr, OAshr:
			if b.val == 0 {
				return a
			}
			if op == OShl || op == OLshr {
				if b.val >= uint64(w) {
					return tConst(0, w)
				}
			}
		}
		if a.op == OIte && iteConstLeaves(a, 12) {
			if !((op == OUDiv || op == OURem || op == OSDiv || op == OSRem) && b.val == 0) {
				return pushIte(a, func(x *Term) *Term { return tBin(op, x, b) })
			}
		}
	}
	if op == OSub && a == b {
		return tConst(0, w)
	}
	if op == OBAnd && a == b || op == OBOr && a == b {
		return a
	}
	if (op == OAdd || op == OSub) && a.op == OExtract && b.isConst() {
		if l, h, ok := remainder(a.a); ok {
			v := sext64(b.val, w)
			if op == OSub {
				v = -v
			}
			if l >= 0 && uint64(h) <= mask(w) && l+v >= 0 && uint64(h+v) <= mask(w) {
				s := tBin(OAdd, a.a, tConst(uint64(v), a.a.w))
				if _, _, ok := remainder(s); ok {
					return mk(OExtract, w, 0, s, nil, nil)
				}
			}
		}
	}
	if (op == OAdd || op == OSub) && linear(a, b) {
		var l lin
		l.add(a, 1)
		if op == OAdd {
			l.add(b, 1)
		} else {
			l.add(b, mask(w))
		}
		return l.term(w)
	}
	return mk(op, w, 0, a, b, nil)
}

// lin is a sum of terms with coefficients, modulo 2^w.
type lin struct {
	ts []*Term // sorted by id
	cs []uint64
	k  uint64
}

// linear tells if ordering the summands of two terms is worth it.
func linear(a, b *Term) bool {
	sum := func(t *Term) bool { return t.op == OAdd || t.op == OSub }
	return a.w >= 16 && a.w <= 64 && a.size+b.size <= 200 && (sum(a) || sum(b))
}

func (l *lin) add(t *Term, c uint64) {
	m := mask(t.w)
	switch t.op {
	case OConst:
		l.k = (l.k + c*t.val) & m
		return
	case OAdd:
		l.add(t.a, c)
		l.add(t.b, c)
		return
	case OSub:
		l.add(t.a, c)
		l.add(t.b, -c&m)
		return
	case OMul:
		if t.b.isConst() {
			l.add(t.a, c*t.b.val&m)
			return
		}
	}
	i := sort.Search(len(l.ts), func(i int) bool { return l.ts[i].id >= t.id })
	if i < len(l.ts) && l.ts[i] == t {
		l.cs[i] = (l.cs[i] + c) & m
		if l.cs[i] == 0 {
			l.ts = append(l.ts[:i], l.ts[i+1:]...)
			l.cs = append(l.cs[:i], l.cs[i+1:]...)
		}
		return
	}
	l.ts = append(l.ts, nil)
	l.cs = append(l.cs, 0)
	copy(l.ts[i+1:], l.ts[i:])
	copy(l.cs[i+1:], l.cs[i:])
	l.ts[i], l.cs[i] = t, c
}

// sides are the summands with positive and with negative coefficients.
func (l *lin) sides(w uint8) (pos, neg *Term) {
	put := func(s *Term, t *Term, c uint64) *Term {
		if c != 1 {
			t = mk(OMul, w, 0, t, tConst(c, w), nil)
		}
		if s == nil {
			return t
		}
		return mk(OAdd, w, 0, s, t, nil)
	}
	for i, t := range l.ts {
		if sext64(l.cs[i], w) > 0 {
			pos = put(pos, t, l.cs[i])
		} else {
			neg = put(neg, t, -l.cs[i]&mask(w))
		}
	}
	return
}

func (l *lin) term(w uint8) *Term {
	pos, neg := l.sides(w)
	k := tConst(l.k, w)
	switch {
	case pos == nil && neg == nil:
		return k
	case pos == nil:
		return mk(OSub, w, 0, k, neg, nil)
	case neg != nil:
		pos = mk(OSub, w, 0, pos, neg, nil)
	}
	if l.k != 0 {
		pos = mk(OAdd, w, 0, pos, k, nil)
	}
	return pos
}

// balance brings a comparison of sums to one without common summands.
func balance(op Op, a, b *Term) (*Term, *Term) {
	if !linear(a, b) {
		return a, b
	}
	var l lin
	l.add(a, 1)
	l.add(b, mask(a.w))
	if op != OEq {
		// No side may overflow.
		const lim = int64(1) << 50
		if a.w < 64 {
			return a, b
		}
		for _, t := range []*Term{a, b} {
			if lo, hi := t.srange(); lo < -lim || hi > lim {
				return a, b
			}
		}
		k := sext64(l.k, a.w)
		if k < -lim || k > lim || len(l.ts) > 100 {
			return a, b
		}
		for i, t := range l.ts {
			lo, hi := t.srange()
			c := sext64(l.cs[i], a.w)
			if lo < -(1<<30) || hi > 1<<30 || c < -(1<<20) || c > 1<<20 {
				return a, b
			}
		}
	}
	pos, neg := l.sides(a.w)
	if pos == nil {
		pos = tConst(0, a.w)
	}
	if neg == nil {
		neg = tConst(0, a.w)
	}
	switch k := sext64(l.k, a.w); {
	case k == 0:
	case neg.isConst():
		neg = tConst(-l.k, a.w)
	case pos.isConst():
		pos = tConst(l.k, a.w)
	case k > 0:
		pos = mk(OAdd, a.w, 0, pos, tConst(l.k, a.w), nil)
	default:
		neg = mk(OAdd, a.w, 0, neg, tConst(-l.k, a.w), nil)
	}
	return pos, neg
}

// narrowTo is a term cut to w bits, if all of its parts come from terms of at
// most w bits.
func narrowTo(t *Term, w uint8, depth int) *Term {
	if depth == 0 {
		return nil
	}
	switch t.op {
	case OConst:
		return tConst(t.val, w)
	case OZext, OSext:
		if t.a.w <= w {
			return tTrunc(t, w)
		}
		return narrowTo(t.a, w, depth-1)
	case OAdd, OSub, OIte, OSDiv, OSRem:
		if t.op == OSDiv || t.op == OSRem {
			lo, hi := t.a.srange()
			d := sext64(t.b.val, t.b.w)
			if !t.b.isConst() || d <= 0 || d > 1<<30 || needBits(min(lo, -d), max(hi, d)) > w {
				return nil
			}
		}
		if t.op == OIte {
			x, y := narrowTo(t.b, w, depth-1), narrowTo(t.c, w, depth-1)
			if x == nil || y == nil {
				return nil
			}
			return tIte(t.a, x, y)
		}
		x := narrowTo(t.a, w, depth-1)
		if x == nil {
			return nil
		}
		y := narrowTo(t.b, w, depth-1)
		if y == nil {
			return nil
		}
		return mk(t.op, w, 0, x, y, nil)
	case OMul:
		if t.b.isConst() {
			if x := narrowTo(t.a, w, depth-1); x != nil {
				return mk(OMul, w, 0, x, tConst(t.b.val, w), nil)
			}
		}
	}
	return nil
}

// narrowed is an equal term that computes in fewer bits, or nil.
func narrowed(t *Term) *Term {
	if t.a == nil || t.a.w != 64 || t.size > 400 {
		return nil
	}
	switch t.op {
	case OSDiv, OSRem:
		if !t.b.isConst() {
			return nil
		}
	case OEq, OSlt, OSle:
	default:
		return nil
	}
	l1, h1 := t.a.srange()
	l2, h2 := t.b.srange()
	const lim = 1 << 40
	if l1 < -lim || l2 < -lim || h1 > lim || h2 > lim {
		return nil
	}
	w := needBits(min(l1, l2), max(h1, h2))
	if t.op == OSDiv || t.op == OSRem {
		if l2 <= 0 {
			return nil
		}
		w = needBits(min(l1, -l2), max(h1, l2))
	}
	x := narrowTo(t.a, w, 60)
	if x == nil {
		return nil
	}
	y := narrowTo(t.b, w, 60)
	if y == nil {
		return nil
	}
	r := mk(t.op, b2w(t.w, w), 0, x, y, nil)
	if t.w == 0 {
		return r
	}
	return tSext(r, 64)
}

func b2w(t, w uint8) uint8 {
	if t == 0 {
		return 0
	}
	return w
}

func tBNot(a *Term) *Term {
	if a.isConst() {
		return tConst(^a.val, a.w)
	}
	return mk(OBNot, a.w, 0, a, nil, nil)
}
func tNeg(a *Term) *Term {
	if a.isConst() {
		return tConst(-a.val, a.w)
	}
	return tBin(OSub, tConst(0, a.w), a)
}
func tZext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return tConst(a.val, w)
	}
	if a.op == OZext {
		return tZext(a.a, w)
	}
	if a.op == OIte && iteConstLeaves(a, 12) {
		return pushIte(a, func(x *Term) *Term { return tZext(x, w) })
	}
	if a.op == OExtract && (a.a.op == OAdd || a.a.op == OSub) {
		if l, h, ok := remainder(a.a); ok && l >= 0 && uint64(h) <= mask(a.w) {
			if a.a.w > w {
				return tTrunc(a.a, w)
			}
			return tZext(a.a, w)
		}
	}
	return mk(OZext, w, 0, a, nil, nil)
}
func tSext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return tConst(uint64(sext64(a.val, a.w)), w)
	}
	if a.op == OZext && a.a.w < a.w {
		return tZext(a.a, w)
	}
	if a.op == OSext {
		return tSext(a.a, w)
	}
	if a.op == OIte && iteConstLeaves(a, 12) {
		return pushIte(a, func(x *Term) *Term { return tSext(x, w) })
	}
	return mk(OSext, w, 0, a, nil, nil)
}

// tTrunc extracts the low w bits
func tTrunc(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return tConst(a.val, w)
	}
	switch a.op {
	case OZext, OSext:
		if a.a.w == w {
			return a.a
		}
		if a.a.w > w {
			return tTrunc(a.a, w)
		}
		if a.op == OZext {
			return tZext(a.a, w)
		}
		return tSext(a.a, w)
	case OIte:
		if a.size < 200 {
			return tIte(a.a, tTrunc(a.b, w), tTrunc(a.c, w))
		}
	case OAdd, OSub, OMul, OBAnd, OBOr, OBXor:
		if w < 16 && (a.op == OAdd || a.op == OSub) {
			if l, h, ok := remainder(a); ok && l >= 0 && uint64(h) <= mask(w) {
				break
			}
		}
		if a.size < 60 {
			return tBin(a.op, tTrunc(a.a, w), tTrunc(a.b, w))
		}
	}
	return mk(OExtract, w, 0, a, nil, nil)
}

// ---- float ----
func f64(v uint64) float64 { return math.Float64frombits(v) }
func tF(v float64) *Term   { return tConst(math.Float64bits(v), wF64) }
func tFBin(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		x, y := f64(a.val), f64(b.val)
		switch op {
		case OFAdd:
			return tF(x + y)
		case OFSub:
			return tF(x - y)
		case OFMul:
			return tF(x * y)
		case OFDiv:
			return tF(x / y)
		}
	}
	if x, l1, h1, ok := exactInt(a); ok && op != OFDiv {
		if y, l2, h2, ok := exactInt(b); ok {
			if t := exactOp(op, x, y, l1, h1, l2, h2); t != nil {
				return t
			}
		}
	}
	return mk(op, wF64, 0, a, b, nil)
}

// exactInt: the float is an integer below 2^52, so that sums, differences and
// products that stay below are exact (but for the sign of a zero, which only a
// division or a printing of it could tell).
func exactInt(t *Term) (*Term, int64, int64, bool) {
	const lim = int64(1) << 52
	switch t.op {
	case OConst:
		v := f64(t.val)
		if v == math.Trunc(v) && math.Abs(v) < float64(lim) {
			n := int64(v)
			return tConst(uint64(n), needBits(n, n)), n, n, true
		}
	case OFFromS, OFFromU:
		x := t.a
		if t.op == OFFromU {
			if x.w > 60 {
				return nil, 0, 0, false
			}
			x = tZext(x, x.w+1)
		}
		lo, hi := x.srange()
		if lo > -lim && hi < lim {
			if n := needBits(lo, hi); n < x.w && (x.op == OZext || x.op == OSext) {
				x = tTrunc(x, n)
			}
			return x, lo, hi, true
		}
	case OIte:
		if t.size > 400 {
			return nil, 0, 0, false
		}
		x, l1, h1, ok := exactInt(t.b)
		y, l2, h2, ok2 := exactInt(t.c)
		if ok && ok2 {
			w := max(x.w, y.w)
			return tIte(t.a, tSext(x, w), tSext(y, w)), min(l1, l2), max(h1, h2), true
		}
	}
	return nil, 0, 0, false
}

func needBits(lo, hi int64) uint8 {
	n := uint8(1)
	for n < 64 && (lo < -(int64(1)<<(n-1)) || hi > int64(1)<<(n-1)-1) {
		n++
	}
	return n
}

func exactOp(op Op, x, y *Term, l1, h1, l2, h2 int64) *Term {
	const lim = int64(1) << 52
	var lo, hi int64
	var bop Op
	switch op {
	case OFAdd:
		bop, lo, hi = OAdd, l1+l2, h1+h2
	case OFSub:
		bop, lo, hi = OSub, l1-h2, h1-l2
	case OFMul:
		bop = OMul
		if max(-l1, h1) >= 1<<26 || max(-l2, h2) >= 1<<26 {
			return nil
		}
		lo = min(l1*l2, l1*h2, h1*l2, h1*h2)
		hi = max(l1*l2, l1*h2, h1*l2, h1*h2)
		if x == y {
			lo = 0
		}
	}
	if lo <= -lim || hi >= lim {
		return nil
	}
	w := needBits(lo, hi)
	ww := max(w, x.w, y.w)
	t := tBin(bop, tSext(x, ww), tSext(y, ww))
	return mk(OFFromS, wF64, 0, t, nil, nil)
}

// atom of a polynomial: a term, as signed or (u) as unsigned number.
type atom struct {
	t *Term
	u bool
}
type mono struct{ a, b atom } // product; b, then a may be missing

// poly writes a bit-vector term, where nothing in it overflows, as a polynomial
// of degree 2 at most; nil if it is not one.
func poly(t *Term, depth int) map[mono]int64 {
	lo, hi := sext64(uint64(1)<<(t.w-1), t.w), int64(mask(t.w)>>1)
	switch t.op {
	case OConst:
		return map[mono]int64{{}: sext64(t.val, t.w)}
	case OSext:
		return poly(t.a, depth)
	case OZext:
		if t.a.w < t.w {
			return map[mono]int64{{a: atom{t.a, true}}: 1}
		}
	case OAdd, OSub, OMul:
		if depth == 0 {
			break
		}
		l1, h1 := t.a.srange()
		l2, h2 := t.b.srange()
		const lim = int64(1) << 30
		if l1 < -lim || l2 < -lim || h1 > lim || h2 > lim {
			break
		}
		var l, h int64
		switch t.op {
		case OAdd:
			l, h = l1+l2, h1+h2
		case OSub:
			l, h = l1-h2, h1-l2
		case OMul:
			l, h = min(l1*l2, l1*h2, h1*l2, h1*h2), max(l1*l2, l1*h2, h1*l2, h1*h2)
		}
		if l < lo || h > hi {
			break
		}
		p, q := poly(t.a, depth-1), poly(t.b, depth-1)
		if p == nil || q == nil {
			return nil
		}
		r := map[mono]int64{}
		if t.op == OMul {
			for m, c := range p {
				for n, d := range q {
					k, ok := mulMono(m, n)
					if !ok {
						return nil
					}
					r[k] += c * d
				}
			}
			return r
		}
		for m, c := range p {
			r[m] += c
		}
		for m, c := range q {
			if t.op == OSub {
				c = -c
			}
			r[m] += c
		}
		return r
	}
	return map[mono]int64{{a: atom{t, false}}: 1}
}

func mulMono(m, n mono) (mono, bool) {
	if m.a.t == nil {
		return n, true
	}
	if n.a.t == nil {
		return m, true
	}
	if m.b.t != nil || n.b.t != nil {
		return mono{}, false
	}
	x, y := m.a, n.a
	if x.t.id > y.t.id || x.t == y.t && x.u && !y.u {
		x, y = y, x
	}
	return mono{x, y}, true
}

// cancelSquares: when the difference of two numbers of degree 2 is linear,
// comparing them is comparing its positive with its negative part.
func cancelSquares(x, y *Term) (*Term, *Term) {
	if x.op == OConst && y.op == OConst {
		return x, y
	}
	p, q := poly(x, 12), poly(y, 12)
	if p == nil || q == nil {
		return x, y
	}
	deg := 0
	for _, r := range []map[mono]int64{p, q} {
		for m := range r {
			if m.b.t != nil {
				deg = 2
			}
		}
	}
	if deg < 2 {
		return x, y
	}
	for m, c := range q {
		p[m] -= c
	}
	var ms []mono
	for m, c := range p {
		if c == 0 {
			continue
		}
		if m.b.t != nil || c > 1<<40 || c < -(1<<40) {
			return x, y
		}
		ms = append(ms, m)
	}
	id := func(m mono) int64 {
		if m.a.t == nil {
			return -1
		}
		return int64(m.a.t.id)*2 + int64(b2u(m.a.u))
	}
	sort.Slice(ms, func(i, j int) bool { return id(ms[i]) < id(ms[j]) })
	// a width in which neither part overflows
	bound := int64(1)
	for _, m := range ms {
		c := p[m]
		if c < 0 {
			c = -c
		}
		r := int64(1)
		if m.a.t != nil {
			if m.a.t.w > 20 {
				return x, y
			}
			r = int64(1) << m.a.t.w
		}
		bound += c * r
		if bound > 1<<58 {
			return x, y
		}
	}
	w := needBits(-bound, bound)
	pos, neg := tConst(0, w), tConst(0, w)
	for _, m := range ms {
		c := p[m]
		t := tConst(1, w)
		if m.a.t != nil {
			if m.a.u {
				t = tZext(m.a.t, w)
			} else {
				t = tSext(m.a.t, w)
			}
		}
		if c > 0 {
			pos = tBin(OAdd, pos, tBin(OMul, tConst(uint64(c), w), t))
		} else {
			neg = tBin(OAdd, neg, tBin(OMul, tConst(uint64(-c), w), t))
		}
	}
	return pos, neg
}

// sqrtArg: the float is the square root of a natural number below 2^50, for
// which rounding keeps the order strict.
func sqrtArg(t *Term) (*Term, bool) {
	switch t.op {
	case OConst:
		v := f64(t.val)
		if !(v >= 0 && v < 1<<25) {
			return nil, false
		}
		n := math.Round(v * v)
		if math.Sqrt(n) == v {
			return tF(n), true
		}
	case OFSqrt:
		if _, lo, hi, ok := exactInt(t.a); ok && lo >= 0 && hi < 1<<50 {
			return t.a, true
		}
	case OIte:
		if t.size > 2000 {
			return nil, false
		}
		x, ok := sqrtArg(t.b)
		y, ok2 := sqrtArg(t.c)
		if ok && ok2 {
			return tIte(t.a, x, y), true
		}
	}
	return nil, false
}

func tFSqrt(a *Term) *Term {
	if a.isConst() {
		return tF(math.Sqrt(f64(a.val)))
	}
	return mk(OFSqrt, wF64, 0, a, nil, nil)
}

func tFCmp(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		x, y := f64(a.val), f64(b.val)
		switch op {
		case OFLt:
			return tBool(x < y)
		case OFLe:
			return tBool(x <= y)
		case OFEq:
			return tBool(x == y)
		}
	}
	if a.op == OFSqrt || b.op == OFSqrt || a.op == OIte || b.op == OIte {
		if x, ok := sqrtArg(a); ok {
			if y, ok := sqrtArg(b); ok {
				return tFCmp(op, x, y)
			}
			if b.isConst() && f64(b.val) >= 1<<25 {
				return tBool(op != OFEq)
			}
		} else if y, ok := sqrtArg(b); ok && a.isConst() && f64(a.val) >= 1<<25 {
			_ = y
			return tBool(false)
		}
	}
	if x, _, _, ok := exactInt(a); ok {
		if y, _, _, ok := exactInt(b); ok {
			w := max(x.w, y.w)
			x, y = tSext(x, w), tSext(y, w)
			x, y = cancelSquares(x, y)
			switch op {
			case OFLt:
				return tCmp(OSlt, x, y)
			case OFLe:
				return tCmp(OSle, x, y)
			case OFEq:
				return tEq(x, y)
			}
		}
	}
	return mk(op, 0, 0, a, b, nil)
}

// ---------------------------------------------------------------------------
// evaluation under a model
// ---------------------------------------------------------------------------

type Model map[*Term]uint64

type evaluator struct {
	m    Model
	memo map[*Term]uint64
}

func (m Model) eval(t *Term) uint64 {
	if t.isConst() {
		return t.val
	}
	if t.op == OVar {
		return m[t] & maskF(t.w)
	}
	e := evaluator{m: m}
	if t.size > 30 {
		e.memo = map[*Term]uint64{}
	}
	return e.ev(t)
}

func (e *evaluator) ev(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OVar:
		return e.m[t] & maskF(t.w)
	}
	if e.memo != nil {
		if v, ok := e.memo[t]; ok {
			return v
		}
	}
	v := e.ev1(t)
	if e.memo != nil {
		e.memo[t] = v
	}
	return v
}
func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}
func (e *evaluator) ev1(t *Term) uint64 {
	switch t.op {
	case ONot:
		return 1 - e.ev(t.a)
	case OAnd:
		if e.ev(t.a) == 0 {
			return 0
		}
		return e.ev(t.b)
	case OOr:
		if e.ev(t.a) == 1 {
			return 1
		}
		return e.ev(t.b)
	case OIte:
		if e.ev(t.a) == 1 {
			return e.ev(t.b)
		}
		return e.ev(t.c)
	case OEq:
		return b2u(e.ev(t.a) == e.ev(t.b))
	case OUlt, OUle, OSlt, OSle:
		return b2u(cmpFold(t.op, e.ev(t.a), e.ev(t.b), t.a.w))
	case OBNot:
		return ^e.ev(t.a) & mask(t.w)
	case ONeg:
		return -e.ev(t.a) & mask(t.w)
	case OZext:
		return e.ev(t.a)
	case OSext:
		return uint64(sext64(e.ev(t.a), t.a.w)) & mask(t.w)
	case OExtract:
		return (e.ev(t.a) >> t.val) & mask(t.w)
	case OConcat:
		return (e.ev(t.a)<<t.b.w | e.ev(t.b)) & mask(t.w)
	case OFAdd:
		return math.Float64bits(f64(e.ev(t.a)) + f64(e.ev(t.b)))
	case OFSub:
		return math.Float64bits(f64(e.ev(t.a)) - f64(e.ev(t.b)))
	case OFMul:
		return math.Float64bits(f64(e.ev(t.a)) * f64(e.ev(t.b)))
	case OFDiv:
		return math.Float64bits(f64(e.ev(t.a)) / f64(e.ev(t.b)))
	case OFNeg:
		return math.Float64bits(-f64(e.ev(t.a)))
	case OFLt:
		return b2u(f64(e.ev(t.a)) < f64(e.ev(t.b)))
	case OFLe:
		return b2u(f64(e.ev(t.a)) <= f64(e.ev(t.b)))
	case OFEq:
		return b2u(f64(e.ev(t.a)) == f64(e.ev(t.b)))
	case OFFromS:
		return math.Float64bits(float64(sext64(e.ev(t.a), t.a.w)))
	case OFFromU:
		return math.Float64bits(float64(e.ev(t.a)))
	case OFToS:
		return uint64(int64(f64(e.ev(t.a)))) & mask(t.w)
	case OFToU:
		return uint64(f64(e.ev(t.a))) & mask(t.w)
	case OFRoundD:
		return math.Float64bits(math.Floor(f64(e.ev(t.a))))
	case OFRoundU:
		return math.Float64bits(math.Ceil(f64(e.ev(t.a))))
	case OFRoundZ:
		return math.Float64bits(math.Trunc(f64(e.ev(t.a))))
	case OFSqrt:
		return math.Float64bits(math.Sqrt(f64(e.ev(t.a))))
	case OFRoundA:
		return math.Float64bits(math.Round(f64(e.ev(t.a))))
	}
	a, b := e.ev(t.a), e.ev(t.b)
	v, ok := foldBin(t.op, a, b, t.w)
	if !ok { // SMT-LIB division by zero (guarded by an explicit check in the executor)
		switch t.op {
		case OUDiv:
			return mask(t.w)
		case OSDiv:
			if sext64(a, t.w) < 0 {
				return 1
			}
			return mask(t.w)
		default:
			return a
		}
	}
	return v
}

// ---------------------------------------------------------------------------
// SMT-LIB printing
// ---------------------------------------------------------------------------

func sortName(w uint8) string {
	switch w {
	case 0:
		return "Bool"
	case wF64:
		return "(_ FloatingPoint 11 53)"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (t *Term) smtName() string {
	switch t.op {
	case OConst:
		switch t.w {
		case 0:
			if t.val == 1 {
				return "true"
			}
			return "false"
		case wF64:
			return fmt.Sprintf("((_ to_fp 11 53) (_ bv%d 64))", t.val)
		}
		return fmt.Sprintf("(_ bv%d %d)", t.val, t.w)
	case OVar:
		return fmt.Sprintf("v%d", t.id)
	}
	return fmt.Sprintf("t%d", t.id)
}

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor",
	OBNot: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OConcat: "concat",
	OFAdd: "fp.add RNE", OFSub: "fp.sub RNE", OFMul: "fp.mul RNE", OFDiv: "fp.div RNE", OFNeg: "fp.neg", OFLt: "fp.lt", OFLe: "fp.leq", OFEq: "fp.eq",
	OFRoundD: "fp.roundToIntegral RTN", OFRoundU: "fp.roundToIntegral RTP", OFRoundZ: "fp.roundToIntegral RTZ", OFRoundA: "fp.roundToIntegral RNA", OFSqrt: "fp.sqrt RNE"}

func (t *Term) smtBody() string {
	var sb strings.Builder
	sb.WriteByte('(')
	switch t.op {
	case OZext:
		fmt.Fprintf(&sb, "(_ zero_extend %d)", t.w-t.a.w)
	case OSext:
		fmt.Fprintf(&sb, "(_ sign_extend %d)", t.w-t.a.w)
	case OExtract:
		fmt.Fprintf(&sb, "(_ extract %d %d)", uint64(t.w)-1+t.val, t.val)
	case OFFromS:
		sb.WriteString("(_ to_fp 11 53) RNE")
	case OFFromU:
		sb.WriteString("(_ to_fp_unsigned 11 53) RNE")
	case OFToS:
		fmt.Fprintf(&sb, "(_ fp.to_sbv %d) RTZ", t.w)
	case OFToU:
		fmt.Fprintf(&sb, "(_ fp.to_ubv %d) RTZ", t.w)
	default:
		sb.WriteString(opNames[t.op])
	}
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			sb.WriteByte(' ')
			sb.WriteString(x.smtName())
		}
	}
	sb.WriteByte(')')
	return sb.String()
}

func (t *Term) hasFloat() bool {
	return t.anyF(map[*Term]bool{})
}
func (t *Term) anyF(seen map[*Term]bool) bool {
	if t == nil || seen[t] {
		return false
	}
	seen[t] = true
	if t.w == wF64 {
		return true
	}
	switch t.op {
	case OFLt, OFLe, OFEq, OFToS, OFToU:
		return true
	}
	return t.a.anyF(seen) || t.b.anyF(seen) || t.c.anyF(seen)
}

// infix rendering for reports
func (t *Term) String() string { return t.str(6) }
func (t *Term) str(d int) string {
	if t == nil {
		return ""
	}
	switch t.op {
	case OConst:
		if t.w == 0 {
			return fmt.Sprint(t.val == 1)
		}
		if t.w == wF64 {
			return fmt.Sprint(f64(t.val))
		}
		return fmt.Sprint(sext64(t.val, t.w))
	case OVar:
		return t.name
	}
	if d == 0 {
		return "…"
	}
	var parts []string
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			parts = append(parts, x.str(d-1))
		}
	}
	n := opNames[t.op]
	if n == "" {
		n = fmt.Sprintf("op%d/%d", t.op, t.w)
	}
	return "(" + n + " " + strings.Join(parts, " ") + ")"
}

func sortTerms(ts []*Term) {
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
}
