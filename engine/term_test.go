package main

import (
	"math/rand"
	"testing"
)

// expr is an expression built twice: as a term by the simplifying constructors,
// and evaluated directly.
type expr struct {
	t *Term
	f func(m Model) uint64
}

func gen(r *rand.Rand, vars []*Term, depth int) expr {
	if depth == 0 || r.Intn(8) == 0 {
		if r.Intn(3) == 0 {
			v := uint64(r.Intn(12) - 4)
			return expr{tConst(v, 64), func(Model) uint64 { return v }}
		}
		v := vars[r.Intn(len(vars))]
		if r.Intn(3) == 0 {
			return expr{tSext(v, 64), func(m Model) uint64 { return uint64(sext64(m[v], v.w)) }}
		}
		return expr{tZext(v, 64), func(m Model) uint64 { return m[v] }}
	}
	x := gen(r, vars, depth-1)
	y := gen(r, vars, depth-1)
	switch r.Intn(11) {
	case 10: // a digit, as printing a number makes it, in eight bits and back
		k, o, neg := uint64(r.Intn(9)+2), uint64(r.Intn(60)), r.Intn(2) == 0
		a, f := x.t, x.f
		if neg {
			a, f = tBin(OSub, tConst(0, 64), a), func(m Model) uint64 { return -x.f(m) }
		}
		op := OUDiv
		if r.Intn(2) == 0 {
			op = OSDiv
		}
		q := tBin(op, a, tConst(k, 64))
		b := tTrunc(tBin(OAdd, tBin(OSub, a, tBin(OMul, q, tConst(k, 64))), tConst(o, 64)), 8)
		b = tBin(OSub, b, tConst(o/2, 8))
		return expr{tZext(b, 64), func(m Model) uint64 {
			v := f(m)
			u := v % k
			if op == OSDiv {
				u = uint64(int64(v) % int64(k))
			}
			return uint64(uint8(u+o) - uint8(o/2))
		}}
	case 0, 1, 2:
		return expr{tBin(OAdd, x.t, y.t), func(m Model) uint64 { return x.f(m) + y.f(m) }}
	case 3, 4, 5:
		return expr{tBin(OSub, x.t, y.t), func(m Model) uint64 { return x.f(m) - y.f(m) }}
	case 6:
		k := uint64(r.Intn(7) - 3)
		return expr{tBin(OMul, x.t, tConst(k, 64)), func(m Model) uint64 { return x.f(m) * k }}
	case 7:
		k := int64(r.Intn(4) + 1)
		if r.Intn(2) == 0 {
			return expr{tBin(OSRem, x.t, tConst(uint64(k), 64)), func(m Model) uint64 { return uint64(int64(x.f(m)) % k) }}
		}
		return expr{tBin(OSDiv, x.t, tConst(uint64(k), 64)), func(m Model) uint64 { return uint64(int64(x.f(m)) / k) }}
	default:
		c := genBool(r, vars, depth-1)
		return expr{tIte(c.t, x.t, y.t), func(m Model) uint64 {
			if c.f(m) == 1 {
				return x.f(m)
			}
			return y.f(m)
		}}
	}
}

func genBool(r *rand.Rand, vars []*Term, depth int) expr {
	x := gen(r, vars, depth)
	y := gen(r, vars, depth)
	switch r.Intn(5) {
	case 0:
		return expr{tEq(x.t, y.t), func(m Model) uint64 { return b2u(x.f(m) == y.f(m)) }}
	case 1:
		return expr{tCmp(OSle, x.t, y.t), func(m Model) uint64 { return b2u(int64(x.f(m)) <= int64(y.f(m))) }}
	case 2:
		return expr{tCmp(OUlt, x.t, y.t), func(m Model) uint64 { return b2u(x.f(m) < y.f(m)) }}
	case 3:
		c := genBool(r, vars, max(depth-1, 0))
		return expr{tNot(c.t), func(m Model) uint64 { return 1 - c.f(m) }}
	}
	return expr{tCmp(OSlt, x.t, y.t), func(m Model) uint64 { return b2u(int64(x.f(m)) < int64(y.f(m))) }}
}

func testVars() []*Term {
	var vs []*Term
	for i, w := range []uint8{1, 4, 8, 10, 14} {
		v := newVar(string(rune('a'+i)), w)
		vs = append(vs, v)
	}
	return vs
}

func randModel(r *rand.Rand, vars []*Term) Model {
	m := Model{}
	for _, v := range vars {
		m[v] = r.Uint64() & mask(v.w)
		if r.Intn(4) == 0 {
			m[v] = uint64(r.Intn(3)) & mask(v.w)
		}
	}
	return m
}

func TestTerms(t *testing.T) {
	vars := testVars()
	for seed := int64(0); seed < 60000; seed++ {
		r := rand.New(rand.NewSource(seed))
		a := gen(r, vars, 1+r.Intn(4))
		lo, hi := a.t.srange()
		var n *Term
		b := genBool(r, vars, 1+r.Intn(3))
		n = narrowed(b.t)
		na := narrowed(a.t)
		for i := 0; i < 12; i++ {
			m := randModel(r, vars)
			v := int64(a.f(m))
			if got := m.eval(a.t); got != uint64(v) {
				t.Fatalf("seed %d: %s = %d, want %d in %v", seed, sexpr(a.t, 20), int64(got), v, m)
			}
			if v < lo || v > hi {
				t.Fatalf("seed %d: %s = %d outside of %d..%d", seed, sexpr(a.t, 20), v, lo, hi)
			}
			if na != nil && m.eval(na) != uint64(v) {
				t.Fatalf("seed %d: narrowed %s", seed, sexpr(a.t, 20))
			}
			if got := m.eval(b.t); got != b.f(m) {
				t.Fatalf("seed %d: %s = %d", seed, sexpr(b.t, 20), got)
			}
			if n != nil && m.eval(n) != b.f(m) {
				t.Fatalf("seed %d: narrowed %s", seed, sexpr(b.t, 20))
			}
		}
	}
}

func TestLIA(t *testing.T) {
	vars := testVars()
	s := &liaSolver{timeout: 2000}
	defer s.close()
	b := newSolver(5000, false)
	defer b.close()
	noLIA = true
	posed := 0
	for seed := int64(0); seed < 600; seed++ {
		r := rand.New(rand.NewSource(seed))
		var cs []*Term
		for i := 0; i < 2+r.Intn(3); i++ {
			if c := genBool(r, vars, 1+r.Intn(2)).t; !c.isConst() {
				cs = append(cs, c)
			}
		}
		if len(cs) == 0 {
			continue
		}
		x, _, ok := s.check(cs, true)
		if !ok {
			continue
		}
		posed++
		if y, _ := b.check(cs, true); y != Unknown && x != y {
			t.Fatalf("seed %d: integers say %d, bit-vectors %d", seed, x, y)
		}
	}
	t.Log(posed, "posed, broken", s.broken)
}
