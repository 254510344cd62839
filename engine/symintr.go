package main

import "math/bits"

var symIntr map[string]Intrinsic

func (st *State) needTop() {
	if st.mergeD > 0 {
		panic(mergeAbort{})
	}
}

func (st *State) inputInt(kind string, lo, hi int64, w uint8) Value {
	if lo == hi {
		// still consumes an input natively
		t := st.inVar(8)
		st.declare(t, 0, 0)
		st.inputs = append(st.inputs, Input{Kind: kind, t: tConst(uint64(lo), 64)})
		return Int(uint64(lo) & mask(w))
	}
	span := uint64(hi) - uint64(lo)
	var bw uint8
	if span == ^uint64(0) {
		bw = 64
	} else {
		bw = uint8(bits.Len64(span))
	}
	if bw > w {
		bw = w
	}
	v := st.inVar(bw)
	st.declare(v, 0, span)
	t := tBin(OAdd, tZext(v, 64), tConst(uint64(lo), 64))
	st.inputs = append(st.inputs, Input{Kind: kind, t: t})
	if w < 64 {
		t = tTrunc(t, w)
	}
	return fromTerm(t)
}

func init() {
	symIntr = map[string]Intrinsic{
		"Int": func(st *State, fr *Frame, in *Instr, a []Value) Value {
			st.needTop()
			lo, hi := st.concInt(a[0], tiInt), st.concInt(a[1], tiInt)
			if hi < lo {
				st.end("assume", "")
				panic(pathEnd{})
			}
			return st.inputInt("int", lo, hi, 64)
		},
		"Byte": func(st *State, fr *Frame, in *Instr, a []Value) Value {
			st.needTop()
			v := st.inVar(8)
			st.declare(v, 0, 255)
			st.inputs = append(st.inputs, Input{Kind: "byte", t: v})
			return v
		},
		"Bool": func(st *State, fr *Frame, in *Instr, a []Value) Value {
			st.needTop()
			v := st.inVar(0)
			st.setModel(Model{v: 0})
			st.inputs = append(st.inputs, Input{Kind: "bool", t: v})
			return v
		},
		"Choose": func(st *State, fr *Frame, in *Instr, a []Value) Value {
			st.needTop()
			n := st.concInt(a[0], tiInt)
			if n <= 0 {
				st.end("assume", "")
				panic(pathEnd{})
			}
			if n == 1 {
				st.inputs = append(st.inputs, Input{Kind: "choose", t: tConst(0, 64)})
				return Int(0)
			}
			if st.pending == nil {
				t := st.inVar(uint8(bits.Len64(uint64(n-1))))
				st.declare(t, 0, uint64(n-1))
				st.inputs = append(st.inputs, Input{Kind: "choose", t: t})
				st.pending = t
			}
			v := st.concretize(st.pending)
			st.pending = nil
			return Int(v)
		},
		"Concrete": func(st *State, fr *Frame, in *Instr, a []Value) Value {
			return Int(uint64(st.concInt(a[0], tiInt)))
		},
		"ConcreteStr": func(st *State, fr *Frame, in *Instr, a []Value) Value {
			return st.concAll(a[0])
		},
		"Assume": func(st *State, fr *Frame, in *Instr, a []Value) Value {
			st.needTop()
			ok := false
			switch c := a[0].(type) {
			case bool:
				ok = c
			case *Term:
				ok = st.assume(c)
			}
			if !ok {
				st.end("assume", "")
				panic(pathEnd{})
			}
			return nil
		},
		"Assert": func(st *State, fr *Frame, in *Instr, a []Value) Value {
			st.needTop()
			msg, _ := a[1].(string)
			st.assertCond(asTerm(a[0], 0), msg)
			return nil
		},
		"Cover": func(st *State, fr *Frame, in *Instr, a []Value) Value {
			m := map[string]bool{}
			for k := range st.covers {
				m[k] = true
			}
			m[a[0].(string)] = true
			st.covers = m
			return nil
		},
		"Param": func(st *State, fr *Frame, in *Instr, a []Value) Value {
			if v, ok := st.w.ex.cfg.Params[a[0].(string)]; ok {
				return Int(uint64(int64(v)))
			}
			return a[1]
		},
		"ObserveInt":  observe,
		"ObserveStr":  observe,
		"ObserveBool": observe,
		"Advance": func(st *State, fr *Frame, in *Instr, a []Value) Value {
			st.clock += st.concInt(a[0], tiInt)
			return nil
		},
		"IsSymbolic": func(st *State, fr *Frame, in *Instr, a []Value) Value { return true },
		"Quiesce": func(st *State, fr *Frame, in *Instr, a []Value) Value {
			// let every other goroutine run until it blocks: implemented as a
			// sleep of a minimal duration, which ends only at quiescence
			id := st.addTimer(&Timer{when: st.clock, g: st.cur})
			st.block(Wait{kind: wSleep, timer: id})
			return pending
		},
		"captureStart": func(st *State, fr *Frame, in *Instr, a []Value) Value {
			st.capOn = true
			st.capOut = nil
			return nil
		},
		"captureStop": func(st *State, fr *Frame, in *Instr, a []Value) Value {
			st.capOn = false
			v := mkStr(append([]Value(nil), st.capOut...))
			st.capOut = nil
			return v
		},
		"sliceLen": func(st *State, fr *Frame, in *Instr, a []Value) Value {
			return Int(a[0].(Iface).v.(Slice).len)
		},
		"sliceSwap": func(st *State, fr *Frame, in *Instr, a []Value) Value {
			x := a[0].(Iface)
			s := x.v.(Slice)
			e := x.t.elem().size
			i, j := int32(a[1].(Int)), int32(a[2].(Int))
			o := st.wobj(s.obj)
			for k := int32(0); k < e; k++ {
				p, q := s.off+i*e+k, s.off+j*e+k
				o.cells[p], o.cells[q] = o.cells[q], o.cells[p]
			}
			return nil
		},
	}
}

func observe(st *State, fr *Frame, in *Instr, a []Value) Value {
	l := st.obsList()
	st.finMsg = append(l[:len(l):len(l)], obs{a[0].(string), a[1]})
	return nil
}

func init() {
	symIntr["fileRaw"] = func(st *State, fr *Frame, in *Instr, a []Value) Value {
		st.fileWrite(a[0].(Ptr), append([]Value(nil), st.sliceCells(a[1].(Slice))...))
		return nil
	}
}
