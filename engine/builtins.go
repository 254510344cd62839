package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

func (st *State) builtin(fr *Frame, in *Instr) {
	args := make([]Value, len(in.args))
	for i := range in.args {
		args[i] = fr.get(&in.args[i])
	}
	v := st.builtinCall(fr, in, in.builtin.Name(), args)
	if v == pending {
		return
	}
	if in.dst >= 0 {
		fr.env[in.dst] = v
	}
}

func (st *State) builtinCall(fr *Frame, in *Instr, name string, args []Value) Value {
	switch name {
	case "len":
		switch x := args[0].(type) {
		case string:
			return Int(len(x))
		case *SymStr:
			return Int(len(x.b))
		case Slice:
			return Int(x.len)
		case MapRef:
			if x == 0 {
				return Int(0)
			}
			return Int(st.obj(int32(x)).m.n)
		case ChanRef:
			if x == 0 {
				return Int(0)
			}
			return Int(len(st.obj(int32(x)).c.buf))
		case Agg:
			return Int(in.ti.n)
		case Ptr:
			return Int(in.ti.elem().n)
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return Int(x.cap)
		case ChanRef:
			if x == 0 {
				return Int(0)
			}
			return Int(st.obj(int32(x)).c.cap)
		case Agg:
			return Int(in.ti.n)
		case Ptr:
			return Int(in.ti.elem().n)
		}
	case "append":
		s := args[0].(Slice)
		e := in.ti.elem()
		if in.ti2 != nil && in.ti2.kind == KStr {
			b := strBytes(args[1])
			return st.appendVals(s, e, b, len(b))
		}
		t := args[1].(Slice)
		if t.len == 0 {
			return s
		}
		src := st.obj(t.obj).cells[t.off : t.off+t.len*e.size]
		// copy first: the source may alias the destination object
		cp := append(make([]Value, 0, len(src)), src...)
		return st.appendVals(s, e, cp, int(t.len))
	case "copy":
		d := args[0].(Slice)
		var src []Value
		n := 0
		e := in.ti.elem()
		if in.ti2.kind == KStr {
			src = strBytes(args[1])
			n = min(len(src), int(d.len))
		} else {
			s := args[1].(Slice)
			n = min(int(s.len), int(d.len))
			if n > 0 {
				src = append([]Value(nil), st.obj(s.obj).cells[s.off:s.off+int32(n)*e.size]...)
			}
		}
		if n > 0 {
			o := st.wobj(d.obj)
			copy(o.cells[d.off:d.off+int32(n)*e.size], src)
		}
		return Int(n)
	case "delete":
		st.mapDelete(args[0].(MapRef), args[1], in.ti2)
		return nil
	case "clear":
		switch x := args[0].(type) {
		case MapRef:
			if x != 0 {
				o := st.wobj(int32(x))
				o.m = &MapData{index: map[any]int{}}
			}
		case Slice:
			e := in.ti.elem()
			if x.len > 0 {
				o := st.wobj(x.obj)
				z := []Value{}
				for i := int32(0); i < x.len; i++ {
					z = e.appendZeroV(z)
				}
				copy(o.cells[x.off:], z)
			}
		}
		return nil
	case "panic":
		v := args[0].(Iface)
		panic(goPanic{v})
	case "recover":
		return st.doRecover(fr)
	case "print", "println":
		return nil
	case "min", "max":
		v := args[0]
		ti := in.ti
		for _, y := range args[1:] {
			v = st.minmax(name, v, y, ti)
		}
		return v
	case "close":
		return st.closeChan(fr, args[0].(ChanRef))
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.obj == 0 {
			panic(rtErr("value method %v.%v called using nil pointer", args[1], args[2]))
		}
		return args[0]
	case "ssa:deferstack":
		return Ptr{}
	case "String": // unsafe.String
		n := st.concInt(args[1], tinfo(in.in.(*ssa.Call).Call.Args[1].Type()))
		if n == 0 {
			return ""
		}
		p := args[0].(Ptr)
		return mkStr(append([]Value(nil), st.obj(p.obj).cells[p.off:p.off+int32(n)]...))
	case "SliceData":
		s := args[0].(Slice)
		if s.obj == 0 {
			return Ptr{}
		}
		return Ptr{s.obj, s.off}
	case "StringData":
		b := strBytes(args[0])
		if len(b) == 0 {
			return Ptr{}
		}
		s := st.newBytes(b)
		return Ptr{s.obj, 0}
	case "Slice": // unsafe.Slice
		n := st.concInt(args[1], tinfo(in.in.(*ssa.Call).Call.Args[1].Type()))
		p := args[0].(Ptr)
		if p.obj == 0 {
			return Slice{}
		}
		return Slice{p.obj, p.off, int32(n), int32(n)}
	case "real":
		return real(args[0].(complex128))
	case "imag":
		return imag(args[0].(complex128))
	}
	unsupported("builtin %s on %T", name, fmt.Sprintf("%T", args))
	return nil
}

func (st *State) minmax(name string, a, b Value, ti *TInfo) Value {
	switch ti.kind {
	case KInt:
		x, ok1 := a.(Int)
		y, ok2 := b.(Int)
		if ok1 && ok2 {
			less := uint64(x) < uint64(y)
			if ti.signed {
				less = sext64(uint64(x), ti.w) < sext64(uint64(y), ti.w)
			}
			if less == (name == "min") {
				return a
			}
			return b
		}
		op := OUlt
		if ti.signed {
			op = OSlt
		}
		s, t := asTerm(a, ti.w), asTerm(b, ti.w)
		c := tCmp(op, s, t)
		if name == "max" {
			c = tNot(c)
		}
		return fromTerm(tIte(c, s, t))
	case KF64:
		x, ok1 := a.(float64)
		y, ok2 := b.(float64)
		if ok1 && ok2 {
			if name == "min" {
				return min(x, y)
			}
			return max(x, y)
		}
		s, t := asTerm(a, wF64), asTerm(b, wF64)
		c := tFCmp(OFLt, s, t)
		if name == "max" {
			c = tFCmp(OFLt, t, s)
		}
		return fromTerm(tIte(c, s, t))
	case KStr:
		l := strLess(a, b)
		if st.branchV(l) == (name == "min") {
			return a
		}
		return b
	}
	unsupported("min/max on %v", ti)
	return nil
}
