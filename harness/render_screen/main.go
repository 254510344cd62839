// The differential renderer against a terminal: whatever frames, clears and
// resizes come before, the screen shows the last frame.
package main

import (
	"ZM"
	"ZZ/vt"
	"ZZ/zzsym"
)

type sink struct{ b []byte }

func (s *sink) Write(p []byte) (int, error) {
	s.b = append(s.b, p...)
	return len(p), nil
}

type want struct {
	r    rune
	a    vt.Attr
	wide bool
	half bool
}

func attr(st int) (render.Style, vt.Attr) {
	switch st {
	case 1:
		return render.StyleDefault().WithBold(true), vt.Attr{-1, -1, vt.Bold}
	case 2:
		return render.StyleBg(0, 0, 255), vt.Attr{-1, vt.RGB(0, 0, 255), 0}
	case 3:
		return render.StyleColors(1, 2, 3, 4, 5, 6).WithUnderline(true).WithReverse(true), vt.Attr{vt.RGB(1, 2, 3), vt.RGB(4, 5, 6), vt.Underline | vt.Reverse}
	case 4:
		return render.StyleFg(255, 0, 0).WithItalic(true), vt.Attr{vt.RGB(255, 0, 0), -1, vt.Italic}
	case 5:
		return render.StyleFg(255, 0, 1), vt.Attr{vt.RGB(255, 0, 1), -1, 0}
	}
	return render.StyleDefault(), vt.DefaultAttr
}

// fill draws an arbitrary frame into buf and returns what must be visible.
func fill(buf *render.Buffer, w, h, styles int, wide bool) []want {
	out := make([]want, w*h)
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			out[y*w+x] = want{' ', vt.DefaultAttr, false, false}
		}
	}
	only := -1
	if zzsym.Param("sparse", 0) == 1 {
		only = zzsym.Choose(w*h + 1)
	}
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			if only >= 0 && only != y*w+x {
				continue
			}
			n := 2
			if wide && x+1 < w {
				n = 3
			}
			k := zzsym.Choose(n)
			if k == 0 && !wide {
				// a blank cell that may still carry a style
				k = 3
			}
			if k == 0 {
				continue
			}
			si := 0
			if styles > 0 {
				si = zzsym.Choose(styles + 1)
			}
			st, a := attr(si)
			switch k {
			case 1:
				r := rune(zzsym.Int('a', 'c'))
				buf.Set(x, y, r, st)
				out[y*w+x] = want{r, a, false, false}
			case 3:
				if si != 0 {
					buf.Set(x, y, ' ', st)
				}
				out[y*w+x] = want{' ', a, false, false}
			case 2:
				r := rune(zzsym.Int(0x4e2d, 0x4e2e))
				buf.SetString(x, y, string(r), st)
				out[y*w+x] = want{r, a, true, false}
				x++
				out[y*w+x] = want{0, a, false, true}
			}
		}
	}
	return out
}

func check(s *vt.Screen, w, h int, exp []want, msg string) {
	ok := true
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			c := s.At(x, y)
			e := exp[y*w+x]
			if e.half {
				ok = ok && c.W == 0
				continue
			}
			ok = ok && c.R == e.r && c.A == e.a && c.Comb == 0
			if e.wide {
				ok = ok && c.W == 2
			} else {
				ok = ok && c.W == 1
			}
		}
	}
	zzsym.Assert(ok, msg)
	zzsym.Assert(s.Strange == 0 && s.Scrolls == 0 && !s.Mid(), "the renderer wrote something the terminal scrolls or rejects")
}

// Frames: n arbitrary frames of one size.
func Frames() {
	w, h := zzsym.Param("w", 3), zzsym.Param("h", 1)
	n := zzsym.Param("frames", 2)
	styles := zzsym.Param("styles", 1)
	wide := zzsym.Param("wide", 0) == 1
	out := &sink{}
	s := vt.New(w, h)
	r := render.New(w, h, out)
	for i := 0; i < n; i++ {
		var buf *render.Buffer
		if zzsym.Param("pool", 0) == 1 {
			buf = r.Buffer()
		} else {
			buf = render.NewBuffer(w, h)
		}
		exp := fill(buf, w, h, styles, wide)
		err := r.Render(buf)
		zzsym.Assert(err == nil, "Render failed")
		s.Feed(string(out.b))
		out.b = nil
		check(s, w, h, exp, "the screen does not show the rendered frame")
		buf.Release()
	}
	zzsym.Cover("end")
}

func blank(w, h int) []want {
	out := make([]want, w*h)
	for i := range out {
		out[i] = want{' ', vt.DefaultAttr, false, false}
	}
	return out
}

// Ops: arbitrary interleavings of Render, Clear, Resize, cursor and pooled
// buffers; after every step the screen is what the last one asked for.
func Ops() {
	w, h := 2, 2
	W, H := w, h
	out := &sink{}
	s := vt.New(w, h)
	if zzsym.Param("cursor", 0) == 1 {
		s.X, s.Y = zzsym.Choose(w), zzsym.Choose(h)
	}
	r := render.New(w, h, out)
	n := zzsym.Param("ops", 3)
	styles := zzsym.Param("styles", 1)
	wide := zzsym.Param("wide", 0) == 1
	vis := true
	exp := blank(W, H)
	var old *render.Buffer
	for i := 0; i < n; i++ {
		k := zzsym.Choose(6)
		switch k {
		case 0, 1:
			var buf *render.Buffer
			if k == 0 {
				if zzsym.Param("anysize", 0) == 1 {
					// a buffer of another size makes that the renderer's size
					w, h = 1+zzsym.Choose(2), 1+zzsym.Choose(2)
				}
				buf = render.NewBuffer(w, h)
			} else {
				buf = r.Buffer()
				zzsym.Assert(buf.Width() == w && buf.Height() == h, "Buffer() has not the renderer's size")
				zzsym.Cover("pool")
			}
			f := fill(buf, w, h, styles, wide)
			exp = blank(W, H)
			for y := 0; y < h; y++ {
				for x := 0; x < w; x++ {
					exp[y*W+x] = f[y*w+x]
				}
			}
			zzsym.Assert(r.Render(buf) == nil, "Render failed")
			zzsym.Assert(r.Width() == w && r.Height() == h, "Width/Height after Render")
			if k == 1 {
				buf.Release()
			}
			old = buf
		case 2:
			zzsym.Assert(r.Clear() == nil, "Clear failed")
			exp = blank(W, H)
			old = nil
		case 3:
			w, h = 1+zzsym.Choose(2), 1+zzsym.Choose(2)
			zzsym.Assert(r.Resize(w, h) == nil, "Resize failed")
			zzsym.Assert(r.Width() == w && r.Height() == h, "Width/Height after Resize")
			exp = blank(W, H)
			old = nil
			zzsym.Cover("resize")
		case 4:
			if zzsym.Choose(2) == 0 {
				r.HideCursor()
				vis = false
			} else {
				r.ShowCursor()
				vis = true
			}
		case 5:
			// the caller reuses a buffer it has already rendered
			if old == nil {
				zzsym.Assume(false)
			}
			old.Fill('z', render.StyleDefault())
			continue
		}
		s.Feed(string(out.b))
		out.b = nil
		check(s, W, H, exp, "the screen does not show the last frame")
		zzsym.Assert(s.Visible == vis, "cursor visibility")
	}
	zzsym.Assert(r.Close() == nil, "Close failed")
	s.Feed(string(out.b))
	zzsym.Assert(s.Visible && s.Cur == vt.DefaultAttr, "Close leaves the cursor hidden or attributes on")
	check(s, W, H, exp, "Close changes the screen")
	zzsym.Cover("end")
}

// Draw: arbitrary drawing calls with arbitrary coordinates; the rendered frame
// shows the last thing drawn at every position and nothing is drawn outside.
func Draw() {
	w, h := zzsym.Param("w", 3), zzsym.Param("h", 2)
	out := &sink{}
	s := vt.New(w, h)
	r := render.New(w, h, out)
	buf := r.Buffer()
	exp := blank(w, h)
	put := func(x, y int, c rune, a vt.Attr, wd int) {
		if x < 0 || y < 0 || x >= w || y >= h {
			return
		}
		if wd == 2 && x+1 >= w {
			exp[y*w+x] = want{' ', a, false, false}
			return
		}
		exp[y*w+x] = want{c, a, wd == 2, false}
		if wd == 2 {
			exp[y*w+x+1] = want{0, a, false, true}
		}
	}
	n := zzsym.Param("ops", 2)
	for i := 0; i < n; i++ {
		st, a := attr(zzsym.Choose(zzsym.Param("styles", 1) + 1))
		switch zzsym.Choose(5) {
		case 0:
			x, y := zzsym.Int(-2, w+1), zzsym.Int(-2, h+1)
			c := rune(zzsym.Int('a', 'c'))
			buf.Set(x, y, c, st)
			x, y = zzsym.Concrete(x), zzsym.Concrete(y)
			noHalf(exp, w, h, x, y)
			put(x, y, c, a, 1)
		case 1, 2:
			x, y := zzsym.Concrete(zzsym.Int(-1, w)), zzsym.Concrete(zzsym.Int(-1, h))
			m := 1 + zzsym.Choose(w+1)
			line := i == n-1 && zzsym.Bool()
			txt := ""
			var rs []rune
			var ws []int
			for j := 0; j < m; j++ {
				if zzsym.Param("wide", 0) == 1 && zzsym.Choose(2) == 1 {
					rs = append(rs, 0x4e2d)
					ws = append(ws, 2)
				} else {
					rs = append(rs, rune(zzsym.Int('x', 'z')))
					ws = append(ws, 1)
				}
				txt += string(rs[j])
			}
			if line {
				buf.SetLine(y, txt, st)
				x = 0
				if y >= 0 && y < h {
					for q := 0; q < w; q++ {
						noHalf(exp, w, h, q, y)
						exp[y*w+q] = want{' ', vt.DefaultAttr, false, false}
					}
				}
				zzsym.Cover("line")
			} else {
				got := buf.SetString(x, y, txt, st)
				exp0 := 0
				if x >= 0 && y >= 0 && y < h {
					q := x
					for j := 0; j < m && q < w; j++ {
						exp0 += ws[j]
						q += ws[j]
					}
				}
				zzsym.Assert(got == exp0, "SetString returns the wrong number of cells")
			}
			if x >= 0 {
				for j := 0; j < m; j++ {
					for d := 0; d < ws[j]; d++ {
						noHalf(exp, w, h, x+d, y)
					}
					put(x, y, rs[j], a, ws[j])
					x += ws[j]
				}
			}
		case 3:
			c := rune(zzsym.Int('a', 'c'))
			buf.Fill(c, st)
			for y := 0; y < h; y++ {
				for x := 0; x < w; x++ {
					put(x, y, c, a, 1)
				}
			}
		case 4:
			buf.Clear()
			exp = blank(w, h)
		}
	}
	zzsym.Assert(r.Render(buf) == nil, "Render failed")
	s.Feed(string(out.b))
	check(s, w, h, exp, "the screen does not show what was drawn")
	zzsym.Cover("end")
}

// anyStyle: every combination of the four attributes (attrs=1), or a fixed one
// with a foreground and a background one component of which is arbitrary.
func anyStyle(attrs, fg, bg bool) (render.Style, vt.Attr) {
	st, a := render.StyleDefault(), vt.DefaultAttr
	if attrs {
		f := zzsym.Choose(16)
		st = st.WithBold(f&1 != 0).WithItalic(f&2 != 0).WithUnderline(f&4 != 0).WithReverse(f&8 != 0)
		for i, m := range []int{vt.Bold, vt.Italic, vt.Underline, vt.Reverse} {
			if f>>i&1 != 0 {
				a.Flags |= m
			}
		}
	}
	rgb := func() (uint8, uint8, uint8) {
		c := [3]int{7, 130, 255}
		c[zzsym.Choose(3)] = zzsym.Int(0, 255)
		return uint8(c[0]), uint8(c[1]), uint8(c[2])
	}
	if fg {
		r, g, b := rgb()
		st = st.WithFg(r, g, b)
		a.Fg = vt.RGB(int(r), int(g), int(b))
	}
	if bg {
		r, g, b := rgb()
		st = st.WithBg(r, g, b)
		a.Bg = vt.RGB(int(r), int(g), int(b))
	}
	return st, a
}

// Styles: two neighbouring cells, then a frame that changes one of them.
func Styles() {
	out := &sink{}
	s := vt.New(2, 1)
	r := render.New(2, 1, out)
	mode := zzsym.Param("mode", 0)
	gen := func() (render.Style, vt.Attr) {
		switch mode {
		case 1:
			return anyStyle(false, true, false)
		case 2:
			return anyStyle(false, false, true)
		case 3:
			return anyStyle(zzsym.Choose(2) == 1, zzsym.Choose(2) == 1, zzsym.Choose(2) == 1)
		}
		return anyStyle(true, zzsym.Choose(2) == 1, false)
	}
	s1, a1 := gen()
	s2, a2 := gen()
	buf := render.NewBuffer(2, 1)
	buf.Set(0, 0, 'x', s1)
	buf.Set(1, 0, 'x', s2)
	zzsym.Assert(r.Render(buf) == nil, "Render failed")
	s.Feed(string(out.b))
	out.b = nil
	check(s, 2, 1, []want{{'x', a1, false, false}, {'x', a2, false, false}}, "the screen does not show the styles")
	if zzsym.Param("second", 0) == 1 {
		// the first cell takes the other style
		b2 := render.NewBuffer(2, 1)
		b2.Set(0, 0, 'x', s2)
		b2.Set(1, 0, 'x', s2)
		zzsym.Assert(r.Render(b2) == nil, "Render failed")
		s.Feed(string(out.b))
		check(s, 2, 1, []want{{'x', a2, false, false}, {'x', a2, false, false}}, "the screen does not show a change of style")
	}
	zzsym.Cover("end")
}

// noHalf: drawing over one half of a wide character is outside the property.
func noHalf(exp []want, w, h, x, y int) {
	if x < 0 || y < 0 || x >= w || y >= h {
		return
	}
	if exp[y*w+x].half || exp[y*w+x].wide {
		zzsym.Assume(false)
	}
}

func main() {
	zzsym.Main(map[string]func(){"Frames": Frames, "Ops": Ops, "Draw": Draw, "Styles": Styles})
}
