// The inline renderer against a terminal.
package main

import (
	"ZM/internal/infrastructure/renderer"
	"ZZ/vt"
	"ZZ/zzsym"
)

type sink struct{ b []byte }

func (s *sink) Write(p []byte) (int, error) {
	s.b = append(s.b, p...)
	return len(p), nil
}

type cell struct {
	r rune
	a vt.Attr
	w int
}

// line draws an arbitrary line: its text, and the cells it has.
func line(maxLen int, styled, wide bool) (string, []cell) {
	n := zzsym.Choose(maxLen + 1)
	txt := ""
	var cs []cell
	a := vt.DefaultAttr
	st := 0
	if styled && n > 0 {
		st = zzsym.Choose(3)
	}
	switch st {
	case 1:
		txt = "\x1b[1;44m"
		a = vt.Attr{Fg: -1, Bg: 4, Flags: vt.Bold}
	case 2:
		txt = "\x1b]8;;u\x07"
	}
	for i := 0; i < n; i++ {
		if wide && zzsym.Choose(2) == 1 {
			txt += "中"
			cs = append(cs, cell{'中', a, 2}, cell{0, a, 0})
			continue
		}
		b := byte(zzsym.Int('a', 'b'))
		txt += string([]byte{b})
		cs = append(cs, cell{rune(b), a, 1})
	}
	switch st {
	case 1:
		txt += "\x1b[0m"
	case 2:
		txt += "\x1b]8;;\x1b\\"
	}
	return txt, cs
}

// clip is what a terminal row of w columns can show of the line.
func clip(cs []cell, w int) []cell {
	if len(cs) > w {
		if cs[w].w == 0 {
			return cs[:w-1]
		}
		return cs[:w]
	}
	return cs
}

func lim(known, real int) int {
	if known > 0 {
		return known
	}
	return real
}

// resize cuts or extends the rows, as a terminal that does not reflow does.
func resize(s *vt.Screen, w int) {
	old := *s
	s.W = w
	s.Cells = nil
	for y := 0; y < s.H; y++ {
		for x := 0; x < w; x++ {
			c := vt.Cell{R: ' ', A: vt.DefaultAttr, W: 1}
			if x < old.W {
				c = old.At(x, y)
			}
			if c.W == 2 && x == w-1 {
				c = vt.Cell{R: ' ', A: vt.DefaultAttr, W: 1}
			}
			s.Cells = append(s.Cells, c)
		}
	}
	if s.X >= w {
		s.X = w - 1
	}
}

// Views: arbitrary sequences of views, with repaints, on a terminal whose
// cursor starts on any row.
func Views() {
	W, H := zzsym.Param("W", 2), zzsym.Param("H", 3)
	known := zzsym.Param("known", 1) == 1
	styled := zzsym.Param("styled", 0) == 1
	wide := zzsym.Param("wide", 0) == 1
	maxLines := zzsym.Param("lines", 2)
	maxLen := W + 1
	rw, rh := W, H
	if !known {
		rw, rh = 0, 0
		maxLen = W - 1
	}
	y0 := zzsym.Choose(H)
	W0 := W
	s := vt.New(W, H)
	for y := 0; y < y0; y++ {
		for x := 0; x < W; x++ {
			s.Cells[y*W+x].R = '#'
		}
	}
	s.Y = y0
	out := &sink{}
	r := renderer.NewInlineRenderer(out, rw, rh)
	frames := zzsym.Param("frames", 2)
	prev := 0
	for f := 0; f < frames; f++ {
		if f > 0 && zzsym.Param("ops", 0) == 1 {
			op := zzsym.Choose(3)
			if op > 0 {
				// something else wrote over the view
				x, y := zzsym.Choose(W), zzsym.Choose(H)
				if y > s.Y-prev && y <= s.Y {
					s.Scribble(x, y, '%')
				}
			}
			switch op {
			case 1:
				r.Repaint()
				zzsym.Cover("repaint")
			case 2:
				// the terminal becomes narrower or wider
				W = 1 + zzsym.Choose(W+1)
				resize(s, W)
				W0 = min(W0, W)
				if known {
					rw = W
				} else {
					maxLen = W - 1
				}
				r.Resize(rw, rh)
				zzsym.Cover("resize")
			}
		}
		n := 1 + zzsym.Choose(maxLines)
		view := ""
		var rows [][]cell
		for i := 0; i < n; i++ {
			t, cs := line(maxLen, styled, wide)
			if i > 0 {
				view += "\n"
			}
			view += t
			rows = append(rows, clip(cs, lim(rw, W)))
		}
		if h := lim(rh, H); n > h {
			rows = rows[n-h:]
			n = h
			zzsym.Cover("taller than the terminal")
		}
		err := r.Render(view)
		zzsym.Assert(err == nil, "Render failed")
		s.Feed(string(out.b))
		out.b = nil
		top := s.Y - n + 1
		prev = n
		zzsym.Assert(top >= 0, "the view does not fit above the cursor")
		ok := true
		for y := 0; y < H; y++ {
			for x := 0; x < W; x++ {
				c := s.At(x, y)
				e := cell{' ', vt.DefaultAttr, 1}
				if y < top {
					if x < W0 {
						e.r = '#'
					}
				} else if y-top < n && x < len(rows[y-top]) {
					e = rows[y-top][x]
				}
				ok = ok && c.R == e.r && c.A == e.a && c.W == e.w
			}
		}
		zzsym.Assert(ok, "the screen does not show the view")
		zzsym.Assert(s.X == 0 && s.Cur == vt.DefaultAttr && !s.Mid() && s.Strange == 0, "cursor or attributes left wrong")
		zzsym.Assert(top == y0-s.Scrolls, "the view moved")
	}
	zzsym.Cover("end")
}

func main() { zzsym.Main(map[string]func(){"Views": Views}) }
