// Checks on style: rendering, colours, themes.
package main

import (
	"strings"

	style "ZM"
	"ZM/internal/domain/model"
	"ZM/internal/domain/service"
	"ZM/internal/domain/value"
	"ZZ/vt"
	"ZZ/zzsym"
)

// glyph is a user-perceived character of the content.
type glyph struct {
	s    string
	r    rune
	w    int
	comb int
}

var wides = []glyph{
	{"世", '世', 2, 0},
	{"e\u0301", 'e', 1, 1},
	{"🚀", '🚀', 2, 0},
	{"ñ", 'ñ', 1, 0},
	{" ", ' ', 1, 0},
}

// sty is the style as the test set it up; -1: unset.
type sty struct {
	border        int // 0 none, 1 set
	b             [8]string
	top, bot      bool
	left, right   bool
	bcol, fg, bg  int // -1 or rgb
	flags         int
	pad, mar      [4]int // top right bottom left
	hasPad        bool
	hasMar        bool
	width, height int // -1 unset
	ha, va        int // -1 unset
	cap           int
}

func plain() sty {
	return sty{bcol: -1, fg: -1, bg: -1, width: -1, height: -1, ha: -1, va: -1, cap: 3}
}

func rgb(v int) style.Color { return style.RGB(uint8(v>>16), uint8(v>>8), uint8(v)) }

func (y *sty) build() style.Style {
	s := style.New()
	if y.border != 0 {
		s = s.Border(style.NewBorder(y.b[0], y.b[1], y.b[2], y.b[3], y.b[4], y.b[5], y.b[6], y.b[7]))
		s = s.BorderTop(y.top).BorderBottom(y.bot).BorderLeft(y.left).BorderRight(y.right)
	}
	if y.bcol >= 0 {
		s = s.BorderColor(rgb(y.bcol))
	}
	if y.fg >= 0 {
		s = s.Foreground(rgb(y.fg))
	}
	if y.bg >= 0 {
		s = s.Background(rgb(y.bg))
	}
	if y.flags&vt.Bold != 0 {
		s = s.Bold(true)
	}
	if y.flags&vt.Italic != 0 {
		s = s.Italic(true)
	}
	if y.flags&vt.Underline != 0 {
		s = s.Underline(true)
	}
	if y.flags&vt.Strike != 0 {
		s = s.Strikethrough(true)
	}
	if y.hasPad {
		s = s.Padding(style.NewPadding(y.pad[0], y.pad[1], y.pad[2], y.pad[3]))
	}
	if y.hasMar {
		s = s.Margin(style.NewMargin(y.mar[0], y.mar[1], y.mar[2], y.mar[3]))
	}
	if y.width >= 0 {
		s = s.Width(y.width)
	}
	if y.height >= 0 {
		s = s.Height(y.height)
	}
	if y.ha >= 0 {
		s = s.AlignHorizontal(value.HorizontalAlignment(y.ha))
	}
	if y.va >= 0 {
		s = s.AlignVertical(value.VerticalAlignment(y.va))
	}
	if y.cap != 3 {
		s = s.TerminalCapability(value.TerminalCapability(y.cap))
	}
	return s
}

// cell is what a cell of the picture has to show.
type cell struct {
	set  bool // has to be as told; else blank
	r    rune
	w    int
	comb int
	a    vt.Attr
}

type picture struct {
	w, h  int
	cells map[[2]int]cell
	bgs   map[[2]int]int // blanks whose background is told
	wide  int            // width of every line if all are as wide, else -1
}

func lineWidth(l []glyph) int {
	n := 0
	for _, g := range l {
		n += g.w
	}
	return n
}

// color is how a colour shows under a capability, for the colours used here
// (which every capability has).
func color(c, cap int) int {
	if c < 0 || cap == 0 {
		return -1
	}
	if cap == 3 {
		return 1<<24 | c
	}
	switch c {
	case 0xff0000:
		return pick(cap == 1, 9, 196)
	case 0x0000ff:
		return pick(cap == 1, 12, 21)
	case 0x00ff00:
		return pick(cap == 1, 10, 46)
	}
	zzsym.Assert(false, "colour of the table")
	return 0
}

func pick(b bool, x, y int) int {
	if b {
		return x
	}
	return y
}

// align places lines within a width and a height as the style asks; it returns
// the lines with their column and the rows above.
func (y *sty) align(ls [][]glyph) (out [][]glyph, cols []int, w []int) {
	for _, l := range ls {
		col, n := 0, lineWidth(l)
		if y.width > 0 {
			var cut []glyph
			n = 0
			for _, g := range l {
				if n+g.w > y.width {
					break
				}
				cut = append(cut, g)
				n += g.w
			}
			l = cut
			free := y.width - n
			switch y.ha {
			case 1:
				col = (free + 1) / 2
			case 2:
				col = free
			}
			n = y.width
		}
		out, cols, w = append(out, l), append(cols, col), append(w, n)
	}
	if y.height > 0 {
		if len(out) > y.height {
			out, cols, w = out[:y.height], cols[:y.height], w[:y.height]
		}
		free := y.height - len(out)
		above := 0
		switch y.va {
		case 1:
			above = (free + 1) / 2
		case 2:
			above = free
		}
		var o2 [][]glyph
		var c2, w2 []int
		for i := 0; i < y.height; i++ {
			k := i - above
			if k >= 0 && k < len(out) {
				o2, c2, w2 = append(o2, out[k]), append(c2, cols[k]), append(w2, w[k])
			} else {
				o2, c2, w2 = append(o2, nil), append(c2, 0), append(w2, 0)
			}
		}
		out, cols, w = o2, c2, w2
	}
	return
}

// expect draws what the style makes of the lines; in is the style the content
// itself had been rendered with (text attributes only), or nil.
func (y *sty) expect(ls [][]glyph, in *sty) *picture {
	p := &picture{cells: map[[2]int]cell{}, bgs: map[[2]int]int{}}
	lines, cols, ws := y.align(ls)
	inner := 0
	for _, w := range ws {
		inner = max(inner, w)
	}
	pad, mar := [4]int{}, [4]int{}
	if y.hasPad {
		pad = y.pad
	}
	if y.hasMar {
		mar = y.mar
	}
	inner += pad[1] + pad[3]
	rows := len(lines) + pad[0] + pad[2]
	on := y.border != 0 && (y.top || y.bot || y.left || y.right)
	x0, y0 := mar[3], mar[0]
	bl, bt := 0, 0
	if on && y.left {
		bl = len([]rune(y.b[2]))
	}
	br := 0
	if on && y.right {
		br = len([]rune(y.b[3]))
	}
	if on && y.top {
		bt = 1
	}
	ta := vt.Attr{Fg: color(y.fg, y.cap), Bg: color(y.bg, y.cap), Flags: y.flags}
	ba := ta
	if c := color(y.bcol, y.cap); c >= 0 {
		ba.Fg = c
	}
	put := func(x, yy int, s string) {
		for i, r := range []rune(s) {
			p.cells[[2]int{x + i, yy}] = cell{true, r, 1, 0, ba}
		}
	}
	if on {
		for r := 0; r < rows; r++ {
			yy := y0 + bt + r
			if y.left {
				put(x0, yy, y.b[2])
			}
			if y.right {
				put(x0+bl+inner, yy, y.b[3])
			}
			for x := 0; x < inner; x++ {
				p.bgs[[2]int{x0 + bl + x, yy}] = ta.Bg
			}
		}
		edge := func(yy int, mid, l, r string) {
			x := x0
			if y.left {
				put(x, yy, l)
				x += len([]rune(l))
			}
			for i := 0; i < inner; i++ {
				put(x, yy, mid)
				x += len([]rune(mid))
			}
			if y.right {
				put(x, yy, r)
			}
		}
		if y.top {
			edge(y0, y.b[0], y.b[4], y.b[5])
		}
		if y.bot {
			edge(y0+bt+rows, y.b[1], y.b[6], y.b[7])
		}
	}
	if in != nil {
		if c := color(in.fg, in.cap); c >= 0 {
			ta.Fg = c
		}
		if c := color(in.bg, in.cap); c >= 0 {
			ta.Bg = c
		}
		ta.Flags |= in.flags
	}
	for i, l := range lines {
		x := x0 + bl + pad[3] + cols[i]
		for _, g := range l {
			p.cells[[2]int{x, y0 + bt + pad[0] + i}] = cell{true, g.r, g.w, g.comb, ta}
			x += g.w
		}
	}
	p.h = y0 + bt + rows + mar[2]
	if on && y.bot {
		p.h++
	}
	p.wide = -1
	if on || y.width > 0 {
		p.wide = mar[3] + bl + inner + br + mar[1]
		if on && len(y.b[0]) == 0 {
			p.wide = -1
		}
	}
	return p
}

func (p *picture) check(out string) {
	const W, H = 24, 16
	zzsym.Assert(strings.Count(out, "\n") == p.h-1, "the rendering has as many lines as margin, border, padding and content make")
	s := vt.New(W, H)
	s.CRLF = true
	line, ok := 0, true
	for _, l := range strings.Split(out, "\n") {
		s.Feed(l)
		if p.wide >= 0 {
			ok = ok && s.X == p.wide && s.Y == line
		}
		line++
		s.Feed("\n")
	}
	zzsym.Assert(ok, "all lines of a box are as wide as the box")
	zzsym.Assert(s.Strange == 0, "the terminal understands the rendering")
	zzsym.Assert(s.Cur == vt.DefaultAttr, "no colour or decoration is left switched on at the end")
	chars, attrs, blanks, bgs := true, true, true, true
	for yy := 0; yy < H; yy++ {
		for x := 0; x < W; x++ {
			c := s.At(x, yy)
			if e, ok := p.cells[[2]int{x, yy}]; ok {
				chars = chars && c.R == e.r && c.W == e.w && c.Comb == e.comb
				if e.r != ' ' {
					attrs = attrs && c.A == e.a
				} else {
					attrs = attrs && c.A.Bg == e.a.Bg
				}
				continue
			}
			blanks = blanks && (c.R == ' ' || c.W == 0)
			if b, ok := p.bgs[[2]int{x, yy}]; ok && c.W != 0 {
				bgs = bgs && c.A.Bg == b
			}
		}
	}
	zzsym.Assert(chars, "border and text are where margin, border, padding and alignment put them")
	zzsym.Assert(blanks, "everything else is blank")
	zzsym.Assert(attrs, "border and text have the colours and decorations of the style")
	zzsym.Assert(bgs, "the background fills the box")
}

// text is a content of up to n lines of up to m characters; the first byte of
// each is any printable character.
func text(n, m int) (string, [][]glyph) {
	k := 1 + zzsym.Choose(n)
	var ls [][]glyph
	var sb strings.Builder
	for i := 0; i < k; i++ {
		if i > 0 {
			sb.WriteByte('\n')
		}
		var l []glyph
		c := zzsym.Choose(m + 1)
		if c == 0 && i == 0 && (k == 1 || zzsym.Param("box", 0) != 0) {
			c = 1
		}
		for j := 0; j < c; j++ {
			if j > 0 || zzsym.Param("wide", 0) != 0 {
				g := wides[zzsym.Choose(zzsym.Param("kinds", 0))]
				l = append(l, g)
				sb.WriteString(g.s)
				continue
			}
			b := zzsym.Byte()
			zzsym.Assume(b > ' ' && b < 0x7f)
			l = append(l, glyph{string(rune(b)), rune(b), 1, 0})
			sb.WriteByte(b)
		}
		ls = append(ls, l)
	}
	return sb.String(), ls
}

var cols = []int{-1, 0xff0000, 0x0000ff, 0x00ff00}

func (y *sty) sides(kinds int) {
	switch zzsym.Choose(kinds) {
	case 0:
		y.b = [8]string{"t", "b", "l", "r", "1", "2", "3", "4"}
	case 1:
		y.b = [8]string{"─", "━", "│", "┃", "╭", "╮", "╰", "╯"}
	case 2:
		y.b = [8]string{"-", "=", "<<", ">>", "1a", "2a", "3a", "4a"}
	case 3:
		y.b = [8]string{}
	}
	y.border = 1
	y.top, y.bot, y.left, y.right = zzsym.Bool(), zzsym.Bool(), zzsym.Bool(), zzsym.Bool()
}

func (y *sty) spacing(m *[4]int, n int) {
	for i := range m {
		m[i] = zzsym.Choose(n + 1)
	}
}

// Box: border, padding, margin around a text.
func Box() {
	y := plain()
	if zzsym.Param("border", 0) != 0 {
		y.sides(zzsym.Param("border", 0))
		y.bcol = cols[zzsym.Choose(2)]
	}
	if n := zzsym.Param("pad", 0); n != 0 {
		y.hasPad = true
		y.spacing(&y.pad, n)
	}
	if n := zzsym.Param("mar", 0); n != 0 {
		y.hasMar = true
		y.spacing(&y.mar, n)
	}
	if zzsym.Param("colors", 0) != 0 {
		y.fg, y.bg = -1, 0x0000ff
		y.flags = vt.Underline
	}
	s, ls := text(zzsym.Param("lines", 0), zzsym.Param("chars", 0))
	zzsym.ObserveStr("text", s)
	out := style.Render(y.build(), s)
	zzsym.ObserveStr("out", out)
	y.expect(ls, nil).check(out)
	zzsym.Cover("end")
}

// Align: exact width and height, with every alignment.
func Align() {
	y := plain()
	y.width = zzsym.Choose(zzsym.Param("w", 0)+2) - 1
	y.height = zzsym.Choose(zzsym.Param("h", 0)+2) - 1
	y.ha = zzsym.Choose(4) - 1
	y.va = zzsym.Choose(4) - 1
	if zzsym.Param("box", 0) != 0 {
		y.b = [8]string{"t", "b", "l", "r", "1", "2", "3", "4"}
		y.border, y.top, y.bot, y.left, y.right = 1, true, true, true, true
		y.hasPad, y.pad = true, [4]int{0, 1, 1, 2}
		y.hasMar, y.mar = true, [4]int{1, 0, 0, 1}
	}
	s, ls := text(zzsym.Param("lines", 0), zzsym.Param("chars", 0))
	zzsym.ObserveStr("text", s)
	out := style.Render(y.build(), s)
	zzsym.ObserveStr("out", out)
	zzsym.ObserveInt("width", y.width)
	y.expect(ls, nil).check(out)
	zzsym.Cover("end")
}

// Paint: colours and decorations, of text and border, also around content that
// was rendered before.
func Paint() {
	y := plain()
	n := zzsym.Param("cols", 0)
	y.fg, y.bg = cols[zzsym.Choose(n)], cols[zzsym.Choose(n)]
	y.flags = []int{0, vt.Bold, vt.Italic, vt.Underline, vt.Strike, vt.Bold|vt.Underline, vt.Italic|vt.Strike, vt.Bold|vt.Italic|vt.Underline|vt.Strike}[zzsym.Choose(len([]int{0, vt.Bold, vt.Italic, vt.Underline, vt.Strike, vt.Bold|vt.Underline, vt.Italic|vt.Strike, vt.Bold|vt.Italic|vt.Underline|vt.Strike}))]
	y.cap = 3 - zzsym.Choose(zzsym.Param("caps", 0))
	if zzsym.Param("border", 0) != 0 {
		y.b = [8]string{"t", "b", "l", "r", "1", "2", "3", "4"}
		y.border, y.top, y.bot, y.left, y.right = 1, true, true, true, true
		y.bcol = cols[zzsym.Choose(n)]
		y.hasMar, y.mar = true, [4]int{1, 1, 1, 1}
	}
	s, ls := text(zzsym.Param("lines", 0), zzsym.Param("chars", 0))
	var in *sty
	if zzsym.Param("inner", 0) != 0 {
		i := plain()
		i.cap = y.cap
		in = &i
		in.fg, in.bg = cols[zzsym.Choose(n)], cols[zzsym.Choose(2)]
		in.flags = []int{0, vt.Bold, vt.Italic|vt.Strike}[zzsym.Choose(len([]int{0, vt.Bold, vt.Italic|vt.Strike}))]
		var parts []string
		for _, l := range strings.Split(s, "\n") {
			if l != "" {
				l = style.Render(in.build(), l)
			}
			parts = append(parts, l)
		}
		s = strings.Join(parts, "\n")
		if zzsym.Bool() {
			y.width, y.ha = zzsym.Choose(5), zzsym.Choose(3)
		}
	}
	zzsym.ObserveStr("text", s)
	out := style.Render(y.build(), s)
	zzsym.ObserveStr("out", out)
	y.expect(ls, in).check(out)
	zzsym.Cover("end")
}

// Limits: content that does not keep the size limits, or a style that is not
// valid, is shown as it is.
func Limits() {
	y := plain()
	if zzsym.Bool() {
		y.sides(3)
	}
	if zzsym.Bool() {
		y.hasPad = true
		y.pad = [4]int{1, 0, 1, 2}
		y.hasMar = true
		y.mar = [4]int{0, 3, 1, 0}
	}
	s, ls := text(zzsym.Param("lines", 0), zzsym.Param("chars", 0))
	zzsym.ObserveStr("text", s)
	st := y.build()
	w, h := 0, len(ls)
	for _, l := range ls {
		w = max(w, lineWidth(l))
	}
	w += y.pad[1] + y.pad[3] + y.mar[1] + y.mar[3]
	h += y.pad[0] + y.pad[2] + y.mar[0] + y.mar[2]
	if y.border != 0 {
		if y.left {
			w += len(y.b[2])
			if y.b[2] == "│" {
				w -= 2
			}
		}
		if y.right {
			w += len(y.b[3])
			if y.b[3] == "┃" {
				w -= 2
			}
		}
		if y.top {
			h++
		}
		if y.bot {
			h++
		}
	}
	lim := zzsym.Int(-2, 20)
	bad := false
	lo := max(lim, 0)
	switch zzsym.Choose(4) {
	case 0:
		st = st.MinWidth(lim)
		bad = w < lo
	case 1:
		st = st.MaxWidth(lim)
		bad = w > lo
	case 2:
		st = st.MinHeight(lim)
		bad = h < lo
	case 3:
		st = st.MaxHeight(lim)
		bad = h > lo
	}
	if y.border == 0 && zzsym.Bool() {
		st = st.BorderLeft(true)
		bad = true
	}
	out := style.Render(st, s)
	zzsym.ObserveStr("out", out)
	if bad {
		zzsym.Assert(out == s, "content outside of the size limits is left as it is")
		zzsym.Cover("bad")
	} else {
		y.expect(ls, nil).check(out)
		zzsym.Cover("good")
	}
}

// Fluent: setting a property of a style changes a copy, and nothing else.
func Fluent() {
	base := style.New().PaddingAll(1).MarginAll(2).Width(9).Align(style.NewAlignment(style.AlignCenter, style.AlignMiddle)).
		Foreground(style.Red).Background(style.Blue).Border(style.ThickBorder).BorderColor(style.Green)
	before := look(base)
	n := zzsym.Int(0, 1000)
	type field = int
	var changed style.Style
	want := before
	c := style.RGB(zzsym.Byte(), zzsym.Byte(), zzsym.Byte())
	k := zzsym.Choose(30)
	switch k {
	case 0:
		changed, want.fg = base.Foreground(c), c
	case 1:
		changed, want.bg = base.Background(c), c
	case 2:
		changed, want.bc = base.BorderColor(c), c
	case 3:
		changed, want.pad = base.PaddingTop(n), value.NewPadding(n, 1, 1, 1)
	case 4:
		changed, want.pad = base.PaddingRight(n), value.NewPadding(1, n, 1, 1)
	case 5:
		changed, want.pad = base.PaddingBottom(n), value.NewPadding(1, 1, n, 1)
	case 6:
		changed, want.pad = base.PaddingLeft(n), value.NewPadding(1, 1, 1, n)
	case 7:
		changed, want.pad = base.PaddingHorizontal(n), value.NewPadding(1, n, 1, n)
	case 8:
		changed, want.pad = base.PaddingVertical(n), value.NewPadding(n, 1, n, 1)
	case 9:
		changed, want.mar = base.MarginTop(n), value.NewMargin(n, 2, 2, 2)
	case 10:
		changed, want.mar = base.MarginRight(n), value.NewMargin(2, n, 2, 2)
	case 11:
		changed, want.mar = base.MarginBottom(n), value.NewMargin(2, 2, n, 2)
	case 12:
		changed, want.mar = base.MarginLeft(n), value.NewMargin(2, 2, 2, n)
	case 13:
		changed, want.mar = base.MarginHorizontal(n), value.NewMargin(2, n, 2, n)
	case 14:
		changed, want.mar = base.MarginVertical(n), value.NewMargin(n, 2, n, 2)
	case 15:
		changed, want.size[0] = base.Width(n), n
	case 16:
		changed, want.size[1] = base.Height(n), n
	case 17:
		changed, want.size[2] = base.MinWidth(n), n
	case 18:
		changed, want.size[3] = base.MaxWidth(n), n
	case 19:
		changed, want.size[4] = base.MinHeight(n), n
	case 20:
		changed, want.size[5] = base.MaxHeight(n), n
	case 21:
		changed, want.h = base.AlignHorizontal(value.AlignRight), value.AlignRight
	case 22:
		changed, want.v = base.AlignVertical(value.AlignBottom), value.AlignBottom
	case 23:
		changed, want.flags = base.Bold(true), 1
	case 24:
		changed, want.flags = base.Italic(true), 2
	case 25:
		changed, want.flags = base.Underline(true), 4
	case 26:
		changed, want.flags = base.Strikethrough(true), 8
	case 27:
		changed, want.b = base.Border(style.ASCIIBorder), style.ASCIIBorder
	case 28:
		changed, want.pad = base.PaddingAll(n), value.NewPadding(n, n, n, n)
	case 29:
		changed, want.mar = base.MarginAll(n), value.NewMargin(n, n, n, n)
	}
	zzsym.ObserveInt("k", k)
	zzsym.Assert(look(changed) == want, "a setter sets what it names and nothing else")
	zzsym.Assert(look(base) == before, "a setter leaves the style it is called on alone")
	zzsym.Cover("end")
}

type looks struct {
	fg, bg, bc style.Color
	b          style.Border
	sides      [4]bool
	pad        style.Padding
	mar        style.Margin
	size       [6]int
	h          value.HorizontalAlignment
	v          value.VerticalAlignment
	flags      int
}

func look(s style.Style) (l looks) {
	l.fg, _ = s.GetForeground()
	l.bg, _ = s.GetBackground()
	l.bc, _ = s.GetBorderColor()
	l.b, _ = s.GetBorder()
	l.sides = [4]bool{s.GetBorderTop(), s.GetBorderRight(), s.GetBorderBottom(), s.GetBorderLeft()}
	l.pad, _ = s.GetPadding()
	l.mar, _ = s.GetMargin()
	l.size = [6]int{-1, -1, -1, -1, -1, -1}
	if z, ok := s.GetSize(); ok {
		for i, f := range []func() (int, bool){z.Width, z.Height, z.MinWidth, z.MaxWidth, z.MinHeight, z.MaxHeight} {
			if n, ok := f(); ok {
				l.size[i] = n
			}
		}
	}
	if a, ok := s.GetAlignment(); ok {
		l.h, l.v = a.Horizontal(), a.Vertical()
	}
	for i, b := range []bool{s.GetBold(), s.GetItalic(), s.GetUnderline(), s.GetStrikethrough()} {
		if b {
			l.flags |= 1 << i
		}
	}
	return
}

// ---------------------------------------------------------------------------
// colours

// shown is the colour a terminal shows text in after the sequence.
func shown(fg, bg string) vt.Attr {
	s := vt.New(4, 1)
	s.Feed(fg + bg + "x")
	zzsym.Assert(s.Strange == 0, "the terminal understands the colour")
	zzsym.Assert(s.At(0, 0).R == 'x' && s.X == 1, "a colour shows no text")
	zzsym.Assert(s.At(0, 0).A.Flags == 0, "a colour sets no decoration")
	return s.At(0, 0).A
}

// TrueColor: exactly the colour.
func TrueColor() {
	a := service.NewColorAdapter()
	r, g, b := zzsym.Byte(), zzsym.Byte(), zzsym.Byte()
	c := style.RGB(r, g, b)
	v := 1<<24 | int(r)<<16 | int(g)<<8 | int(b)
	if zzsym.Bool() {
		x := shown(a.ToANSIForeground(c, value.TrueColor), "")
		zzsym.Assert(x.Fg == v && x.Bg == -1, "a true colour terminal shows exactly the colour of the text")
	} else {
		x := shown("", a.ToANSIBackground(c, value.TrueColor))
		zzsym.Assert(x.Bg == v && x.Fg == -1, "a true colour terminal shows exactly the colour of the background")
	}
	zzsym.Assert(a.ToANSIForeground(c, value.NoColor) == "" && a.ToANSIBackground(c, value.NoColor) == "", "no colour, no sequence")
	zzsym.Cover("end")
}

var cube = [6]int{0, 95, 135, 175, 215, 255}

// code parses the palette number of a sequence without a terminal.
func code(s, pre string) int {
	zzsym.Assert(strings.HasPrefix(s, pre) && strings.HasSuffix(s, "m"), "a palette colour sequence")
	n := 0
	for i := len(pre); i < len(s)-1; i++ {
		zzsym.Assert(s[i] >= '0' && s[i] <= '9', "a palette colour number")
		n = n*10 + int(s[i]-'0')
	}
	return n
}

func palette(n int) (int, int, int) {
	if n >= 232 {
		v := 8 + 10*(n-232)
		return v, v, v
	}
	n -= 16
	return cube[n/36], cube[n/6%6], cube[n%6]
}

func far(a, b int) int {
	if a < b {
		return b - a
	}
	return a - b
}

// Palette256: a colour of the palette is shown as itself, any other as one whose
// red, green and blue are close.
func Palette256() {
	a := service.NewColorAdapter()
	r, g, b := zzsym.Byte(), zzsym.Byte(), zzsym.Byte()
	c := style.RGB(r, g, b)
	n := code(a.ToANSIForeground(c, value.ANSI256), "\x1b[38;5;")
	zzsym.Assert(n == code(a.ToANSIBackground(c, value.ANSI256), "\x1b[48;5;"), "text and background have the same palette")
	zzsym.Assert(n >= 16 && n <= 255, "a palette colour every terminal shows the same")
	x, y, z := palette(n)
	zzsym.ObserveInt("n", n)
	zzsym.Assert(far(x, int(r)) <= 47 && far(y, int(g)) <= 47 && far(z, int(b)) <= 47, "no part of the colour is further off than the palette's steps")
	zzsym.Cover("end")
}

// Own256: every colour of the palette, through Color256.
func Own256() {
	a := service.NewColorAdapter()
	for i := 0; i < 16; i++ {
		r, g, b := style.Color16(uint8(i)).RGB()
		zzsym.Assert(int(r) == sixteen[i][0] && int(g) == sixteen[i][1] && int(b) == sixteen[i][2], "Color16 is the colour of the terminal's table")
		c := style.Color256(uint8(i))
		zzsym.Assert(c == style.Color16(uint8(i)), "the first sixteen colours of the palette are those of the table")
	}
	for n := 16; n < 256; n++ {
		c := style.Color256(uint8(n))
		r, g, b := c.RGB()
		x, y, z := palette(n)
		zzsym.Assert(int(r) == x && int(g) == y && int(b) == z, "Color256 is the colour of the palette")
		m := code(a.ToANSIForeground(c, value.ANSI256), "\x1b[38;5;")
		if x != y || y != z || n >= 232 || n == 16 || n == 231 {
			zzsym.Assert(m == n, "a colour of the palette is shown as itself")
		}
	}
	zzsym.Cover("end")
}

var sixteen = [16][3]int{{0, 0, 0}, {128, 0, 0}, {0, 128, 0}, {128, 128, 0}, {0, 0, 128}, {128, 0, 128}, {0, 128, 128}, {192, 192, 192},
	{128, 128, 128}, {255, 0, 0}, {0, 255, 0}, {255, 255, 0}, {0, 0, 255}, {255, 0, 255}, {0, 255, 255}, {255, 255, 255}}

// Palette16: the nearest of the sixteen colours.
func Palette16() {
	a := service.NewColorAdapter()
	r, g, b := zzsym.Byte(), zzsym.Byte(), zzsym.Byte()
	c := style.RGB(r, g, b)
	x := shown(a.ToANSIForeground(c, value.ANSI16), a.ToANSIBackground(c, value.ANSI16))
	zzsym.Assert(x.Fg == x.Bg && x.Fg >= 0 && x.Fg < 16, "one of the sixteen colours, the same for text and background")
	n := zzsym.Concrete(x.Fg)
	zzsym.ObserveInt("n", n)
	// |p-x|² <= |p-y|² written without the squares of p: 2p(y-x) <= y²-x²
	near := true
	for i, y := range sixteen {
		x, lhs, rhs := sixteen[n], int32(0), int32(0)
		for k, p := range [3]byte{r, g, b} {
			lhs += 2 * int32(p) * int32(y[k]-x[k])
			rhs += int32(y[k]*y[k] - x[k]*x[k])
		}
		if i != n && lhs > rhs {
			near = false
		}
	}
	zzsym.Assert(near, "no other of the sixteen colours is nearer")
	zzsym.Cover("end")
}

func hexv(b byte) (int, bool) {
	switch {
	case b >= '0' && b <= '9':
		return int(b - '0'), true
	case b >= 'a' && b <= 'f':
		return int(b-'a') + 10, true
	case b >= 'A' && b <= 'F':
		return int(b-'A') + 10, true
	}
	return 0, false
}

// Hex: what is written is read back; only #rgb and #rrggbb are colours.
func Hex() {
	if zzsym.Bool() {
		c := style.RGB(zzsym.Byte(), zzsym.Byte(), zzsym.Byte())
		d, err := style.Hex(c.Hex())
		zzsym.Assert(err == nil && d.Equal(c) && d == c, "a colour written in hexadecimal is read back")
		zzsym.Cover("back")
		return
	}
	// one character is any byte, the others are any hexadecimal digits
	n := zzsym.Choose(9)
	any := zzsym.Choose(9)
	raw := make([]byte, n)
	for i := range raw {
		switch {
		case i == any:
			raw[i] = zzsym.Byte()
		case zzsym.Param("digits", 0) != 0:
			raw[i] = "0123456789abcdefABCDEF"[zzsym.Pick(22)]
		default:
			raw[i] = "a9"[i%2]
		}
	}
	s := string(raw)
	h := s
	if len(h) > 0 && h[0] == '#' {
		h = h[1:]
	}
	ok := len(h) == 3 || len(h) == 6
	var v [6]int
	if ok {
		for i := range v {
			j := i
			if len(h) == 3 {
				j = i / 2
			}
			x, good := hexv(h[j])
			ok = ok && good
			v[i] = x
		}
	}
	c, err := style.Hex(s)
	zzsym.Assert(ok == (err == nil), "a colour is three or six hexadecimal digits, # before them or not")
	if ok {
		r, g, b := c.RGB()
		zzsym.Assert(int(r) == v[0]*16+v[1] && int(g) == v[2]*16+v[3] && int(b) == v[4]*16+v[5], "hexadecimal digits are the parts of the colour")
		zzsym.Cover("ok")
	} else {
		zzsym.Cover("bad")
	}
}

// ---------------------------------------------------------------------------
// themes

func colour() style.Color { return style.RGB(zzsym.Byte(), zzsym.Byte(), zzsym.Byte()) }

func theme(name string, k uint8, hidden bool) *style.Theme {
	c := func(i uint8) style.Color { return style.RGB(k, i, 7) }
	b := func(s string) style.Border {
		if hidden {
			return style.Border{}
		}
		return style.NewBorder(s, s, s, s, s, s, s, s)
	}
	return style.NewTheme(name,
		style.NewColorPalette(c(1), c(2), c(3), c(4), c(5), c(6), c(7), c(8), c(9), c(10), c(11), c(12), c(13)),
		style.NewBorderStyles(b(name+"d"), b(name+"i"), b(name+"m"), b(name+"t"), b(name+"p")),
		style.NewSpacingScale(int(k)+1, int(k)+2, int(k)+3, int(k)+4, int(k)+5),
		style.NewTypography(c(14), c(15), c(16), c(17)))
}

// Merge: what the override sets replaces, the rest stays.
func Merge() {
	base, over := theme("a", 1, false), theme("b", 2, false)
	oc, ob, os, ot := over.Colors(), over.Borders(), over.Spacing(), over.Typography()
	wc, wb, ws, wt := oc, ob, os, ot
	bc, bb, bs, bt := base.Colors(), base.Borders(), base.Spacing(), base.Typography()
	k := zzsym.Choose(27)
	var c style.Color
	n := 0
	var bd style.Border
	if k < 17 {
		c = colour()
	} else if k < 22 {
		if zzsym.Bool() {
			i := zzsym.Choose(8)
			f := []*string{&bd.Top, &bd.Bottom, &bd.Left, &bd.Right, &bd.TopLeft, &bd.TopRight, &bd.BottomLeft, &bd.BottomRight}
			*f[i] = "x"
		}
	} else {
		n = zzsym.Int(0, 100)
	}
	cs := []*style.Color{&oc.Primary, &oc.Secondary, &oc.Background, &oc.Surface, &oc.Text, &oc.TextMuted, &oc.Error, &oc.Warning, &oc.Success, &oc.Info, &oc.Border, &oc.Focus, &oc.Disabled,
		&ot.PlaceholderColor, &ot.CodeColor, &ot.LinkColor, &ot.HeadingColor}
	wcs := []*style.Color{&wc.Primary, &wc.Secondary, &wc.Background, &wc.Surface, &wc.Text, &wc.TextMuted, &wc.Error, &wc.Warning, &wc.Success, &wc.Info, &wc.Border, &wc.Focus, &wc.Disabled,
		&wt.PlaceholderColor, &wt.CodeColor, &wt.LinkColor, &wt.HeadingColor}
	bcs := []style.Color{bc.Primary, bc.Secondary, bc.Background, bc.Surface, bc.Text, bc.TextMuted, bc.Error, bc.Warning, bc.Success, bc.Info, bc.Border, bc.Focus, bc.Disabled,
		bt.PlaceholderColor, bt.CodeColor, bt.LinkColor, bt.HeadingColor}
	obs := []*style.Border{&ob.Default, &ob.Input, &ob.Modal, &ob.Table, &ob.Panel}
	wbs := []*style.Border{&wb.Default, &wb.Input, &wb.Modal, &wb.Table, &wb.Panel}
	bbs := []style.Border{bb.Default, bb.Input, bb.Modal, bb.Table, bb.Panel}
	oss := []*int{&os.XS, &os.SM, &os.MD, &os.LG, &os.XL}
	wss := []*int{&ws.XS, &ws.SM, &ws.MD, &ws.LG, &ws.XL}
	bss := []int{bs.XS, bs.SM, bs.MD, bs.LG, bs.XL}
	switch {
	case k < 17:
		*cs[k] = c
		*wcs[k] = c
		if r, g, b := c.RGB(); r == 0 && g == 0 && b == 0 {
			*wcs[k] = bcs[k]
		}
	case k < 22:
		*obs[k-17] = bd
		*wbs[k-17] = bd
		if bd == (style.Border{}) {
			*wbs[k-17] = bbs[k-17]
		}
	default:
		*oss[k-22] = n
		*wss[k-22] = n
		if n == 0 {
			*wss[k-22] = bss[k-22]
		}
	}
	over = over.WithColors(oc).WithBorders(ob).WithSpacing(os).WithTypography(ot)
	got := base.Merge(over)
	zzsym.ObserveInt("k", k)
	zzsym.Assert(*got == *style.NewTheme("b", wc, wb, ws, wt), "merging takes what the other theme sets and keeps the rest")
	zzsym.Assert(*base == *theme("a", 1, false), "merging leaves the theme alone")
	zzsym.Cover("end")
}

// Manager: threads change the theme at once; each sees and leaves whole themes.
func Manager() {
	a, b, c := theme("a", 1, false), theme("b", 2, false), theme("c", 3, false)
	m := style.NewThemeManager(a)
	zzsym.Assert(m.Current() == a, "the manager starts with its theme")
	type res struct {
		op   int
		prev *style.Theme
	}
	part := style.NewTheme("p", style.ColorPalette{Primary: style.RGB(9, 9, 9)}, style.BorderStyles{}, style.SpacingScale{}, style.Typography{})
	done := make(chan res, 2)
	ops := [2]int{zzsym.Choose(6), zzsym.Choose(6)}
	ths := [2]*style.Theme{b, c}
	for i := 0; i < 2; i++ {
		i := i
		go func() {
			var p *style.Theme
			switch ops[i] {
			case 0:
				p = m.SetTheme(ths[i])
			case 1:
				m.MergeTheme(part)
			case 2:
				zzsym.Assert(m.SetPreset([]string{"Dark", "Light"}[i]), "a preset is found")
			case 3:
				p = m.SetTheme(nil)
			case 4:
				p = m.Current()
			case 5:
				zzsym.Assert(!m.SetPreset("no"), "no such preset")
			}
			done <- res{i, p}
		}()
	}
	var prev [2]*style.Theme
	for i := 0; i < 2; i++ {
		r := <-done
		prev[r.op] = r.prev
	}
	got := m.Current()
	// one after the other, in either order
	match := false
	for first := 0; first < 2; first++ {
		cur := *a
		ok := true
		for k := 0; k < 2; k++ {
			i := first ^ k
			switch ops[i] {
			case 0:
				ok = ok && prev[i] != nil && *prev[i] == cur
				cur = *ths[i]
			case 1:
				cur = *cur.Merge(part)
			case 2:
				cur = *style.ThemeByName([]string{"Dark", "Light"}[i])
			case 3, 4:
				ok = ok && prev[i] != nil && *prev[i] == cur
			}
		}
		match = match || ok && *got == cur
	}
	zzsym.Assert(match, "changes of the theme happen one after the other")
	names := m.AvailablePresets()
	for _, n := range names {
		p := model.PresetByName(n)
		zzsym.Assert(p != nil && p.Name() == n, "a preset has its name")
	}
	m.Reset()
	zzsym.Assert(*m.Current() == *style.DefaultTheme(), "reset brings the default theme back")
	zzsym.Cover("end")
}

func main() {
	zzsym.Main(map[string]func(){"Box": Box, "Align": Align, "Paint": Paint, "Limits": Limits, "Fluent": Fluent,
		"TrueColor": TrueColor, "Palette256": Palette256, "Own256": Own256, "Palette16": Palette16, "Hex": Hex, "Merge": Merge, "Manager": Manager})
}
