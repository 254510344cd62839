// Checks on layout: boxes, flex containers.
package main

import (
	"strings"

	layout "ZM"
	"ZM/internal/domain/model"
	"ZM/internal/domain/service"
	"ZM/internal/domain/value"
	"ZZ/vt"
	"ZZ/zzsym"
)

// glyph is a user-perceived character of the content.
type glyph struct {
	s    string
	r    rune
	w    int
	comb int
}

var wides = []glyph{
	{"世", '世', 2, 0},
	{"e\u0301", 'e', 1, 1},
	{"🚀", '🚀', 2, 0},
	{"ñ", 'ñ', 1, 0},
	{" ", ' ', 1, 0},
}

// lines is the content of a box: 1..n lines of 0..m characters (not empty),
// the first character of each any printable one.
func lines(n, m int) (string, [][]glyph) {
	k := 1 + zzsym.Choose(n)
	var ls [][]glyph
	var sb strings.Builder
	for i := 0; i < k; i++ {
		if i > 0 {
			sb.WriteByte('\n')
		}
		var l []glyph
		c := zzsym.Choose(m + 1)
		if c == 0 && k == 1 {
			c = 1
		}
		for j := 0; j < c; j++ {
			if n := zzsym.Param("kinds", 0); n > 0 && (j > 0 || zzsym.Param("wide", 0) != 0) {
				g := wides[zzsym.Choose(n)]
				l = append(l, g)
				sb.WriteString(g.s)
				continue
			}
			b := zzsym.Byte()
			zzsym.Assume(b > ' ' && b < 0x7f)
			l = append(l, glyph{string(rune(b)), rune(b), 1, 0})
			sb.WriteByte(b)
		}
		ls = append(ls, l)
	}
	return sb.String(), ls
}

func wide(ls [][]glyph) int {
	w := 0
	for _, l := range ls {
		n := 0
		for _, g := range l {
			n += g.w
		}
		w = max(w, n)
	}
	return w
}

// box is a box as the test set it up.
type box struct {
	ls       [][]glyph
	pad, mar [4]int // top right bottom left
	border   bool
}

type cell struct {
	r    rune
	w    int
	comb int
}

type cells map[[2]int]cell

// draw puts what shows of a box at a position.
func (b *box) draw(c cells, x0, y0 int) {
	x, y := x0+b.mar[3], y0+b.mar[0]
	w := wide(b.ls) + b.pad[1] + b.pad[3]
	h := len(b.ls) + b.pad[0] + b.pad[2]
	if b.border {
		w += 2
		c[[2]int{x, y}] = cell{'┌', 1, 0}
		c[[2]int{x + w + 1, y}] = cell{'┐', 1, 0}
		c[[2]int{x, y + h + 1}] = cell{'└', 1, 0}
		c[[2]int{x + w + 1, y + h + 1}] = cell{'┘', 1, 0}
		for i := 1; i <= w; i++ {
			c[[2]int{x + i, y}] = cell{'─', 1, 0}
			c[[2]int{x + i, y + h + 1}] = cell{'─', 1, 0}
		}
		for i := 1; i <= h; i++ {
			c[[2]int{x, y + i}] = cell{'│', 1, 0}
			c[[2]int{x + w + 1, y + i}] = cell{'│', 1, 0}
		}
		x, y = x+2, y+1
	}
	for i, l := range b.ls {
		cx := x + b.pad[3]
		for _, g := range l {
			c[[2]int{cx, y + b.pad[0] + i}] = cell{g.r, g.w, g.comb}
			cx += g.w
		}
	}
}

// drawn is the number of columns and rows of a box that is drawn.
func (b *box) drawn() (int, int) {
	w := wide(b.ls) + b.pad[1] + b.pad[3] + b.mar[1] + b.mar[3]
	h := len(b.ls) + b.pad[0] + b.pad[2] + b.mar[0] + b.mar[2]
	if b.border {
		w, h = w+4, h+2
	}
	return w, h
}

// compare shows out on a screen of w columns (0: any) and h rows.
func compare(out string, c cells, w, h int) {
	const W, H = 26, 16
	zzsym.Assert(strings.Count(out, "\n") == h-1, "the rendering has as many lines as it takes rows")
	s := vt.New(W, H)
	ends := true
	for i, l := range strings.Split(out, "\n") {
		s.Feed(l)
		if w > 0 {
			ends = ends && s.X == w && s.Y == i
		}
		s.Feed("\r\n")
	}
	zzsym.Assert(ends, "every line is as wide as the box or the container")
	zzsym.Assert(s.Strange == 0, "the terminal understands the rendering")
	shown, blank := true, true
	for y := 0; y < H; y++ {
		for x := 0; x < W; x++ {
			g := s.At(x, y)
			if e, ok := c[[2]int{x, y}]; ok {
				shown = shown && g.R == e.r && g.W == e.w && g.Comb == e.comb
				continue
			}
			blank = blank && (g.R == ' ' || g.W == 0)
		}
	}
	zzsym.Assert(shown, "borders and text are where they belong")
	zzsym.Assert(blank, "everything else is blank")
}

func spacing(m *[4]int, n int) {
	for i := range m {
		m[i] = zzsym.Choose(n + 1)
	}
}

func newBox(n, m int) (*layout.Box, *box) {
	s, ls := lines(n, m)
	return layout.NewBox(s), &box{ls: ls}
}

// Box: what is drawn of a box.
func Box() {
	b, e := newBox(zzsym.Param("lines", 2), zzsym.Param("chars", 2))
	spacing(&e.pad, zzsym.Param("pad", 0))
	spacing(&e.mar, zzsym.Param("mar", 0))
	e.border = zzsym.Bool()
	if zzsym.Param("pad", 0) > 0 {
		b = b.Padding(e.pad[0], e.pad[1], e.pad[2], e.pad[3])
	}
	if zzsym.Param("mar", 0) > 0 {
		b = b.Margin(e.mar[0], e.mar[1], e.mar[2], e.mar[3])
	}
	if e.border {
		b = b.Border()
	}
	w, h := 0, 0
	if zzsym.Param("size", 0) != 0 {
		// No size, alignment or drawing changes what is drawn.
		w, h = b.Layout(1000, 1000).X(), b.Layout(1000, 1000).Y()
		zzsym.Assert(w == 0 && h == 0, "a box is at the left and the top at first")
	}
	c := cells{}
	e.draw(c, 0, 0)
	w, h = e.drawn()
	out := b.Render()
	if !e.border {
		w = 0
	}
	compare(out, c, w, h)
	zzsym.Assert(b.Render() == out && b.String() == out, "a box is drawn the same every time")
	zzsym.Cover("end")
}

// Short: the setters for all or opposite sides, and the last setting wins.
func Short() {
	s, ls := "ab\nc", [][]glyph{{{"a", 'a', 1, 0}, {"b", 'b', 1, 0}}, {{"c", 'c', 1, 0}}}
	b, e := layout.NewBox(s), &box{ls: ls}
	for i := 0; i < zzsym.Param("steps", 2); i++ {
		v, w := zzsym.Int(-1, 1), zzsym.Int(-1, 1)
		v, w = zzsym.Concrete(v), zzsym.Concrete(w)
		p, q := max(v, 0), max(w, 0)
		switch zzsym.Choose(8) {
		case 0:
			b = b.PaddingAll(v)
			e.pad = [4]int{p, p, p, p}
		case 1:
			b = b.PaddingVH(v, w)
			e.pad = [4]int{p, q, p, q}
		case 2:
			b = b.Padding(v, w, 1, 0)
			e.pad = [4]int{p, q, 1, 0}
		case 3:
			b = b.MarginAll(v)
			e.mar = [4]int{p, p, p, p}
		case 4:
			b = b.MarginVH(v, w)
			e.mar = [4]int{p, q, p, q}
		case 5:
			b = b.Margin(0, 1, v, w)
			e.mar = [4]int{0, 1, p, q}
		case 6:
			b = b.Border()
			e.border = true
		case 7:
			b = b.NoBorder()
			e.border = false
		}
		if i == 0 && zzsym.Bool() {
			_ = b.Render()
		}
	}
	c := cells{}
	e.draw(c, 0, 0)
	w, h := e.drawn()
	if !e.border {
		w = 0
	}
	compare(b.Render(), c, w, h)
	ew, eh := e.size()
	p := b.AlignRight().Layout(1000, 1000)
	zzsym.Assert(p.X() == 1000-ew, "a box at the right ends at the right edge")
	p = b.AlignBottom().Layout(1000, 1000)
	zzsym.Assert(p.Y() == 1000-eh, "a box at the bottom ends at the bottom edge")
	zzsym.Cover("end")
}

// size is what the box takes in a layout: as drawn, but with room inside the
// border above and below the text.
func (b *box) size() (int, int) {
	w, h := b.drawn()
	if b.border {
		h += 2
	}
	return w, h
}

// Place: the position of a box within a parent.
func Place() {
	s, ls := lines(zzsym.Param("lines", 2), zzsym.Param("chars", 1))
	e := &box{ls: ls}
	big := zzsym.Param("big", 1000)
	for i := range e.pad {
		e.pad[i] = zzsym.Int(0, big)
	}
	for i := range e.mar {
		e.mar[i] = zzsym.Int(0, big)
	}
	b := layout.NewBox(s).
		Padding(e.pad[0], e.pad[1], e.pad[2], e.pad[3]).
		Margin(e.mar[0], e.mar[1], e.mar[2], e.mar[3])
	if e.border = zzsym.Bool(); e.border {
		b = b.Border()
	}
	w, h := e.size()
	across := zzsym.Bool() // which size is limited
	lo, hi, v := -1, -1, -1
	if zzsym.Bool() {
		lo = zzsym.Int(0, big)
	}
	if zzsym.Bool() {
		hi = zzsym.Int(0, big)
		zzsym.Assume(lo <= hi)
	}
	if zzsym.Bool() {
		v = zzsym.Int(0, big)
	}
	size := &h
	if across {
		size = &w
	}
	if lo >= 0 {
		*size = max(*size, lo)
	}
	if hi >= 0 {
		*size = min(*size, hi)
	}
	if v >= 0 {
		*size = v
	}
	set := func() {
		switch {
		case v >= 0 && across:
			b = b.Width(v)
		case v >= 0:
			b = b.Height(v)
		}
	}
	first := zzsym.Bool()
	if first {
		set()
	}
	if across && lo >= 0 {
		b = b.MinWidth(lo)
	} else if lo >= 0 {
		b = b.MinHeight(lo)
	}
	if across && hi >= 0 {
		b = b.MaxWidth(hi)
	} else if hi >= 0 {
		b = b.MaxHeight(hi)
	}
	if !first {
		set()
	}
	pw, ph := zzsym.Int(0, 10*big), zzsym.Int(0, 10*big)
	fx, fy := max(pw-w, 0), max(ph-h, 0)
	x, y := 0, 0
	switch zzsym.Choose(7) {
	case 0:
		b = b.AlignLeft()
	case 1:
		b = b.AlignCenter()
		x, y = fx/2, fy/2
	case 2:
		b = b.AlignRight()
		x = fx
	case 3:
		b = b.AlignTop()
	case 4:
		b = b.AlignMiddle()
		y = fy / 2
	case 5:
		b = b.AlignBottom()
		y = fy
	case 6:
		h, v := zzsym.Choose(3), zzsym.Choose(3)
		b = b.Align(value.HorizontalAlignment(h), value.VerticalAlignment(v))
		x, y = []int{0, fx / 2, fx}[h], []int{0, fy / 2, fy}[v]
	}
	p := b.Layout(pw, ph)
	zzsym.Assert(p.X() == x, "the column is what alignment and size make")
	zzsym.Assert(p.Y() == y, "the row is what alignment and size make")
	zzsym.Assert(p.X() >= 0 && p.Y() >= 0, "no position is outside of the parent")
	zzsym.Assert(w > pw || p.X()+w <= pw, "a box that fits is inside of its parent")
	zzsym.Assert(h > ph || p.Y()+h <= ph, "a box that fits is inside of its parent")
	zzsym.Cover("end")
}

// flex is a flex container as the test set it up.
type flex struct {
	row            bool
	gap            int
	justify, align int // start end center between; stretch start end center
}

func newFlex(gap int) (*layout.Flex, *flex) {
	f := &flex{row: zzsym.Bool(), gap: gap}
	var l *layout.Flex
	if f.row {
		l = layout.Row()
	} else {
		l = layout.Column()
	}
	l = l.Gap(gap)
	switch f.justify = zzsym.Choose(4); f.justify {
	case 0:
		l = l.JustifyStart()
	case 1:
		l = l.JustifyEnd()
	case 2:
		l = l.JustifyCenter()
	case 3:
		l = l.JustifySpaceBetween()
	}
	switch f.align = zzsym.Choose(4); f.align {
	case 0:
		l = l.AlignStretch()
	case 1:
		l = l.AlignStart()
	case 2:
		l = l.AlignEnd()
	case 3:
		l = l.AlignCenter()
	}
	return l, f
}

// places says where items of some sizes belong.
func (f *flex) places(ws, hs []int, w, h int) (xs, ys []int) {
	ms, cs, m, c := ws, hs, w, h
	if !f.row {
		ms, cs, m, c = hs, ws, h, w
	}
	left := m - f.gap*(len(ms)-1)
	for _, v := range ms {
		left -= v
	}
	left = max(left, 0)
	at, between := 0, 0
	switch f.justify {
	case 1:
		at = left
	case 2:
		at = left / 2
	case 3:
		if len(ms) > 1 {
			between = left / (len(ms) - 1)
		}
	}
	var main, cross []int
	for i, v := range ms {
		main = append(main, at)
		at += v + f.gap + between
		o := 0
		switch f.align {
		case 2:
			o = max(c-cs[i], 0)
		case 3:
			o = max(c-cs[i], 0) / 2
		}
		cross = append(cross, o)
	}
	if f.row {
		return main, cross
	}
	return cross, main
}

// Flex: positions of items of any size.
func Flex() {
	big := zzsym.Param("big", 1000)
	l, f := newFlex(zzsym.Int(0, big))
	n := 1 + zzsym.Choose(zzsym.Param("items", 4))
	var ws, hs []int
	for i := 0; i < n; i++ {
		w, h := zzsym.Int(0, big), zzsym.Int(0, big)
		if zzsym.Param("pads", 0) != 0 {
			b := layout.NewBox("x").Padding(h, w, 0, 0)
			w, h = w+1, h+1
			if zzsym.Bool() {
				b = b.Border()
				w, h = w+4, h+4
			}
			l = l.Add(b)
		} else {
			l = l.Add(layout.NewBox("x").Width(w).Height(h))
		}
		ws, hs = append(ws, w), append(hs, h)
	}
	w, h := zzsym.Int(0, 10*big), zzsym.Int(0, 10*big)
	out := service.NewFlexboxLayoutService(service.NewMeasureService()).Layout(l.Domain(), w, h)
	items := out.Items()
	zzsym.Assert(len(items) == n && l.Domain().ItemCount() == n, "a layout keeps all items")
	xs, ys := f.places(ws, hs, w, h)
	fits := f.gap * (n - 1)
	size := w
	if !f.row {
		size = h
	}
	for i := range ws {
		if f.row {
			fits += ws[i]
		} else {
			fits += hs[i]
		}
	}
	end := 0
	for i, it := range items {
		x, y := it.Position().X(), it.Position().Y()
		zzsym.Assert(x == xs[i], "the column of an item")
		zzsym.Assert(y == ys[i], "the row of an item")
		a, s := x, ws[i]
		if !f.row {
			a, s = y, hs[i]
		}
		zzsym.Assert(i == 0 || a >= end+f.gap, "items keep their order and the gap, and do not overlap")
		end = a + s
	}
	zzsym.Assert(fits > size || end <= size, "items that fit are inside of the container")
	zzsym.Cover("end")
}

// Show: what is drawn of a flex container.
func Show() {
	l, f := newFlex(zzsym.Choose(zzsym.Param("gap", 1) + 1))
	n := zzsym.Choose(zzsym.Param("items", 2) + 1)
	var es []*box
	var ws, hs []int
	for i := 0; i < n; i++ {
		b, e := newBox(zzsym.Param("lines", 1), zzsym.Param("chars", 2))
		if zzsym.Param("border", 0) != 0 && zzsym.Bool() {
			b = b.Border()
			e.border = true
		}
		if zzsym.Param("pad", 0) != 0 {
			e.pad[1], e.mar[0] = zzsym.Choose(2), zzsym.Choose(2)
			b = b.Padding(0, e.pad[1], 0, 0).Margin(e.mar[0], 0, 0, 0)
		}
		if zzsym.Param("raw", 0) != 0 && !e.border && e.pad[1] == 0 && e.mar[0] == 0 {
			l = l.AddRaw(b.Domain().Content())
		} else {
			l = l.Add(b)
		}
		es = append(es, e)
		w, h := e.size()
		ws, hs = append(ws, w), append(hs, h)
	}
	w := zzsym.Param("w0", 0) + zzsym.Choose(zzsym.Param("w", 6)+1)
	h := zzsym.Param("h0", 1) + zzsym.Choose(zzsym.Param("h", 3))
	xs, ys := f.places(ws, hs, w, h)
	all, c := cells{}, cells{}
	for i, e := range es {
		e.draw(all, xs[i], ys[i])
	}
	for p, v := range all {
		if p[0]+v.w <= w && p[1] < h {
			c[p] = v
		}
	}
	out := l.Render(w, h)
	compare(out, c, w, h)
	zzsym.Assert(l.Render(w, h) == out, "a container is drawn the same every time")
	zzsym.Cover("end")
}

// Odd: containers of no size.
func Odd() {
	l, _ := newFlex(1)
	l = l.AddRaw("ab").AddRaw("世")
	w, h := zzsym.Int(-2, 3), zzsym.Int(-2, 3)
	zzsym.Assume(w <= 0 || h <= 0)
	out := l.Render(w, h)
	zzsym.Assert(strings.Trim(out, "\n") == "", "a container of no size shows nothing")
	zzsym.Cover("end")
}

// Tree: a container is changed by its own setters only.
func Tree() {
	b := layout.NewBox("ab")
	l := layout.Row().Add(b)
	m := model.NewFlexContainer(value.FlexDirectionRow)
	n := zzsym.Choose(zzsym.Param("items", 5))
	for i := 0; i < n; i++ {
		m = m.AddItem(model.NewNode(b.Domain()))
	}
	b.Padding(0, zzsym.Choose(2), 0, zzsym.Choose(2)).Border()
	b.Render()
	zzsym.Assert(l.Domain().Items()[0].Box().Padding().IsZero(), "an item keeps what it was when it was added")
	d := m.AddItem(model.NewNode(b.Domain()))
	zzsym.Assert(m.ItemCount() == n && d.ItemCount() == n+1, "adding to a container leaves the old one")
	e := m.AddItem(model.NewNode(layout.NewBox("x").Domain()))
	zzsym.Assert(d.Items()[n].Box() == b.Domain() && e.Items()[n].Box().Content() == "x", "containers do not share items")
	if n > 0 {
		i := zzsym.Choose(n)
		o := m.RemoveItem(i)
		zzsym.Assert(o.ItemCount() == n-1 && m.ItemCount() == n, "removing leaves the old one")
		f := o.AddItem(model.NewNode(layout.NewBox("y").Domain()))
		zzsym.Assert(f.Items()[n-1].Box().Content() == "y" && m.Items()[n-1].Box().Content() == "ab" && e.Items()[n].Box().Content() == "x", "containers do not share items")
	}
	zzsym.Cover("end")
}

func main() {
	zzsym.Main(map[string]func(){
		"Box": Box, "Short": Short, "Place": Place, "Flex": Flex, "Show": Show, "Odd": Odd, "Tree": Tree,
	})
}
