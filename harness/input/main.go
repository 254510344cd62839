// Checks on the single-line input (components/input): keys, cursor by
// characters as the user sees them, selection, and what is shown.
package main

import (
	"errors"

	"ZM/input"
	"ZZ/vt"
	"ZZ/zzsym"
	"github.com/phoenix-tui/phoenix/tea"
)

const acute = '\u0301'

// alphabet: narrow, wide, combining (joins what is before it).
var alphabet = []rune{'a', ' ', 'é', '世', acute, '🚀'}

func pick(n int) rune { return alphabet[zzsym.Choose(n)] }

// chars cuts a text into characters as the user sees them.
func chars(t []rune) [][]rune {
	var cs [][]rune
	for i, r := range t {
		if r == acute && i > 0 {
			cs[len(cs)-1] = append(cs[len(cs)-1], r)
		} else {
			cs = append(cs, []rune{r})
		}
	}
	return cs
}

func join(cs [][]rune) []rune {
	var t []rune
	for _, c := range cs {
		t = append(t, c...)
	}
	return t
}

// ---------------------------------------------------------------------------
// Reference.

type ref struct {
	t      []rune
	cur    int // in characters
	a, b   int // selection
	sel    bool
	focus  bool
	maxLen int
}

func (m *ref) n() int { return len(chars(m.t)) }

func (m *ref) set(before, after []rune) {
	m.cur = len(chars(before))
	m.t = append(append([]rune{}, before...), after...)
}

func (m *ref) delSel() bool {
	if !m.sel || m.a == m.b {
		return false
	}
	cs := chars(m.t)
	m.set(join(cs[:m.a]), join(cs[m.b:]))
	m.sel = false
	return true
}

const (
	opType = iota
	opSpace
	opLeft
	opRight
	opHome
	opEnd
	opBack
	opDel
	opAll
	opClear
	opNone
)

type bind struct {
	op  int
	key tea.KeyMsg
}

func ctrl(r rune) tea.KeyMsg { return tea.KeyMsg{Type: tea.KeyRune, Rune: r, Ctrl: true} }
func plain(t tea.KeyType) tea.KeyMsg {
	return tea.KeyMsg{Type: t}
}

var binds = []bind{
	{opType, plain(tea.KeyRune)},
	{opLeft, plain(tea.KeyLeft)},
	{opRight, plain(tea.KeyRight)},
	{opHome, plain(tea.KeyHome)},
	{opEnd, plain(tea.KeyEnd)},
	{opBack, plain(tea.KeyBackspace)},
	{opDel, plain(tea.KeyDelete)},
	{opAll, ctrl('a')},
	{opClear, ctrl('u')},
	{opSpace, plain(tea.KeySpace)},
	{opEnd, ctrl('e')},
	// the others
	{opAll, ctrl('A')}, {opClear, ctrl('U')}, {opEnd, ctrl('E')},
	{opNone, ctrl('k')}, {opNone, ctrl('x')}, {opNone, tea.KeyMsg{Type: tea.KeyRune, Rune: 'a', Alt: true}},
	{opNone, plain(tea.KeyEnter)}, {opNone, plain(tea.KeyTab)}, {opNone, plain(tea.KeyUp)}, {opNone, plain(tea.KeyDown)},
	{opNone, plain(tea.KeyEsc)}, {opNone, plain(tea.KeyF1)}, {opNone, plain(tea.KeyPgUp)},
}

func (m *ref) do(op int, r rune) {
	if !m.focus {
		return
	}
	cs := chars(m.t)
	switch op {
	case opType, opSpace:
		if m.delSel() {
			cs = chars(m.t)
		}
		if op == opSpace {
			r = ' '
		}
		m.set(append(join(cs[:m.cur]), r), join(cs[m.cur:]))
	case opLeft:
		if m.cur > 0 {
			m.cur--
		}
		m.sel = false
	case opRight:
		if m.cur < len(cs) {
			m.cur++
		}
		m.sel = false
	case opHome:
		m.cur, m.sel = 0, false
	case opEnd:
		m.cur, m.sel = len(cs), false
	case opBack:
		if !m.delSel() && m.cur > 0 {
			m.set(join(cs[:m.cur-1]), join(cs[m.cur:]))
		}
	case opDel:
		if !m.delSel() && m.cur < len(cs) {
			m.set(join(cs[:m.cur]), join(cs[m.cur+1:]))
		}
	case opAll:
		m.sel, m.a, m.b, m.cur = len(cs) > 0, 0, len(cs), len(cs)
	case opClear:
		m.t, m.cur, m.sel = nil, 0, false
	}
}

// ---------------------------------------------------------------------------

func text(n, k int) []rune {
	var t []rune
	for i, m := 0, zzsym.Choose(n+1); i < m; i++ {
		t = append(t, pick(k))
	}
	return t
}

func same(in input.Input, m *ref, what string) {
	zzsym.Assert(in.Value() == string(m.t), what+": the content is what it should be")
	zzsym.Assert(in.CursorPosition() == m.cur, what+": the cursor is where it belongs")
	cs := chars(m.t)
	b, at, af := in.ContentParts()
	if m.cur == len(cs) {
		zzsym.Assert(b == string(m.t) && at == "" && af == "", what+": ContentParts at the end")
	} else {
		zzsym.Assert(b == string(join(cs[:m.cur])) && at == string(cs[m.cur]) && af == string(join(cs[m.cur+1:])), what+": ContentParts are before, at and after the cursor")
	}
}

var errBad = errors.New("bad")

// Keys: from any content and cursor, keys do what they are for.
func Keys() {
	n, k := zzsym.Param("chars", 3), zzsym.Param("alphabet", 5)
	m := &ref{t: text(n, k)}
	m.focus = zzsym.Param("blur", 0) == 0 || zzsym.Bool()
	cs := chars(m.t)
	m.cur = zzsym.Choose(len(cs) + 1)
	in := input.New(10).Focused(m.focus).SetContent(string(m.t), m.cur)
	same(in, m, "SetContent")
	nk := zzsym.Param("binds", len(binds))
	for i := 0; i < zzsym.Param("keys", 1); i++ {
		b := binds[zzsym.Choose(nk)]
		key := b.key
		var r rune
		if b.op == opType {
			r = pick(k)
			key.Rune = r
		}
		old, v, c := in, in.Value(), in.CursorPosition()
		var cmd tea.Cmd
		in, cmd = in.Update(key)
		zzsym.Assert(cmd == nil, "keys give no command")
		m.do(b.op, r)
		same(in, m, "after a key")
		zzsym.Assert(old.Value() == v && old.CursorPosition() == c, "a key leaves the input it was given to as it was")
	}
	zzsym.Cover("end")
}

// Set: content and cursor set from outside.
func Set() {
	n, k := zzsym.Param("chars", 3), zzsym.Param("alphabet", 5)
	t1 := text(n, k)
	p := zzsym.Int(-1000, 1000)
	in := input.New(10).SetContent(string(t1), p).Focused(true)
	hi := len(chars(t1))
	if p < 0 {
		p = 0
	}
	if p > hi {
		p = hi
	}
	m := &ref{t: t1, cur: zzsym.Concrete(p), focus: true}
	same(in, m, "SetContent")
	if zzsym.Bool() {
		in, _ = in.Update(ctrl('a'))
		m.do(opAll, 0)
	}
	t2 := text(n, k)
	if zzsym.Bool() {
		in = in.Content(string(t2))
		m.t = t2
		if m.cur > m.n() {
			m.cur = m.n()
		}
		if m.sel && m.b > m.n() {
			m.b = m.n()
		}
		m.sel = m.sel && m.b > m.a
	} else {
		in = in.SetContent(string(t2), 0)
		m.t, m.cur, m.sel = t2, 0, false
	}
	same(in, m, "Content")
	in, _ = in.Update(plain(tea.KeyBackspace))
	m.do(opBack, 0)
	same(in, m, "Backspace after Content")
	zzsym.Cover("end")
}

// Valid: the length validators count characters.
func Valid() {
	n, k := zzsym.Param("chars", 3), zzsym.Param("alphabet", 5)
	t := text(n, k)
	l := len(chars(t))
	lo, hi := zzsym.Int(-2, 1000), zzsym.Int(-2, 1000)
	in := input.New(10).Content(string(t))
	zzsym.Assert(in.IsValid(), "without a validator everything is valid")
	zzsym.Assert(in.Validator(input.NotEmpty()).IsValid() == (l > 0), "NotEmpty")
	zzsym.Assert(in.Validator(input.MinLength(lo)).IsValid() == (l >= lo), "MinLength")
	zzsym.Assert(in.Validator(input.MaxLength(hi)).IsValid() == (l <= hi), "MaxLength")
	zzsym.Assert(in.Validator(input.Range(lo, hi)).IsValid() == (l >= lo && l <= hi), "Range")
	b1, b2, b3 := zzsym.Bool(), zzsym.Bool(), zzsym.Bool()
	mk := func(b bool) input.ValidationFunc {
		return func(s string) error {
			zzsym.Assert(s == string(t), "validators get the content")
			if b {
				return nil
			}
			return errBad
		}
	}
	zzsym.Assert(in.Validator(input.Chain(mk(b1), mk(b2), mk(b3))).IsValid() == (b1 && b2 && b3), "Chain: all of them")
	zzsym.Cover("end")
}

// ---------------------------------------------------------------------------
// What is shown.

func width(c []rune) int { return vt.Width(c[0]) }

// View: at most Width columns of whole characters, the cursor among them.
func View() {
	n, k := zzsym.Param("chars", 4), zzsym.Param("alphabet", 5)
	t := text(n, k)
	zzsym.Assume(len(t) == 0 || t[0] != acute)
	cs := chars(t)
	cur := zzsym.Choose(len(cs) + 1)
	w := 1 + zzsym.Choose(zzsym.Param("width", 4))
	focus, show := zzsym.Bool(), zzsym.Bool()
	in := input.New(w)
	if zzsym.Param("rewidth", 0) == 1 && zzsym.Bool() {
		in2 := input.New(7).Width(w)
		in = &in2
	}
	v := in.Focused(focus).ShowCursor(show).Placeholder("type").SetContent(string(t), cur).View()
	if len(cs) == 0 && !focus {
		s := vt.New(10, 2)
		s.Feed(v)
		for i, r := range "type  " {
			zzsym.Assert(s.At(i, 0).R == r, "an empty input without focus shows the placeholder")
		}
		zzsym.Cover("end")
		return
	}
	// the cells: the characters, and the end when the cursor is there
	var ws []int
	for _, c := range cs {
		ws = append(ws, width(c))
	}
	if focus && cur == len(cs) {
		ws = append(ws, 1)
	}
	// from the first cell with which the cursor is in view
	from, last := 0, cur
	if last > len(ws)-1 {
		last = len(ws) - 1
	}
	for {
		sum := 0
		for i := from; i <= last; i++ {
			sum += ws[i]
		}
		if sum <= w || from == last {
			break
		}
		from++
	}
	s := vt.New(w+4, 2)
	s.Feed(v)
	x := 0
	for i := from; i < len(ws) && (x+ws[i] <= w || i == cur); i++ {
		c := s.At(x, 0)
		if i < len(cs) {
			zzsym.Assert(c.R == cs[i][0] && c.Comb == len(cs[i])-1 && c.W == ws[i], "the characters are shown in order from the first one with which the cursor is in view")
		} else {
			zzsym.Assert(c.R == ' ', "the end of the content is blank")
		}
		lit := c.A != vt.DefaultAttr
		zzsym.Assert(lit == (focus && show && i == cur), "the cursor, and only the cursor, is highlighted")
		x += ws[i]
	}
	if ws[last] <= w {
		zzsym.Assert(x <= w, "the view fits the width")
	}
	end := x
	for ; x < w+4; x++ {
		c := s.At(x, 0)
		zzsym.Assert(c.R == ' ' && c.A == vt.DefaultAttr, "nothing is shown after that")
	}
	wantX := end
	if focus && !show && cur == len(cs) {
		wantX-- // the terminal's own cursor stands there
	}
	zzsym.Assert(s.X == wantX && s.Y == 0 && s.Strange == 0, "nothing else is written")
	zzsym.Cover("end")
}

func main() {
	zzsym.Main(map[string]func(){
		"Keys":  Keys,
		"Set":   Set,
		"Valid": Valid,
		"View":  View,
	})
}
