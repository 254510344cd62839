// Checks on the viewport (components/viewport): what is in view, and how keys,
// the mouse, and changes of content, size and mode move it.
package main

import (
	"strings"

	"ZM/viewport"
	"ZZ/vt"
	"ZZ/zzsym"
	"github.com/phoenix-tui/phoenix/tea"
)

const acute = '\u0301'

// chars cuts a text into characters as the user sees them.
func chars(t []rune) [][]rune {
	var cs [][]rune
	for i, r := range t {
		if r == acute && i > 0 {
			cs[len(cs)-1] = append(cs[len(cs)-1], r)
		} else {
			cs = append(cs, []rune{r})
		}
	}
	return cs
}

// ---------------------------------------------------------------------------
// Reference.

type ref struct {
	lines  []string
	w, h   int
	off    int
	follow bool
	wrap   bool
	mouse  bool
	wheel  int
	drag   bool
	dragY  int
	dragO  int
}

// cut is the rows of a line: with wrap all of them, else the first only.
func cut(line string, w int, wrap bool) []string {
	rows, row, x := []string{}, "", 0
	for _, c := range chars([]rune(line)) {
		cw := vt.Width(c[0])
		if x+cw > w && (x > 0 || !wrap) {
			if !wrap {
				return []string{row}
			}
			rows, row, x = append(rows, row), "", 0
		}
		row += string(c)
		x += cw
	}
	return append(rows, row)
}

func (m *ref) rows() []string {
	if m.w <= 0 {
		return m.lines
	}
	var rows []string
	for _, l := range m.lines {
		rows = append(rows, cut(l, m.w, m.wrap)...)
	}
	return rows
}

func (m *ref) max() int {
	n := len(m.rows()) - m.h
	if n < 0 {
		n = 0
	}
	return n
}

func (m *ref) clamp() {
	if m.off > m.max() {
		m.off = m.max()
	}
	if m.off < 0 {
		m.off = 0
	}
}

func (m *ref) changed() {
	if m.follow {
		m.off = m.max()
	}
	m.clamp()
}

func (m *ref) up(n int) {
	m.off -= n
	m.follow = false
	m.clamp()
}

func (m *ref) down(n int) {
	m.off += n
	m.clamp()
	if m.off == m.max() {
		m.follow = true
	}
}

func (m *ref) view() []string {
	rows := m.rows()
	if m.w <= 0 || m.h <= 0 {
		return nil
	}
	end := m.off + m.h
	if end > len(rows) {
		end = len(rows)
	}
	return rows[m.off:end]
}

func same(v *viewport.Viewport, m *ref, what string) {
	zzsym.Assert(v.ScrollOffset() == m.off, what+": the offset is what it should be")
	rows, got := m.view(), v.VisibleLines()
	zzsym.Assert(len(got) == len(rows), what+": as many rows are shown as fit and there are")
	for i := range rows {
		zzsym.Assert(got[i] == rows[i], what+": the rows shown are those from the offset")
	}
	zzsym.Assert(v.View() == strings.Join(rows, "\n"), what+": View is the rows shown")
	zzsym.Assert(v.CanScrollUp() == (m.off > 0) && v.IsAtTop() == (m.off == 0), what+": top")
	zzsym.Assert(v.CanScrollDown() == (m.off < m.max()) && v.IsAtBottom() == (m.off == m.max()), what+": bottom")
	zzsym.Assert(v.TotalLines() == len(m.lines) && v.Height() == m.h, what+": the counts")
}

// ---------------------------------------------------------------------------
// Keys.

const (
	kUp = iota
	kDown
	kPgUp
	kPgDn
	kHome
	kEnd
	kHalfUp
	kHalfDn
	kNone
)

type bind struct {
	op  int
	key tea.KeyMsg
}

func key(t tea.KeyType) tea.KeyMsg { return tea.KeyMsg{Type: t} }
func let(r rune) tea.KeyMsg        { return tea.KeyMsg{Type: tea.KeyRune, Rune: r} }
func ctrl(r rune) tea.KeyMsg       { return tea.KeyMsg{Type: tea.KeyRune, Rune: r, Ctrl: true} }

var binds = []bind{
	{kUp, key(tea.KeyUp)},
	{kDown, key(tea.KeyDown)},
	{kPgUp, key(tea.KeyPgUp)},
	{kPgDn, key(tea.KeyPgDown)},
	{kHome, key(tea.KeyHome)},
	{kEnd, key(tea.KeyEnd)},
	{kHalfUp, ctrl('u')},
	{kHalfDn, ctrl('d')},
	{kUp, let('k')}, {kDown, let('j')},
	{kPgUp, let('b')}, {kPgUp, ctrl('b')},
	{kPgDn, let('f')}, {kPgDn, ctrl('f')}, {kPgDn, key(tea.KeySpace)},
	{kHome, let('g')}, {kEnd, let('G')},
	{kNone, let('x')}, {kNone, ctrl('k')}, {kNone, key(tea.KeyLeft)}, {kNone, key(tea.KeyEnter)}, {kNone, let('u')}, {kNone, let('K')},
}

func (m *ref) key(op int) {
	switch op {
	case kUp:
		m.up(1)
	case kDown:
		m.down(1)
	case kPgUp:
		m.up(m.h)
	case kPgDn:
		m.down(m.h)
	case kHome:
		m.off, m.follow = 0, false
	case kEnd:
		m.off, m.follow = m.max(), true
	case kHalfUp:
		m.up(m.h / 2)
	case kHalfDn:
		m.down(m.h / 2)
	}
}

var pool = []string{"abc", "", "d世e", "f", "世g", "hijkl", "m", "n"}

// newer lines, for content that changes
var fresh = []string{"p", "q世", "rstu"}

// step does one thing to both; mask says which kinds of things.
func step(v *viewport.Viewport, m *ref, nb, mask int) *viewport.Viewport {
	var enabled []int
	for i := 0; i < 6; i++ {
		if mask>>i&1 == 1 {
			enabled = append(enabled, i)
		}
	}
	op := enabled[zzsym.Choose(len(enabled))]
	switch op {
	case 0:
		b := binds[zzsym.Choose(nb)]
		m.key(b.op)
		v, cmd := v.Update(b.key)
		zzsym.Assert(cmd == nil, "no command")
		return v
	case 1: // content
		n := zzsym.Choose(3)
		switch zzsym.Choose(4) {
		case 0:
			ls := append([]string{}, fresh[:n]...)
			m.lines = append([]string{}, ls...)
			v = v.SetLines(ls)
			for i := range ls {
				ls[i] = "changed later"
			}
		case 1:
			m.lines = append([]string{}, strings.Split(strings.Join(fresh[:n], "\n"), "\n")...)
			v = v.SetContent(strings.Join(fresh[:n], "\n"))
		case 2:
			m.lines = append(append([]string{}, m.lines...), fresh[n])
			v = v.AppendLine(fresh[n])
		case 3:
			m.lines = append(append([]string{}, m.lines...), fresh[:n]...)
			v = v.AppendLines(fresh[:n])
		}
		m.changed()
		return v
	case 2: // size
		w, h := zzsym.Choose(zzsym.Param("width", 4)+1), zzsym.Choose(zzsym.Param("height", 3)+1)
		m.w, m.h = w, h
		m.changed()
		if zzsym.Bool() {
			v, _ := v.Update(tea.WindowSizeMsg{Width: w, Height: h})
			return v
		}
		return v.SetSize(w, h)
	case 3: // modes
		on := zzsym.Bool()
		if zzsym.Bool() {
			m.follow = on
			m.changed()
			return v.FollowMode(on)
		}
		m.wrap = on
		m.changed()
		return v.WrapLines(on)
	case 4: // offset
		switch zzsym.Choose(3) {
		case 0:
			m.off, m.follow = 0, false
			return v.ScrollToTop()
		case 1:
			m.off, m.follow = m.max(), true
			return v.ScrollToBottom()
		}
		o := zzsym.Int(-1000, 1000)
		m.off, m.follow = o, false
		m.clamp()
		m.off = zzsym.Concrete(m.off)
		return v.SetYOffset(o)
	}
	// mouse
	msg := tea.MouseMsg{X: 1}
	switch zzsym.Choose(6) {
	case 0:
		msg.Button = tea.MouseButtonWheelUp
		if m.mouse {
			m.up(m.wheel)
			m.off = zzsym.Concrete(m.off)
		}
	case 1:
		msg.Button = tea.MouseButtonWheelDown
		if m.mouse {
			m.down(m.wheel)
			m.off = zzsym.Concrete(m.off)
		}
	case 2:
		msg.Button, msg.Action, msg.Y = tea.MouseButtonLeft, tea.MouseActionPress, zzsym.Int(0, 100)
		if m.mouse {
			m.drag, m.dragY, m.dragO = true, msg.Y, m.off
		}
	case 3:
		msg.Action, msg.Y = tea.MouseActionRelease, zzsym.Int(0, 100)
		if zzsym.Bool() {
			msg.Button = tea.MouseButtonLeft
		}
		m.drag = m.drag && !m.mouse
	case 4:
		msg.Action, msg.Y = tea.MouseActionMotion, zzsym.Int(0, 100)
		if zzsym.Bool() {
			msg.Button = tea.MouseButtonLeft
		}
		if m.mouse && m.drag {
			m.off, m.follow = m.dragO-(msg.Y-m.dragY), false
			m.clamp()
			m.off = zzsym.Concrete(m.off)
		}
	case 5:
		msg.Button, msg.Action, msg.Y = tea.MouseButtonRight, tea.MouseActionPress, 3
	}
	v, cmd := v.Update(msg)
	zzsym.Assert(cmd == nil, "no command")
	return v
}

// Steps: whatever is done, the rows in view are the right ones.
func Steps() {
	lo := zzsym.Param("minlines", 0)
	n := lo + zzsym.Choose(zzsym.Param("lines", 5)+1-lo)
	wlo, hlo := zzsym.Param("minwidth", 1), zzsym.Param("minheight", 0)
	m := &ref{lines: append([]string{}, pool[:n]...), w: wlo + zzsym.Choose(zzsym.Param("width", 4)+1-wlo), h: hlo + zzsym.Choose(zzsym.Param("height", 3)+1-hlo), wheel: 3}
	var v *viewport.Viewport
	ls := append([]string{}, m.lines...)
	if n > 0 && zzsym.Param("string", 0) == 1 && zzsym.Bool() {
		v = viewport.NewWithContent(strings.Join(ls, "\n"), m.w, m.h)
	} else {
		v = viewport.NewWithLines(ls, m.w, m.h)
	}
	for i := range ls {
		ls[i] = "changed later"
	}
	m.wrap = zzsym.Param("wrap", 1) == 1 && zzsym.Bool()
	v = v.WrapLines(m.wrap)
	mask := zzsym.Param("mask", 63)
	if mask&32 != 0 && (zzsym.Param("mouse", 0) == 1 || zzsym.Bool()) {
		m.mouse = true
		v = v.MouseEnabled(true)
		if zzsym.Bool() {
			m.wheel = zzsym.Int(-2, 1000)
			v = v.SetWheelScrollLines(m.wheel)
			if m.wheel < 1 {
				m.wheel = 1
			}
		}
	}
	if zzsym.Bool() {
		m.follow = true
		m.changed()
		v = v.FollowMode(true)
	} else if zzsym.Param("from", 1) == 1 {
		m.off = zzsym.Choose(m.max() + 1)
		v = v.SetYOffset(m.off)
	}
	same(v, m, "at first")
	nb := zzsym.Param("binds", len(binds))
	for i := 0; i < zzsym.Param("steps", 1); i++ {
		old, was := v, *m
		v = step(v, m, nb, mask)
		old.AppendLine("sibling")
		same(v, m, "after a step")
		same(old, &was, "the viewport it was done to is as it was")
	}
	zzsym.Cover("end")
}

var alphabet = []rune{'a', '世', acute, ' ', '🚀', 'é'}

// Rows: every line is shown in rows of whole characters that fit.
func Rows() {
	k := zzsym.Param("alphabet", 4)
	var t []rune
	for i, n := 0, zzsym.Choose(zzsym.Param("chars", 4)+1); i < n; i++ {
		t = append(t, alphabet[zzsym.Choose(k)])
	}
	zzsym.Assume(len(t) == 0 || t[0] != acute)
	m := &ref{lines: []string{"x", string(t), "y"}, w: 1 + zzsym.Choose(zzsym.Param("width", 4)), h: 1 + zzsym.Choose(zzsym.Param("height", 4))}
	m.wrap = zzsym.Bool()
	v := viewport.NewWithLines(m.lines, m.w, m.h).WrapLines(m.wrap)
	m.off = zzsym.Choose(m.max() + 1)
	v = v.SetYOffset(m.off)
	same(v, m, "rows")
	for _, r := range v.VisibleLines() {
		cs, sum := chars([]rune(r)), 0
		for _, c := range cs {
			sum += vt.Width(c[0])
		}
		zzsym.Assert(sum <= m.w || m.wrap && len(cs) == 1, "a row fits the width")
	}
	zzsym.Cover("end")
}

func main() {
	zzsym.Main(map[string]func(){
		"Steps": Steps,
		"Rows":  Rows,
	})
}
