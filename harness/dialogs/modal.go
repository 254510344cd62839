package main

import (
	"strings"

	"ZM/modal"
	"ZZ/vt"
	"ZZ/zzsym"
	"github.com/phoenix-tui/phoenix/tea"
)

// ---------------------------------------------------------------------------
// Modal: keys.

type mref struct {
	btns    []modal.Button
	focus   int
	visible bool
}

var allButtons = []modal.Button{
	{Label: "Yes", Key: "y", Action: "yes"},
	{Label: "No", Key: "N", Action: "no"},
	{Label: "Open", Key: "ctrl+o", Action: ""},
	{Label: "Also", Key: "Y", Action: "also"},
	{Label: "Tab", Key: "tab", Action: "tabbed"},
	{Label: "None", Key: "", Action: "none"},
}

func buttons() []modal.Button {
	n := zzsym.Choose(zzsym.Param("buttons", 3) + 1)
	bs := []modal.Button{}
	first := 0
	if n > 0 {
		first = 2 * zzsym.Choose(3)
	}
	for i := 0; i < n; i++ {
		bs = append(bs, allButtons[(first+i)%len(allButtons)])
	}
	return bs
}

func msame(m *modal.Modal, r *mref, what string) {
	zzsym.Assert(m.IsVisible() == r.visible, what+": the modal is shown or not")
	want := ""
	if len(r.btns) > 0 {
		want = r.btns[r.focus].Action
	}
	zzsym.Assert(m.FocusedButton() == want, what+": the focused button")
}

var mkeys = []tea.KeyMsg{
	{Type: tea.KeyTab}, {Type: tea.KeyRight}, {Type: tea.KeyTab, Shift: true}, {Type: tea.KeyLeft}, {Type: tea.KeyEnter}, {Type: tea.KeyEsc},
	{Type: tea.KeyRune, Rune: 'y'}, {Type: tea.KeyRune, Rune: 'Y'}, {Type: tea.KeyRune, Rune: 'n'}, {Type: tea.KeyRune, Rune: 'o', Ctrl: true},
	{Type: tea.KeyRune, Rune: 'y', Ctrl: true}, {Type: tea.KeyRune, Rune: 'o'}, {Type: tea.KeyRune, Rune: 'n', Alt: true}, {Type: tea.KeyUp}, {Type: tea.KeyCtrlC},
}

func pressed(cmd tea.Cmd, action string, what string) {
	zzsym.Assert(cmd != nil, what+": a button is pressed")
	msg, ok := cmd().(modal.ButtonPressedMsg)
	zzsym.Assert(ok && msg.Action == action, what+": it is the right one")
}

// shortcut is the button k is for.
func (r *mref) shortcut(k tea.KeyMsg) int {
	for i, b := range r.btns {
		switch {
		case k.Type == tea.KeyRune && !k.Ctrl && !k.Alt && b.Key != "" && len(b.Key) == 1 && k.Rune|0x20 == rune(b.Key[0])|0x20:
			return i
		case k.Type == tea.KeyRune && k.Ctrl && k.Rune == 'o' && b.Key == "ctrl+o":
			return i
		}
	}
	return -1
}

// Modal: keys move the focus, press buttons and close.
func Modal() {
	r := &mref{btns: buttons()}
	given := append([]modal.Button{}, r.btns...)
	m := modal.New("t").Size(6, 3).Buttons(given)
	for i := range given {
		given[i].Action = "changed later"
	}
	if zzsym.Bool() {
		m, r.visible = m.Show(), true
	}
	for i := 0; i < zzsym.Param("ops", 3); i++ {
		msame(m, r, "before")
		old, was := m, *r
		switch zzsym.Choose(6) {
		case 0:
			m, r.visible = m.Show(), true
		case 1:
			m, r.visible = m.Hide(), false
		case 2:
			r.btns, r.focus = buttons(), 0
			m = m.Buttons(r.btns)
		case 3:
			m = m.Size(7, 5).Position(1, 2).DimBackground(true).Centered()
		case 4:
			nm, cmd := m.Update(tea.WindowSizeMsg{Width: 90, Height: 30})
			zzsym.Assert(cmd == nil, "sizes need no command")
			m = nm
		default:
			k := mkeys[zzsym.Choose(len(mkeys))]
			nm, cmd := m.Update(k)
			m = nm
			if !r.visible {
				zzsym.Assert(cmd == nil, "a hidden modal gives no command")
				break
			}
			n := len(r.btns)
			switch {
			case k.Type == tea.KeyEsc:
				r.visible = false
			case (k.Type == tea.KeyTab && !k.Shift || k.Type == tea.KeyRight) && n > 0:
				r.focus = (r.focus + 1) % n
			case (k.Type == tea.KeyTab || k.Type == tea.KeyLeft) && n > 0:
				r.focus = (r.focus + n - 1) % n
			case k.Type == tea.KeyEnter && n > 0:
				pressed(cmd, r.btns[r.focus].Action, "Enter")
				cmd = nil
			case r.shortcut(k) >= 0:
				pressed(cmd, r.btns[r.shortcut(k)].Action, "a shortcut")
				cmd = nil
			}
			zzsym.Assert(cmd == nil, "nothing else gives a command")
		}
		msame(old, &was, "an operation leaves the modal it is given as it was")
	}
	msame(m, r, "after")
	zzsym.Assert((m.View() != "") == r.visible, "a modal is seen if it is shown")
	zzsym.Cover("end")
}

// ---------------------------------------------------------------------------
// Modal: the box.

type piece struct {
	s string
	r rune
	w int
}

var pieces = []piece{{"a", 'a', 1}, {"世", '世', 2}, {"é", 'é', 1}, {"e\u0301", 'e', 1}}

func text(max int) (s string, ps []piece) {
	n := zzsym.Choose(max + 1)
	for i := 0; i < n; i++ {
		p := pieces[zzsym.Choose(zzsym.Param("pieces", 2))]
		s += p.s
		ps = append(ps, p)
	}
	return
}

func plain(s string) (ps []piece) {
	for _, r := range s {
		ps = append(ps, piece{string(r), r, 1})
	}
	return
}

func width(ps []piece) (w int) {
	for _, p := range ps {
		w += p.w
	}
	return
}

// field: what a field of w columns shows of a text.
func field(ps []piece, w int) []rune {
	if width(ps) > w {
		room, tail := w, []piece(nil)
		if w > 3 {
			room, tail = w-3, plain("...")
		}
		k, used := 0, 0
		for used+ps[k].w <= room {
			used += ps[k].w
			k++
		}
		ps = append(append([]piece{}, ps[:k]...), tail...)
	}
	out := []rune{}
	for _, p := range ps {
		out = append(out, p.r)
		if p.w == 2 {
			out = append(out, 0)
		}
	}
	for len(out) < w {
		out = append(out, ' ')
	}
	return out
}

// Box: the box has its size, at its place, and shows what fits.
func Box() {
	w := 4 + zzsym.Choose(zzsym.Param("width", 5))
	h := 2 + zzsym.Choose(zzsym.Param("height", 7))
	tw, th := w+zzsym.Choose(zzsym.Param("margin", 3)), h+zzsym.Choose(zzsym.Param("margin", 3))
	title, tps := "", []piece(nil)
	if zzsym.Param("title", 1) == 1 {
		title, tps = text(zzsym.Param("text", 2))
	}
	nl := 1 + zzsym.Choose(zzsym.Param("lines", 3))
	lines, lps := []string{}, [][]piece{}
	for i := 0; i < nl; i++ {
		if i == 0 && zzsym.Param("content", 0) == 1 {
			l, ps := text(zzsym.Param("text", 2))
			lines, lps = append(lines, l), append(lps, ps)
			continue
		}
		l := string(rune('p' + i))
		lines, lps = append(lines, l), append(lps, plain(l))
	}
	m := modal.NewWithTitle(title, strings.Join(lines, "\n"))
	if title == "" {
		m = modal.New(strings.Join(lines, "\n"))
	}
	bps := []piece(nil)
	nb := zzsym.Choose(zzsym.Param("buttons", 2) + 1)
	if nb > 0 {
		bs := []modal.Button{}
		focus := zzsym.Choose(nb)
		for i := 0; i < nb; i++ {
			l := string(rune('A' + i))
			bs = append(bs, modal.Button{Label: l, Key: l, Action: l})
			if i > 0 {
				bps = append(bps, plain("  ")...)
			}
			if i == focus {
				bps = append(bps, plain("< "+l+" >")...)
			} else {
				bps = append(bps, plain("[ "+l+" ]")...)
			}
		}
		m = m.Buttons(bs).Show()
		for i := 0; i < focus; i++ {
			m, _ = m.Update(tea.KeyMsg{Type: tea.KeyTab})
		}
	}
	x, y := (tw-w)/2, (th-h)/2
	m = m.Size(w, h)
	if zzsym.Bool() {
		x, y = zzsym.Choose(tw-w+1), zzsym.Choose(th-h+1)
		m = m.Position(x, y)
		if zzsym.Bool() {
			m = m.Centered()
			x, y = (tw-w)/2, (th-h)/2
		}
	}
	dim := zzsym.Bool()
	m = m.DimBackground(dim)
	if zzsym.Bool() {
		m = m.Hide()
	}
	m, _ = m.Update(tea.WindowSizeMsg{Width: tw, Height: th})
	s := vt.New(tw, th)
	s.CRLF = true
	s.Feed(m.Show().View())
	// what stands where
	room := h - 2
	rows := [][]rune{}
	if title != "" && room >= 2 {
		rows = append(rows, field(tps, w-4), nil)
		room -= 2
	}
	bottom := nb > 0 && room >= 2
	if bottom {
		room -= 2
	}
	for i := 0; i < room; i++ {
		if i < nl {
			rows = append(rows, field(lps[i], w-4))
		} else {
			rows = append(rows, field(nil, w-4))
		}
	}
	if bottom {
		rows = append(rows, nil, field(bps, w-4))
	}
	zzsym.Assert(s.Scrolls == 0 && s.Strange == 0, "nothing scrolls")
	for yy := 0; yy < th; yy++ {
		for xx := 0; xx < tw; xx++ {
			c := s.At(xx, yy)
			want := ' '
			in := xx >= x && xx < x+w && yy >= y && yy < y+h
			bx, by := xx-x, yy-y
			switch {
			case !in && dim:
				want = '░'
			case !in:
			case by == 0:
				want = []rune("┌─┐")[edge(bx, w)]
			case by == h-1:
				want = []rune("└─┘")[edge(bx, w)]
			case rows[by-1] == nil:
				want = []rune("├─┤")[edge(bx, w)]
			case bx == 0 || bx == w-1:
				want = '│'
			case bx == 1 || bx == w-2:
			default:
				want = rows[by-1][bx-2]
			}
			if want == 0 {
				zzsym.Assert(c.W == 0, "a wide character is whole")
			} else {
				zzsym.Assert(c.R == want && c.W > 0, "the box is where it should be and shows what it should")
			}
		}
	}
	zzsym.Cover("end")
}

func edge(i, n int) int {
	switch i {
	case 0:
		return 0
	case n - 1:
		return 2
	}
	return 1
}

// Small: no size is too small.
func Small() {
	w, h := zzsym.Choose(8)-2, zzsym.Choose(6)-2
	m := modal.NewWithTitle("title", "content\nmore").Size(w, h)
	if zzsym.Bool() {
		m = m.Buttons([]modal.Button{{Label: "OK"}})
	}
	m = m.DimBackground(zzsym.Bool()).Show()
	m, _ = m.Update(tea.WindowSizeMsg{Width: zzsym.Choose(4), Height: zzsym.Choose(4)})
	zzsym.Assert(m.View() != "", "a box, at least")
	zzsym.Cover("end")
}
