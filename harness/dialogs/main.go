// Checks on dialogs: confirm (components/confirm) and modal (components/modal).
package main

import (
	"unicode"

	"ZM/confirm"
	"ZZ/zzsym"
	"github.com/phoenix-tui/phoenix/tea"
)

// ---------------------------------------------------------------------------
// Confirm.

var labels = []string{"Delete", "Éa", "no", "", "No", "Yes", "Cancel", "世"}

const (
	open = iota
	yes
	no
	canceled
)

type ref struct {
	labels []string
	focus  int
	result int
	desc   string
}

func (m *ref) answer(i int) {
	switch l := m.labels[i]; {
	case l == "Yes":
		m.result = yes
	case l == "No":
		m.result = no
	case l == "Cancel":
		m.result = canceled
	case i == 0:
		m.result = yes
	default:
		m.result = no
	}
}

func (m *ref) copy() *ref {
	c := *m
	c.labels = append([]string{}, m.labels...)
	return &c
}

func same(c *confirm.Confirm, m *ref, what string) {
	zzsym.Assert(c.Done() == (m.result != open), what+": a dialog is done when it is answered")
	zzsym.Assert(c.IsYes() == (m.result == yes) && c.IsNo() == (m.result == no) && c.IsCanceled() == (m.result == canceled), what+": the answer")
	want := "Sure?\n"
	if m.desc != "" {
		want += m.desc + "\n"
	}
	want += "\n"
	for i, l := range m.labels {
		if i > 0 {
			want += "  "
		}
		if i == m.focus {
			want += "[ " + l + " ]"
		} else {
			want += "( " + l + " )"
		}
	}
	zzsym.Assert(c.View() == want, what+": the view shows the buttons and which is focused")
}

func label(lo int) string { return labels[lo+zzsym.Choose(zzsym.Param("labels", 4))] }

func setup() (*confirm.Confirm, *ref) {
	m := &ref{labels: []string{"Yes", "No"}, focus: 1}
	c := confirm.New("Sure?")
	for i := 0; i < zzsym.Param("settings", 2); i++ {
		old, was := c, m.copy()
		switch zzsym.Choose(8) {
		case 1:
			m.labels[0] = label(0)
			c = c.Affirmative(m.labels[0])
		case 2:
			m.labels[1] = label(1)
			c = c.Negative(m.labels[1])
		case 3:
			if len(m.labels) == 2 {
				m.labels = append(m.labels, "Cancel")
			}
			c = c.WithCancel(true)
		case 4:
			m.labels = m.labels[:2]
			if m.focus > 1 {
				m.focus = 1
			}
			c = c.WithCancel(false)
		case 5:
			m.focus = 0
			c = c.DefaultYes()
		case 6:
			m.focus = 1
			if m.labels[0] == "No" {
				m.focus = 0
			}
			c = c.DefaultNo()
		case 7:
			m.desc = "It hurts."
			c = c.Description(m.desc)
		}
		same(old, was, "a setting leaves the dialog it is given as it was")
	}
	return c, m
}

var keys = []tea.KeyType{tea.KeyRune, tea.KeyRight, tea.KeyTab, tea.KeyEnter, tea.KeyLeft, tea.KeyEsc, tea.KeyCtrlC, tea.KeySpace, tea.KeyUp}

func letter() rune {
	if zzsym.Param("anyrune", 0) == 1 {
		return rune(zzsym.Int(0, 0x10ffff))
	}
	return []rune{'d', 'D', 'é', 'É', 'n', 'Y', 'C', '世', 'x', 0, 0xc3}[zzsym.Choose(11)]
}

func press(c *confirm.Confirm, m *ref) *confirm.Confirm {
	k := tea.KeyMsg{Type: keys[zzsym.Choose(len(keys))]}
	k.Ctrl, k.Alt = zzsym.Bool(), zzsym.Bool()
	if k.Type == tea.KeyTab {
		k.Shift = zzsym.Bool()
	}
	if k.Type == tea.KeyRune {
		k.Rune = letter()
	}
	n := len(m.labels)
	was := m.result
	if m.result == open {
		switch {
		case k.Type == tea.KeyLeft || k.Type == tea.KeyTab && k.Shift:
			m.focus = (m.focus + n - 1) % n
		case k.Type == tea.KeyRight || k.Type == tea.KeyTab:
			m.focus = (m.focus + 1) % n
		case k.Type == tea.KeyEnter:
			m.answer(m.focus)
		case k.Type == tea.KeyEsc || k.Type == tea.KeyCtrlC:
			m.result = canceled
		case k.Type == tea.KeyRune && !k.Ctrl && !k.Alt:
			for i, l := range m.labels {
				if l != "" && unicode.ToLower([]rune(l)[0]) == unicode.ToLower(k.Rune) {
					m.focus = i
					m.answer(i)
					break
				}
			}
		}
	}
	c, cmd := c.Update(k)
	zzsym.Assert((cmd != nil) == (was == open && m.result != open), "the answer, and nothing else, gives a command")
	if cmd != nil {
		msg, ok := cmd().(confirm.ConfirmResultMsg)
		zzsym.Assert(ok && msg.Result == c.Result(), "the command tells the answer")
	}
	return c
}

// Confirm: keys move the focus and answer, once.
func Confirm() {
	c, m := setup()
	same(c, m, "before")
	for i := 0; i < zzsym.Param("keys", 2); i++ {
		old, was := c, m.copy()
		c = press(c, m)
		same(c, m, "after a key")
		same(old, was, "a key leaves the dialog it is given as it was")
	}
	nc, cmd := c.Update(tea.WindowSizeMsg{Width: 1, Height: 1})
	zzsym.Assert(nc == c && cmd == nil && c.Init() == nil, "nothing else matters")
	zzsym.Cover("end")
}

func main() {
	zzsym.Main(map[string]func(){
		"Confirm": Confirm,
		"Modal":   Modal,
		"Box":     Box,
		"Small":   Small,
	})
}
