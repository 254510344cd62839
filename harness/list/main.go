// Checks on the list (components/list): focus, selection, filter, scrolling
// and what is shown.
package main

import (
	"strconv"
	"strings"

	"ZM/list"
	"ZZ/vt"
	"ZZ/zzsym"
	"github.com/phoenix-tui/phoenix/tea"
)

var labels = []string{"Ab", "b", "aB", "cé", "", "ABC", "É", "世b"}

// ---------------------------------------------------------------------------
// Reference.

type ref struct {
	n      int // items; item i has value 100+i and labels[i]
	multi  bool
	sel    map[int]bool // positions in view()
	focus  int
	query  []rune
	show   bool
	custom int // filter function
	height int
	quit   bool
}

func (m *ref) keeps(i int) bool {
	if len(m.query) == 0 {
		return true
	}
	switch m.custom {
	case 0:
		return strings.Contains(strings.ToLower(labels[i]), strings.ToLower(string(m.query)))
	case 1: // even values, for queries of one rune
		return (100+i)%2 == 0 && len(m.query) == 1
	}
	return i < 2
}

func filterFunc(custom int) func(interface{}, string) bool {
	return func(v interface{}, q string) bool {
		zzsym.Assert(q != "", "filters are asked about queries")
		i := v.(int) - 100
		if custom == 1 {
			return (100+i)%2 == 0 && len([]rune(q)) == 1
		}
		return i < 2
	}
}

func (m *ref) view() []int {
	var is []int
	for i := 0; i < m.n; i++ {
		if m.keeps(i) {
			is = append(is, i)
		}
	}
	return is
}

func (m *ref) refilter() {
	m.sel = map[int]bool{}
	if m.focus >= len(m.view()) {
		m.focus = 0
	}
}

func (m *ref) copy() *ref {
	c := *m
	c.sel = map[int]bool{}
	for i := range c.view() {
		if m.sel[i] {
			c.sel[i] = true
		}
	}
	c.query = append([]rune{}, m.query...)
	return &c
}

func same(l *list.List, m *ref, what string) {
	is := m.view()
	zzsym.Assert(l.FocusedIndex() == m.focus, what+": the focus is where it should be")
	if len(is) == 0 {
		zzsym.Assert(l.FocusedItem() == nil, what+": nothing is focused if there is nothing")
	} else {
		zzsym.Assert(l.FocusedItem() == interface{}(100+is[m.focus]), what+": the focused item")
	}
	k, idx, items := 0, l.SelectedIndices(), l.SelectedItems()
	for i := range is {
		if m.sel[i] {
			zzsym.Assert(k < len(idx) && idx[k] == i, what+": the selected indices are right, in order")
			zzsym.Assert(k < len(items) && items[k] == interface{}(100+is[i]), what+": the selected items are right, in order")
			k++
		}
	}
	zzsym.Assert(len(idx) == k && len(items) == k, what+": nothing else is selected")
}

// first is the first row shown: the focus in the middle if possible.
func (m *ref) first() int {
	n := len(m.view())
	f := m.focus - m.height/2
	if f > n-m.height {
		f = n - m.height
	}
	if f < 0 {
		f = 0
	}
	return f
}

const (
	kUp = iota
	kDown
	kPgUp
	kPgDn
	kHome
	kEnd
	kToggle
	kAll
	kClear
	kQuit
	kBack
	kType
	kNone
)

type bind struct {
	op  int
	key tea.KeyMsg
}

func key(t tea.KeyType) tea.KeyMsg { return tea.KeyMsg{Type: t} }
func let(r rune) tea.KeyMsg        { return tea.KeyMsg{Type: tea.KeyRune, Rune: r} }
func ctrl(r rune) tea.KeyMsg       { return tea.KeyMsg{Type: tea.KeyRune, Rune: r, Ctrl: true} }

var binds = []bind{
	{kDown, key(tea.KeyDown)},
	{kToggle, key(tea.KeySpace)},
	{kType, let('b')}, {kType, let('A')}, {kType, let('é')},
	{kBack, key(tea.KeyBackspace)},
	{kUp, key(tea.KeyUp)},
	{kAll, ctrl('a')},
	{kPgUp, key(tea.KeyPgUp)}, {kPgDn, key(tea.KeyPgDown)},
	{kEnd, key(tea.KeyEnd)},
	{kClear, key(tea.KeyEsc)},
	// the others
	{kHome, key(tea.KeyHome)},
	{kUp, let('k')}, {kDown, let('j')},
	{kPgUp, ctrl('u')}, {kPgDn, ctrl('d')},
	{kHome, let('g')}, {kEnd, let('G')},
	{kQuit, let('q')}, {kQuit, key(tea.KeyCtrlC)}, {kQuit, ctrl('c')},
	{kNone, key(tea.KeyEnter)}, {kNone, key(tea.KeyTab)}, {kNone, ctrl('b')}, {kNone, key(tea.KeyLeft)},
	{kNone, tea.KeyMsg{Type: tea.KeyRune, Rune: 'b', Alt: true}},
}

func (m *ref) key(op int, r rune) {
	n := len(m.view())
	m.quit = op == kQuit
	switch op {
	case kBack:
		if m.show && len(m.query) > 0 {
			m.query = m.query[:len(m.query)-1]
			m.refilter()
		}
		return
	case kType:
		if m.show {
			m.query = append(append([]rune{}, m.query...), r)
			m.refilter()
		}
		return
	case kClear:
		m.sel = map[int]bool{}
		return
	}
	if n == 0 {
		return
	}
	switch op {
	case kUp:
		m.focus = (m.focus + n - 1) % n
	case kDown:
		m.focus = (m.focus + 1) % n
	case kPgUp:
		m.focus -= m.height
		if m.focus < 0 {
			m.focus = 0
		}
	case kPgDn:
		m.focus += m.height
		if m.focus >= n {
			m.focus = n - 1
		}
	case kHome:
		m.focus = 0
	case kEnd:
		m.focus = n - 1
	case kToggle:
		if m.multi {
			m.sel[m.focus] = !m.sel[m.focus]
		} else {
			m.sel = map[int]bool{m.focus: true}
		}
	case kAll:
		if m.multi {
			for i := 0; i < n; i++ {
				m.sel[i] = true
			}
		}
	}
}

func start() (*list.List, *ref) {
	lo := zzsym.Param("minitems", 0)
	m := &ref{n: lo + zzsym.Choose(zzsym.Param("items", 4)+1-lo), sel: map[int]bool{}, height: 10}
	vals, ls := []interface{}{}, append([]string{}, labels[:m.n]...)
	for i := 0; i < m.n; i++ {
		vals = append(vals, 100+i)
	}
	m.multi = zzsym.Bool()
	var l *list.List
	if m.multi {
		l = list.NewMultiSelect(vals, ls)
	} else {
		l = list.NewSingleSelect(vals, ls)
	}
	for i := range vals {
		vals[i], ls[i] = nil, "changed later"
	}
	same(l, m, "at first")
	if h := zzsym.Param("height", 0); h > 0 {
		m.height = 1 + zzsym.Choose(h)
		l = l.Height(m.height)
	}
	m.show = zzsym.Param("filter", 1) == 1 && zzsym.Bool()
	l = l.ShowFilter(m.show)
	if zzsym.Param("custom", 0) == 1 {
		if m.custom = zzsym.Choose(3); m.custom > 0 {
			l = l.Filter(filterFunc(m.custom))
		}
	}
	// anywhere, with anything selected
	if zzsym.Param("from", 1) == 1 && m.n > 0 {
		f := zzsym.Choose(m.n)
		for i := 0; i < f; i++ {
			if zzsym.Bool() {
				l, _ = l.Update(key(tea.KeySpace))
				m.key(kToggle, 0)
			}
			l, _ = l.Update(key(tea.KeyDown))
			m.key(kDown, 0)
		}
		if zzsym.Bool() {
			l, _ = l.Update(key(tea.KeySpace))
			m.key(kToggle, 0)
		}
	}
	return l, m
}

func press(l *list.List, m *ref, nb int) *list.List {
	b := binds[zzsym.Choose(nb)]
	m.key(b.op, b.key.Rune)
	l, cmd := l.Update(b.key)
	zzsym.Assert((cmd != nil) == m.quit, "the quit keys, and they only, give a command")
	if cmd != nil {
		_, ok := cmd().(tea.QuitMsg)
		zzsym.Assert(ok, "the command is to quit")
	}
	return l
}

// Keys: from any focus and selection, keys do what they are for.
func Keys() {
	l, m := start()
	same(l, m, "before")
	nb := zzsym.Param("binds", len(binds))
	for i := 0; i < zzsym.Param("keys", 1); i++ {
		old, was := l, m.copy()
		l = press(l, m, nb)
		old.Update(key(tea.KeySpace))
		same(l, m, "after a key")
		same(old, was, "a key leaves the list it was given to as it was")
	}
	if zzsym.Param("refilter", 0) == 1 {
		m.custom = 1 + zzsym.Choose(2)
		m.refilter()
		l = l.Filter(filterFunc(m.custom))
		same(l, m, "after a new filter function")
		l = press(l, m, nb)
		same(l, m, "after that")
	}
	zzsym.Cover("end")
}

// View: the rows shown.
func View() {
	l, m := start()
	nb := zzsym.Param("binds", 6)
	for i := 0; i < zzsym.Param("keys", 1); i++ {
		l = press(l, m, nb)
	}
	if zzsym.Bool() {
		m.height = 1 + zzsym.Choose(zzsym.Param("height", 4))
		l = l.Height(m.height)
	}
	is := m.view()
	own := zzsym.Bool()
	var asked []int
	if own {
		l = l.ItemRenderer(func(v interface{}, i int, selected, focused bool) string {
			zzsym.Assert(i >= 0 && i < len(is) && v == interface{}(100+is[i]) && selected == m.sel[i] && focused == (i == m.focus), "a renderer gets an item, its place, and whether it is selected and focused")
			asked = append(asked, i)
			return "<" + strconv.Itoa(i) + ">"
		})
	}
	s := vt.New(20, 14)
	s.CRLF = true
	s.Feed(l.View())
	y := 0
	row := func(want string) {
		x := 0
		for _, r := range want {
			c := s.At(x, y)
			zzsym.Assert(c.R == r, "a row shows what it should")
			x += c.W
		}
		for ; x < 20; x++ {
			zzsym.Assert(s.At(x, y).R == ' ', "a row shows nothing else")
		}
		y++
	}
	if len(is) == 0 {
		if len(m.query) > 0 {
			row("(no matches)")
		} else {
			row("(empty list)")
		}
	}
	seen := false
	for i := m.first(); i < len(is) && i < m.first()+m.height; i++ {
		seen = seen || i == m.focus
		switch {
		case own:
			zzsym.Assert(len(asked) > 0 && asked[0] == i, "rows are those around the focus, in order")
			asked = asked[1:]
			row("<" + strconv.Itoa(i) + ">")
		case i == m.focus:
			row("> " + labels[is[i]])
		case m.sel[i]:
			row("✓ " + labels[is[i]])
		default:
			row("  " + labels[is[i]])
		}
	}
	zzsym.Assert(seen || len(is) == 0, "the focused item is shown")
	zzsym.Assert(len(asked) == 0, "nothing else is rendered")
	if m.show && len(m.query) > 0 {
		row("Filter: (active)")
	}
	for y < 14 {
		row("")
	}
	zzsym.Assert(s.Strange == 0, "nothing else is written")
	zzsym.Cover("end")
}

func main() {
	zzsym.Main(map[string]func(){
		"Keys": Keys,
		"View": View,
	})
}
