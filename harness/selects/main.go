// Checks on the select and the multi-select (components/select,
// components/multiselect): focus, choice, filter and what is shown.
package main

import (
	"strconv"
	"strings"

	"ZM/multiselect"
	sel "ZM/select"
	"ZZ/vt"
	"ZZ/zzsym"
	"github.com/phoenix-tui/phoenix/tea"
)

var labels = []string{"Ab", "b é", "aB", "c", "", "ABC", "É"}
var descs = []string{"", "two", "", "", "d", "", ""}

// ---------------------------------------------------------------------------
// Reference, of both.

type ref struct {
	n        int
	disabled []bool
	focus    int
	query    []rune
	filter   bool
	custom   int
	height   int
	title    string
	own      bool

	chosen int // single: option chosen, or -1

	multi    bool
	sel      map[int]bool // options chosen
	min, max int          // as set
}

func (m *ref) copy() *ref {
	c := *m
	c.sel = map[int]bool{}
	for i := 0; i < m.n; i++ {
		if m.sel[i] {
			c.sel[i] = true
		}
	}
	return &c
}

func ownFilter(custom, i int, q string) bool {
	if custom == 1 {
		return i%2 == 0 && len([]rune(q)) == 1
	}
	return (i+len([]rune(q)))%2 == 0
}

func (m *ref) view() []int {
	var is []int
	for i := 0; i < m.n; i++ {
		ok := len(m.query) == 0
		if !ok && m.custom == 0 {
			ok = strings.Contains(strings.ToLower(labels[i]), strings.ToLower(string(m.query)))
		} else if !ok {
			ok = ownFilter(m.custom, i, string(m.query))
		}
		if ok {
			is = append(is, i)
		}
	}
	return is
}

func (m *ref) setQuery(q []rune) {
	m.query = q
	m.clamp()
}

func (m *ref) clamp() {
	if n := len(m.view()); m.focus >= n {
		m.focus = n - 1
	}
	if m.focus < 0 {
		m.focus = 0
	}
}

func (m *ref) count() int {
	k := 0
	for i := 0; i < m.n; i++ {
		if m.sel[i] {
			k++
		}
	}
	return k
}

func (m *ref) room() bool { return m.max <= 0 || m.count() < m.max }

const (
	kUp = iota
	kDown
	kHome
	kEnd
	kSpace
	kEnter
	kEsc
	kQuit
	kBack
	kType
	kAll  // multi: a
	kNone // multi: n
	kNothing
)

type bind struct {
	op  int
	key tea.KeyMsg
}

func key(t tea.KeyType) tea.KeyMsg { return tea.KeyMsg{Type: t} }
func let(r rune) tea.KeyMsg        { return tea.KeyMsg{Type: tea.KeyRune, Rune: r} }

var binds = []bind{
	{kDown, key(tea.KeyDown)},
	{kEnter, key(tea.KeyEnter)},
	{kSpace, key(tea.KeySpace)},
	{kType, let('b')}, {kType, let('é')},
	{kBack, key(tea.KeyBackspace)},
	{kAll, let('a')}, {kNone, let('n')},
	{kUp, key(tea.KeyUp)},
	{kEsc, key(tea.KeyEsc)},
	{kEnd, key(tea.KeyEnd)},
	// the others
	{kHome, key(tea.KeyHome)},
	{kType, let('A')},
	{kUp, let('k')}, {kDown, let('j')}, {kHome, let('g')}, {kEnd, let('G')},
	{kQuit, key(tea.KeyCtrlC)},
	{kNothing, key(tea.KeyTab)}, {kNothing, key(tea.KeyLeft)}, {kNothing, key(tea.KeyPgUp)},
	{kNothing, tea.KeyMsg{Type: tea.KeyRune, Rune: 'b', Ctrl: true}}, {kNothing, tea.KeyMsg{Type: tea.KeyRune, Rune: 'j', Alt: true}},
	{kNothing, tea.KeyMsg{Type: tea.KeyRune, Rune: 'a', Ctrl: true}},
}

// scrolling are those that scroll and those that leave fewer options.
var scrolling = []int{10, 3, 8, 5, 0, 4, 9}

func choose(nb int) bind {
	k := zzsym.Choose(nb)
	if zzsym.Param("scrolling", 0) == 1 {
		k = scrolling[k]
	}
	return binds[k]
}

func (m *ref) key(op int, r rune) {
	is := m.view()
	switch op {
	case kUp:
		if m.focus > 0 {
			m.focus--
		}
	case kDown:
		if m.focus < len(is)-1 {
			m.focus++
		}
	case kHome:
		m.focus = 0
	case kEnd:
		m.focus = len(is) - 1
		m.clamp()
	case kEsc:
		m.setQuery(nil)
	case kBack:
		if m.filter && len(m.query) > 0 {
			m.setQuery(m.query[:len(m.query)-1])
		}
	case kSpace:
		if m.multi {
			if len(is) > 0 && !m.disabled[is[m.focus]] {
				i := is[m.focus]
				m.sel[i] = !m.sel[i] && m.room()
			}
			return
		}
		r = ' '
		fallthrough
	case kType:
		if m.filter {
			m.setQuery(append(append([]rune{}, m.query...), r))
		}
	case kAll:
		if !m.multi {
			m.key(kType, r)
			return
		}
		for _, i := range is {
			if !m.disabled[i] && !m.sel[i] && m.room() {
				m.sel[i] = true
			}
		}
	case kNone:
		if !m.multi {
			m.key(kType, r)
			return
		}
		m.sel = map[int]bool{}
	case kEnter:
		if !m.multi && len(is) > 0 && !m.disabled[is[m.focus]] {
			m.chosen = is[m.focus]
		}
	}
}

func start(multi bool) *ref {
	lo := zzsym.Param("minopts", 0)
	m := &ref{multi: multi, n: lo + zzsym.Choose(zzsym.Param("opts", 3)+1-lo), height: 10, chosen: -1, sel: map[int]bool{}}
	for i := 0; i < m.n; i++ {
		m.disabled = append(m.disabled, i < zzsym.Param("disabled", 2) && zzsym.Bool())
	}
	m.filter = zzsym.Param("filter", 1) == 1 && zzsym.Bool()
	if h := zzsym.Param("height", 0); h > 0 {
		m.height = zzsym.Choose(h + 1)
	}
	if zzsym.Param("custom", 0) == 1 {
		m.custom = zzsym.Choose(3)
	}
	if zzsym.Param("title", 0) == 1 && zzsym.Bool() {
		m.title = "Pick"
	}
	return m
}

// ---------------------------------------------------------------------------
// What is shown.

func (m *ref) shows(view, help string) {
	h := m.height
	if h < 1 {
		h = 1
	}
	s := vt.New(60, 20)
	s.CRLF = true
	s.Feed(view)
	y := 0
	row := func(want string) {
		x := 0
		for _, r := range want {
			zzsym.Assert(s.At(x, y).R == r, "a row shows what it should")
			x++
		}
		for ; x < 60; x++ {
			zzsym.Assert(s.At(x, y).R == ' ', "a row shows nothing else")
		}
		y++
	}
	if m.title != "" {
		t := m.title
		if m.multi && m.n > 0 {
			t += " (" + strconv.Itoa(m.count()) + " of " + strconv.Itoa(m.n) + " selected)"
		}
		row(t)
		row("")
	}
	is := m.view()
	from := 0
	if m.focus >= h {
		from = m.focus - h + 1
	}
	if len(is) == 0 {
		if len(m.query) > 0 {
			row("(no matches)")
		} else {
			row("(no options)")
		}
	}
	for k := from; k < len(is) && k < from+h; k++ {
		i := is[k]
		if m.own {
			row("<" + strconv.Itoa(k) + ">")
			continue
		}
		w := "  "
		if k == m.focus {
			w = "> "
		}
		if m.multi {
			if m.sel[i] {
				w += "[x] "
			} else {
				w += "[ ] "
			}
		}
		w += labels[i]
		if m.disabled[i] && !m.multi {
			w += " (disabled)"
		}
		if descs[i] != "" {
			w += " - " + descs[i]
		}
		if m.disabled[i] && m.multi {
			w += " (disabled)"
		}
		row(w)
	}
	if m.filter {
		row("")
		if len(m.query) > 0 {
			row("Filter: " + string(m.query))
		} else {
			row("Type to filter...")
		}
	}
	if help != "" {
		row("")
		row(help)
	}
	for y < 20 {
		row("")
	}
	zzsym.Assert(s.Strange == 0, "nothing else is written")
}

// The type of options has no name outside the package.

func slice[O any](os ...O) []O { return os }

func byValue[O interface{ Value() int }](_ O, f func(v int, q string) bool) func(O, string) bool {
	return func(o O, q string) bool { return f(o.Value(), q) }
}

func rendS[O interface{ Value() int }](_ O, f func(v, i int, focused bool) string) func(O, int, bool) string {
	return func(o O, i int, focused bool) string { return f(o.Value(), i, focused) }
}

func rendM[O interface{ Value() int }](_ O, f func(v, i int, focused, selected bool) string) func(O, int, bool, bool) string {
	return func(o O, i int, focused, selected bool) string { return f(o.Value(), i, focused, selected) }
}

// ---------------------------------------------------------------------------
// Single.

func newS(m *ref) *sel.Select[int] {
	s := sel.New[int](m.title)
	set := func() {
		if m.height != 10 {
			s = s.WithHeight(m.height)
		}
		if c := m.custom; c > 0 {
			s = s.WithFilterFunc(byValue(sel.Opt("", 0), func(v int, q string) bool { return ownFilter(c, v-100, q) }))
		}
		s = s.WithFilterable(m.filter)
	}
	early := zzsym.Param("early", 0) == 1 && zzsym.Bool()
	if early {
		set()
	}
	os := slice(sel.Opt("", 0))[:0]
	for i := 0; i < m.n; i++ {
		o := sel.Opt(labels[i], 100+i, descs[i])
		if m.disabled[i] {
			o = o.WithDisabled(true)
		}
		os = append(os, o)
	}
	s = s.Options(os...)
	for i := range os {
		os[i] = sel.Opt("changed later", 0)
	}
	if !early {
		set()
	}
	return s
}

func sameS(s *sel.Select[int], m *ref, what string) {
	is := m.view()
	v, ok := s.FocusedValue()
	if len(is) > 0 {
		zzsym.Assert(ok && v == 100+is[m.focus], what+": the focused value")
	} else {
		zzsym.Assert(!ok && v == 0, what+": nothing is focused if there is nothing")
	}
	v, ok = s.SelectedValue()
	if m.chosen >= 0 {
		zzsym.Assert(ok && v == 100+m.chosen, what+": the selected value")
	} else {
		zzsym.Assert(!ok && v == 0, what+": nothing is selected")
	}
}

func pressS(s *sel.Select[int], m *ref, nb int) *sel.Select[int] {
	b := choose(nb)
	m.key(b.op, b.key.Rune)
	s, cmd := s.Update(b.key)
	zzsym.Assert((cmd != nil) == (b.op == kQuit || b.op == kEnter), "Enter and Ctrl+C, and they only, give a command")
	if b.op == kQuit {
		_, ok := cmd().(tea.QuitMsg)
		zzsym.Assert(ok, "Ctrl+C is to quit")
	}
	if b.op == kEnter {
		c, ok := cmd().(sel.ConfirmSelectionMsg[int])
		zzsym.Assert(ok && c.OK == (m.chosen >= 0) && (c.Value == 100+m.chosen || m.chosen < 0), "Enter confirms what is selected")
	}
	return s
}

// Single: keys of a select do what they are for.
func Single() {
	m := start(false)
	s := newS(m)
	sameS(s, m, "at first")
	nb := zzsym.Param("binds", len(binds))
	for i := 0; i < zzsym.Param("keys", 1); i++ {
		old, was := s, m.copy()
		s = pressS(s, m, nb)
		old.Update(key(tea.KeyEnter))
		sameS(s, m, "after a key")
		sameS(old, was, "a key leaves the select it was given to as it was")
	}
	if zzsym.Param("refilter", 0) == 1 {
		c := 1 + zzsym.Choose(2)
		m.custom = c
		m.clamp()
		s = s.WithFilterFunc(byValue(sel.Opt("", 0), func(v int, q string) bool { return ownFilter(c, v-100, q) }))
		sameS(s, m, "after a new filter function")
		s = pressS(s, m, nb)
		sameS(s, m, "after that")
	}
	if zzsym.Param("view", 0) == 1 {
		if zzsym.Bool() {
			m.own = true
			is := m.view()
			s = s.WithRenderFunc(rendS(sel.Opt("", 0), func(v, i int, focused bool) string {
				zzsym.Assert(i >= 0 && i < len(is) && v == 100+is[i] && focused == (i == m.focus), "a renderer gets an option, its place, and whether it is focused")
				return "<" + strconv.Itoa(i) + ">"
			}))
		}
		m.shows(s.View(), "")
	}
	zzsym.Cover("end")
}

// ---------------------------------------------------------------------------
// Multi.

func newM(m *ref) *multiselect.MultiSelect[int] {
	s := multiselect.New[int](m.title)
	set := func() {
		if m.height != 10 {
			s = s.WithHeight(m.height)
		}
		if c := m.custom; c > 0 {
			s = s.WithFilterFunc(byValue(multiselect.Opt("", 0), func(v int, q string) bool { return ownFilter(c, v-100, q) }))
		}
		s = s.WithFilterable(m.filter)
		if n := zzsym.Param("limits", 4); n > 0 {
			m.min, m.max = zzsym.Choose(n)-1, zzsym.Choose(n)-1
			if zzsym.Bool() {
				s = s.Min(m.min).Max(m.max)
			} else {
				s = s.Max(m.max).Min(m.min)
			}
		}
	}
	early := zzsym.Param("early", 0) == 1 && zzsym.Bool()
	if early {
		set()
	}
	os := slice(multiselect.Opt("", 0))[:0]
	for i := 0; i < m.n; i++ {
		o := multiselect.Opt(labels[i], 100+i, descs[i])
		if m.disabled[i] {
			o = o.WithDisabled(true)
		}
		os = append(os, o)
	}
	s = s.Options(os...)
	for i := range os {
		os[i] = multiselect.Opt("changed later", 0)
	}
	if !early {
		set()
	}
	return s
}

// atLeast is how many must be selected to confirm.
func (m *ref) atLeast() int {
	if m.max > 0 && m.min > m.max {
		return m.max
	}
	return m.min
}

func sameM(s *multiselect.MultiSelect[int], m *ref, what string) {
	k, idx, items := 0, s.SelectedIndices(), s.SelectedItems()
	for i := 0; i < m.n; i++ {
		if m.sel[i] {
			zzsym.Assert(k < len(idx) && idx[k] == i && k < len(items) && items[k] == 100+i, what+": what is selected, in order")
			k++
		}
	}
	zzsym.Assert(len(idx) == k && len(items) == k && s.SelectionCount() == k, what+": nothing else is selected")
}

func pressM(s *multiselect.MultiSelect[int], m *ref, nb int) *multiselect.MultiSelect[int] {
	b := choose(nb)
	m.key(b.op, b.key.Rune)
	s, cmd := s.Update(b.key)
	zzsym.Assert((cmd != nil) == (b.op == kQuit || b.op == kEnter && m.count() >= m.atLeast()), "Ctrl+C gives a command, and Enter if enough is selected, and nothing else")
	if b.op == kQuit {
		_, ok := cmd().(tea.QuitMsg)
		zzsym.Assert(ok, "Ctrl+C is to quit")
	} else if cmd != nil {
		c, ok := cmd().(multiselect.ConfirmSelectionMsg[int])
		zzsym.Assert(ok && len(c.Values) == m.count(), "Enter confirms what is selected")
		k := 0
		for i := 0; i < m.n; i++ {
			if m.sel[i] {
				zzsym.Assert(c.Values[k] == 100+i, "Enter confirms what is selected, in order")
				k++
			}
		}
	}
	return s
}

// Multi: keys of a multi-select do what they are for.
func Multi() {
	m := start(true)
	s := newM(m)
	sameM(s, m, "at first")
	if zzsym.Param("preselect", 0) == 1 {
		is := []int{zzsym.Choose(m.n+3) - 1, zzsym.Choose(m.n+2) - 1}
		if zzsym.Bool() {
			is = append(is, m.n-1)
		}
		s = s.Selected(is...)
		for _, i := range is {
			if i >= 0 && i < m.n && m.room() {
				m.sel[i] = true
			}
		}
		sameM(s, m, "preselected")
		if zzsym.Bool() {
			m.max = zzsym.Choose(4) - 1
			s = s.Max(m.max)
			for i := m.n - 1; i >= 0; i-- {
				if m.max > 0 && m.count() > m.max {
					delete(m.sel, i)
				}
			}
			sameM(s, m, "after a new limit")
		}
	}
	nb := zzsym.Param("binds", len(binds))
	for i := 0; i < zzsym.Param("keys", 1); i++ {
		old, was := s, m.copy()
		s = pressM(s, m, nb)
		old.Update(key(tea.KeySpace))
		sameM(s, m, "after a key")
		sameM(old, was, "a key leaves the multi-select it was given to as it was")
	}
	if zzsym.Param("refilter", 0) == 1 {
		c := 1 + zzsym.Choose(2)
		m.custom = c
		m.clamp()
		s = s.WithFilterFunc(byValue(multiselect.Opt("", 0), func(v int, q string) bool { return ownFilter(c, v-100, q) }))
		s = pressM(s, m, nb)
		sameM(s, m, "after a new filter function")
	}
	if zzsym.Param("view", 0) == 1 {
		if zzsym.Bool() {
			m.own = true
			is := m.view()
			s = s.WithRenderFunc(rendM(multiselect.Opt("", 0), func(v, i int, focused, selected bool) string {
				zzsym.Assert(i >= 0 && i < len(is) && v == 100+is[i] && focused == (i == m.focus) && selected == m.sel[is[i]], "a renderer gets an option, its place, and whether it is focused and selected")
				return "<" + strconv.Itoa(i) + ">"
			}))
		}
		m.shows(s.View(), "  a: all  n: none  Space: toggle  Enter: confirm")
	}
	zzsym.Cover("end")
}

func main() {
	zzsym.Main(map[string]func(){
		"Single": Single,
		"Multi":  Multi,
	})
}
