// Checks on the multi-line text area (components/input): keys, kill ring,
// limits, prompts that are protected, and what is shown.
package main

import (
	"fmt"
	"strings"

	"ZM/input"
	"ZZ/zzsym"
	"github.com/phoenix-tui/phoenix/tea"
)

// ---------------------------------------------------------------------------
// Reference: lines of runes.

type pos struct{ r, c int }

type call struct {
	kind byte // 'm' moved, 'b' boundary
	a, b pos
}

type ref struct {
	ls       [][]rune
	cur      pos
	ring     []rune // last killed text (nil: none)
	maxL     int
	maxC     int
	ro       bool
	allowed  func(p pos) bool // nil: everything
	calls    []call
	rejected bool
}

func (m *ref) text() string {
	var sb strings.Builder
	for i, l := range m.ls {
		if i > 0 {
			sb.WriteByte('\n')
		}
		sb.WriteString(string(l))
	}
	return sb.String()
}

func (m *ref) count() int {
	n := len(m.ls) - 1
	for _, l := range m.ls {
		n += len(l)
	}
	return n
}

func word(r rune) bool {
	for _, x := range " \t.,;:!?()[]{}/\\|-_=+*&%$#@~`'\"<>" {
		if r == x {
			return false
		}
	}
	return true
}

func (m *ref) splice(r, from, to int, by []rune) {
	old := m.ls[r]
	var l []rune
	l = append(l, old[:from]...)
	l = append(l, by...)
	l = append(l, old[to:]...)
	m.ls[r] = l
}

func (m *ref) join(r int) {
	l := append(append([]rune{}, m.ls[r]...), m.ls[r+1]...)
	var ls [][]rune
	ls = append(ls, m.ls[:r]...)
	ls = append(ls, l)
	ls = append(ls, m.ls[r+2:]...)
	m.ls = ls
}

func (m *ref) split(p pos) {
	l := m.ls[p.r]
	var ls [][]rune
	ls = append(ls, m.ls[:p.r]...)
	ls = append(ls, append([]rune{}, l[:p.c]...), append([]rune{}, l[p.c:]...))
	ls = append(ls, m.ls[p.r+1:]...)
	m.ls = ls
}

func (m *ref) insert(c rune) bool {
	if m.maxC > 0 && m.count() >= m.maxC {
		return false
	}
	if c == '\n' {
		if m.maxL > 0 && len(m.ls) >= m.maxL {
			return false
		}
		m.split(m.cur)
		m.cur = pos{m.cur.r + 1, 0}
		return true
	}
	m.splice(m.cur.r, m.cur.c, m.cur.c, []rune{c})
	m.cur.c++
	return true
}

// may asks the validator and reports a refusal to the boundary handler.
func (m *ref) may(to pos) bool {
	if m.allowed == nil || m.allowed(to) {
		return true
	}
	m.calls = append(m.calls, call{'b', to, pos{}})
	return false
}

func (m *ref) move(to pos) {
	if to == m.cur || !m.may(to) {
		return
	}
	m.calls = append(m.calls, call{'m', m.cur, to})
	m.cur = to
}

func (m *ref) kill(t []rune) { m.ring = append([]rune{}, t...) }

func clip(n, hi int) int {
	if n > hi {
		return hi
	}
	return n
}

// back is where the word before the cursor starts.
func (m *ref) back() int {
	l := m.ls[m.cur.r]
	c := m.cur.c - 1
	for c > 0 && !word(l[c]) {
		c--
	}
	for c > 0 && word(l[c-1]) {
		c--
	}
	return c
}

// do is what one command does.
func (m *ref) do(op int, ch rune) {
	cur, l := m.cur, m.ls[m.cur.r]
	last := len(m.ls) - 1
	if m.ro {
		switch op {
		case opRune, opSpace, opEnter, opBack, opDel, opKill, opKillStart, opKillBack, opYank, opKillWord:
			return
		}
	}
	switch op {
	case opRune:
		m.insert(ch)
	case opSpace:
		m.insert(' ')
	case opEnter:
		m.insert('\n')
	case opBack:
		switch {
		case cur.c > 0:
			if m.may(pos{cur.r, cur.c - 1}) {
				m.splice(cur.r, cur.c-1, cur.c, nil)
				m.cur.c--
			}
		case cur.r > 0:
			to := pos{cur.r - 1, len(m.ls[cur.r-1])}
			if m.may(to) {
				m.join(cur.r - 1)
				m.cur = to
			}
		}
	case opDel:
		switch {
		case cur.c < len(l):
			m.splice(cur.r, cur.c, cur.c+1, nil)
		case cur.r < last:
			m.join(cur.r)
		}
	case opLeft:
		switch {
		case cur.c > 0:
			m.move(pos{cur.r, cur.c - 1})
		case cur.r > 0:
			m.move(pos{cur.r - 1, len(m.ls[cur.r-1])})
		}
	case opRight:
		switch {
		case cur.c < len(l):
			m.move(pos{cur.r, cur.c + 1})
		case cur.r < last:
			m.move(pos{cur.r + 1, 0})
		}
	case opUp:
		if cur.r == 0 {
			m.may(pos{-1, cur.c})
		} else {
			m.move(pos{cur.r - 1, clip(cur.c, len(m.ls[cur.r-1]))})
		}
	case opDown:
		if cur.r == last {
			m.may(pos{last + 1, cur.c})
		} else {
			m.move(pos{cur.r + 1, clip(cur.c, len(m.ls[cur.r+1]))})
		}
	case opHome:
		for c := 0; c <= len(l); c++ {
			p := pos{cur.r, c}
			if m.allowed == nil || m.allowed(p) {
				m.move(p)
				return
			}
		}
		m.may(pos{cur.r, 0})
	case opEnd:
		m.move(pos{cur.r, len(l)})
	case opTop:
		m.move(pos{0, 0})
	case opBottom:
		m.move(pos{last, len(m.ls[last])})
	case opWordF:
		c := cur.c
		for c < len(l) && word(l[c]) {
			c++
		}
		for c < len(l) && !word(l[c]) {
			c++
		}
		m.move(pos{cur.r, c})
	case opWordB:
		if cur.c > 0 {
			m.move(pos{cur.r, m.back()})
		}
	case opKill:
		switch {
		case cur.c < len(l):
			m.kill(l[cur.c:])
			m.splice(cur.r, cur.c, len(l), nil)
		case cur.r < last:
			m.kill([]rune{'\n'})
			m.join(cur.r)
		}
	case opKillStart:
		if cur.c == 0 {
			return
		}
		c := 0
		for c < cur.c && m.allowed != nil && !m.allowed(pos{cur.r, c}) {
			c++
		}
		if c == cur.c {
			m.calls = append(m.calls, call{'b', pos{cur.r, 0}, pos{}})
			return
		}
		m.kill(l[c:cur.c])
		m.splice(cur.r, c, cur.c, nil)
		m.cur.c = c
		m.calls = append(m.calls, call{'m', cur, m.cur})
	case opKillBack:
		if cur.c == 0 {
			return
		}
		c := m.back()
		if m.may(pos{cur.r, c}) {
			m.kill(l[c:cur.c])
			m.splice(cur.r, c, cur.c, nil)
			m.cur.c = c
		}
	case opKillWord:
		c := cur.c
		for c < len(l) && word(l[c]) {
			c++
		}
		if c > cur.c {
			m.kill(l[cur.c:c])
			m.splice(cur.r, cur.c, c, nil)
		}
	case opYank:
		for _, c := range m.ring {
			if !m.insert(c) {
				return
			}
		}
	}
}

const (
	opRune = iota
	opSpace
	opEnter
	opBack
	opDel
	opLeft
	opRight
	opUp
	opDown
	opHome
	opEnd
	opTop
	opBottom
	opWordF
	opWordB
	opKill
	opKillStart
	opKillBack
	opKillWord
	opYank
	opNone
	nOps
)

type bind struct {
	op  int
	key tea.KeyMsg
}

func ctrl(r rune) tea.KeyMsg { return tea.KeyMsg{Type: tea.KeyRune, Rune: r, Ctrl: true} }
func alt(r rune) tea.KeyMsg  { return tea.KeyMsg{Type: tea.KeyRune, Rune: r, Alt: true} }
func plain(t tea.KeyType) tea.KeyMsg {
	return tea.KeyMsg{Type: t}
}

// binds are the keys, the main one for each command first.
var binds = []bind{
	{opRune, tea.KeyMsg{Type: tea.KeyRune}},
	{opSpace, plain(tea.KeySpace)},
	{opEnter, plain(tea.KeyEnter)},
	{opBack, plain(tea.KeyBackspace)},
	{opDel, plain(tea.KeyDelete)},
	{opLeft, plain(tea.KeyLeft)},
	{opRight, plain(tea.KeyRight)},
	{opUp, plain(tea.KeyUp)},
	{opDown, plain(tea.KeyDown)},
	{opHome, plain(tea.KeyHome)},
	{opEnd, plain(tea.KeyEnd)},
	{opTop, alt('<')},
	{opBottom, alt('>')},
	{opWordF, alt('f')},
	{opWordB, alt('b')},
	{opKill, ctrl('k')},
	{opKillStart, ctrl('u')},
	{opKillBack, ctrl('w')},
	{opKillWord, alt('d')},
	{opYank, ctrl('y')},
	// the other keys for the same
	{opHome, ctrl('a')}, {opHome, ctrl('A')},
	{opEnd, ctrl('e')}, {opEnd, ctrl('E')},
	{opUp, ctrl('p')}, {opUp, ctrl('P')},
	{opDown, ctrl('n')}, {opDown, ctrl('N')},
	{opRight, ctrl('f')}, {opRight, ctrl('F')},
	{opLeft, ctrl('b')}, {opLeft, ctrl('B')},
	{opKill, ctrl('K')}, {opKillStart, ctrl('U')}, {opKillBack, ctrl('W')}, {opYank, ctrl('Y')},
	{opDel, ctrl('d')}, {opDel, ctrl('D')},
	{opBack, ctrl('h')}, {opBack, ctrl('H')},
	{opEnter, ctrl('m')}, {opEnter, ctrl('M')},
	{opWordF, alt('F')}, {opWordB, alt('B')}, {opKillWord, alt('D')},
	{opKillBack, tea.KeyMsg{Type: tea.KeyBackspace, Alt: true}},
	{opNone, ctrl('x')}, {opNone, alt('x')}, {opNone, plain(tea.KeyTab)}, {opNone, plain(tea.KeyEsc)},
	{opNone, plain(tea.KeyF1)}, {opNone, plain(tea.KeyPgUp)}, {opNone, plain(tea.KeyInsert)},
}

const nMain = opYank + 1

// ---------------------------------------------------------------------------
// Symbolic text areas.

// char is a character: printable ASCII, or one of a few others.
func char(mode int) rune {
	if mode == 0 { // any printable ASCII
		c := rune(zzsym.Byte())
		zzsym.Assume(c >= 0x20 && c <= 0x7e)
		return c
	}
	if mode == 1 { // classes
		return []rune{'a', ' ', 'é', '世'}[zzsym.Pick(4)]
	}
	return []rune{'a', '-'}[zzsym.Choose(2)]
}

func someLine(n, mode int) []rune {
	k := zzsym.Choose(n + 1)
	l := make([]rune, 0, k)
	for i := 0; i < k; i++ {
		l = append(l, char(mode))
	}
	return l
}

// plainLine is a line of k different letters.
func plainLine(i, k int) []rune {
	var l []rune
	for j := 0; j < k; j++ {
		l = append(l, rune('a'+(i*5+j)%26))
	}
	return l
}

func someLines(n, w, mode int) [][]rune {
	k := 1 + zzsym.Choose(n)
	var ls [][]rune
	for i := 0; i < k; i++ {
		if mode == 3 {
			ls = append(ls, plainLine(i, zzsym.Choose(w+1)))
		} else {
			ls = append(ls, someLine(w, mode))
		}
	}
	return ls
}

func place(ls [][]rune) pos {
	r := zzsym.Choose(len(ls))
	return pos{r, zzsym.Choose(len(ls[r]) + 1)}
}

type area struct {
	ta  input.TextArea
	m   *ref
	log []call
}

func cp(p input.CursorPos) pos { return pos{p.Row, p.Col} }

// fresh is a text area with the text and cursor of m, and its callbacks.
func fresh(m *ref) *area {
	a := &area{m: m, ta: input.NewTextArea()}
	if m.ring != nil {
		// Killed before: a line, or a line end.
		if string(m.ring) == "\n" {
			a.ta = a.ta.SetValue("\n")
		} else {
			a.ta = a.ta.SetValue(string(m.ring))
		}
		a.ta, _ = a.ta.Update(ctrl('k'))
		zzsym.Assert(strings.HasPrefix(a.ta.Value(), "") && a.ta.IsEmpty(), "Ctrl+K kills up to the end of the line")
	}
	a.ta = a.ta.MaxLines(m.maxL).MaxChars(m.maxC).ReadOnly(m.ro)
	a.ta = a.ta.SetValue(m.text())
	a.same("SetValue", pos{0, 0})
	a.ta = a.ta.SetCursorPosition(m.cur.r, m.cur.c)
	a.same("SetCursorPosition", m.cur)
	a.ta = a.ta.OnCursorMoved(func(f, t input.CursorPos) {
		a.log = append(a.log, call{'m', cp(f), cp(t)})
	}).OnBoundaryHit(func(p input.CursorPos, _ string) {
		a.log = append(a.log, call{'b', cp(p), pos{}})
	})
	if m.allowed != nil {
		a.ta = a.ta.OnMovement(func(_, t input.CursorPos) bool { return m.allowed(cp(t)) })
	}
	return a
}

// same: the text area is as the reference says.
func (a *area) same(what string, cur pos) {
	r, c := a.ta.CursorPosition()
	zzsym.Assert(r == cur.r && c == cur.c, what+": the cursor is where it belongs")
	zzsym.Assert(a.ta.Value() == a.m.text(), what+": the text is what it should be")
	zzsym.Assert(a.ta.LineCount() == len(a.m.ls), what+": number of lines")
}

func (a *area) sameAll(what string) {
	a.same(what, a.m.cur)
	l := a.m.ls[a.m.cur.r]
	zzsym.Assert(a.ta.CurrentLine() == string(l), what+": CurrentLine")
	b, at, af := a.ta.ContentParts()
	if a.m.cur.c == len(l) {
		zzsym.Assert(b == string(l) && at == " " && af == "", what+": ContentParts at the end of the line")
	} else {
		zzsym.Assert(b == string(l[:a.m.cur.c]) && at == string(l[a.m.cur.c:a.m.cur.c+1]) && af == string(l[a.m.cur.c+1:]), what+": ContentParts")
	}
	empty := len(a.m.ls) == 1 && len(a.m.ls[0]) == 0
	zzsym.Assert(a.ta.IsEmpty() == empty, what+": IsEmpty")
	ls := a.ta.Lines()
	zzsym.Assert(len(ls) == len(a.m.ls), what+": Lines")
	for i := range ls {
		zzsym.Assert(ls[i] == string(a.m.ls[i]), what+": Lines")
	}
	zzsym.Assert(len(a.log) == len(a.m.calls), what+": handlers are called once for each movement or refusal, and not otherwise")
	for i := range a.log {
		zzsym.Assert(a.log[i] == a.m.calls[i], what+": handlers get the positions")
	}
}

// press presses one of the keys.
func (a *area) press(b bind, ch rune) {
	k := b.key
	if b.op == opRune {
		k.Rune = ch
	}
	old := a.ta
	v, r, c := old.Value(), 0, 0
	r, c = old.CursorPosition()
	var cmd tea.Cmd
	a.ta, cmd = a.ta.Update(k)
	zzsym.Assert(cmd == nil, "keys give no command")
	a.m.do(b.op, ch)
	r2, c2 := old.CursorPosition()
	zzsym.Assert(old.Value() == v && r2 == r && c2 == c, "a key leaves the text area it was given to as it was")
}

// prompt makes a validator: any set of positions.
func table(kind int) func(p pos) bool {
	switch kind {
	case 0:
		return nil
	case 1: // a prompt: everything before a position
		r0, c0 := zzsym.Choose(3), zzsym.Choose(4)
		return func(p pos) bool { return p.r > r0 || p.r == r0 && p.c >= c0 }
	}
	// any set
	t := map[pos]bool{}
	return func(p pos) bool {
		v, ok := t[p]
		if !ok {
			v = zzsym.Bool()
			t[p] = v
		}
		return v
	}
}

// Keys: from any text and cursor, keys do what they are for.
func Keys() {
	n, w := zzsym.Param("lines", 2), zzsym.Param("chars", 2)
	mode := zzsym.Param("mode", 1)
	m := &ref{ls: someLines(n, w, mode)}
	m.cur = place(m.ls)
	switch zzsym.Choose(zzsym.Param("rings", 3)) {
	case 1:
		m.ring = []rune{'é', 'q'}
	case 2:
		m.ring = []rune{'\n'}
	}
	if zzsym.Param("limits", 0) == 1 {
		m.maxL = zzsym.Choose(n + 2)
		m.maxC = zzsym.Choose(n*w + n + 2)
		m.ro = zzsym.Bool()
	}
	m.allowed = table(zzsym.Param("valid", 0))
	a := fresh(m)
	a.sameAll("at first")
	nk := nMain
	if zzsym.Param("all", 0) == 1 {
		nk = len(binds)
	}
	for i := 0; i < zzsym.Param("keys", 1); i++ {
		b := binds[zzsym.Choose(nk)]
		var ch rune
		if b.op == opRune {
			ch = char(mode & 1)
		}
		a.press(b, ch)
		a.sameAll("after a key")
	}
	zzsym.Cover("end")
}

// Far: SetCursorPosition with any position, and MoveCursorToEnd.
func Far() {
	m := &ref{ls: someLines(3, 3, 3)}
	a := fresh(m)
	r, c := zzsym.Int(-1000, 1000), zzsym.Int(-1000, 1000)
	a.ta = a.ta.SetCursorPosition(r, c)
	if r < 0 {
		r = 0
	}
	if r > len(m.ls)-1 {
		r = len(m.ls) - 1
	}
	if c < 0 {
		c = 0
	}
	r = zzsym.Concrete(r)
	if c > len(m.ls[r]) {
		c = len(m.ls[r])
	}
	m.cur = pos{r, c}
	a.sameAll("SetCursorPosition")
	a.ta = a.ta.MoveCursorToEnd()
	last := len(m.ls) - 1
	m.cur = pos{last, len(m.ls[last])}
	a.sameAll("MoveCursorToEnd")
	zzsym.Cover("end")
}

// Ring: the last of any number of kills is what is yanked, and text areas that
// were derived from the same one do not change each other's.
func Ring() {
	k := zzsym.Choose(zzsym.Param("kills", 12) + 1)
	ta := input.NewTextArea()
	kill := func(ta input.TextArea, s string) input.TextArea {
		ta = ta.SetValue(s)
		switch zzsym.Choose(2) {
		case 0:
			ta, _ = ta.Update(ctrl('k'))
		default:
			ta, _ = ta.MoveCursorToEnd().Update(ctrl('u'))
		}
		zzsym.Assert(ta.Value() == "", "a line is killed")
		return ta
	}
	for i := 0; i < k; i++ {
		ta = ta.SetValue(string(rune('a'+i)) + "1")
		ta, _ = ta.Update(ctrl('k'))
	}
	yank := func(ta input.TextArea, want, what string) {
		ta, _ = ta.SetValue("<>").SetCursorPosition(0, 1).Update(ctrl('y'))
		zzsym.Assert(ta.Value() == "<"+want+">", what)
		_, c := ta.CursorPosition()
		zzsym.Assert(c == 1+len(want), "the cursor is after what was yanked")
	}
	t1 := kill(ta, "left")
	t2 := kill(ta, "right")
	yank(t1, "left", "what was killed last is yanked")
	yank(t2, "right", "what was killed last is yanked")
	want := ""
	if k > 0 {
		want = string(rune('a'+k-1)) + "1"
	}
	yank(ta, want, "what was killed in a text area derived from this one is not yanked here")
	yank(kill(t1, "more"), "more", "what was killed last is yanked")
	yank(t1, "left", "what was killed in a text area derived from this one is not yanked here")
	zzsym.Cover("end")
}

// ---------------------------------------------------------------------------
// What is shown.

func (a *area) shown(i int, nums, cursor bool) string {
	s := ""
	if nums {
		s = fmt.Sprintf("%4d ", i+1)
	}
	l := a.m.ls[i]
	if !cursor || i != a.m.cur.r {
		return s + string(l)
	}
	if a.m.cur.c == len(l) {
		return s + string(l) + "\x1b[7m \x1b[27m"
	}
	return s + string(l[:a.m.cur.c]) + "\x1b[7m" + string(l[a.m.cur.c]) + "\x1b[27m" + string(l[a.m.cur.c+1:])
}

// view: the rows shown are some of the lines that follow one another, the
// cursor's among them.
func (a *area) view(h int, nums, cursor bool) {
	v := a.ta.View()
	n := len(a.m.ls)
	if n == 1 && len(a.m.ls[0]) == 0 {
		return
	}
	for from := a.m.cur.r; from >= 0 && from > a.m.cur.r-h; from-- {
		to := from + h
		if to > n {
			to = n
		}
		var rows []string
		for i := from; i < to; i++ {
			rows = append(rows, a.shown(i, nums, cursor))
		}
		if v == strings.Join(rows, "\n") {
			return
		}
	}
	zzsym.Assert(false, "the view shows as many lines as there is room for, the cursor's among them, with the cursor")
}

// View: after anything that was done before, the view shows the cursor's line.
func View() {
	n, w := zzsym.Param("lines", 4), zzsym.Param("chars", 1)
	steps := zzsym.Param("steps", 2)
	m := &ref{}
	for i, k := 0, 1+zzsym.Choose(n); i < k; i++ {
		m.ls = append(m.ls, plainLine(i, 1+zzsym.Choose(w)))
	}
	m.cur = place(m.ls)
	a := fresh(m)
	h := 1 + zzsym.Choose(zzsym.Param("height", 3))
	nums, cursor := zzsym.Bool(), zzsym.Bool()
	a.ta = a.ta.Size(1+zzsym.Choose(2)*79, h).ShowLineNumbers(nums).ShowCursor(cursor).Wrap(zzsym.Choose(2) == 1)
	a.view(h, nums, cursor)
	for i := 0; i < steps; i++ {
		switch zzsym.Choose(5) {
		case 0:
			h = 1 + zzsym.Choose(zzsym.Param("height", 3))
			a.ta = a.ta.Height(h)
		case 1:
			m.ls = nil
			for i, k := 0, 1+zzsym.Choose(n); i < k; i++ {
				m.ls = append(m.ls, plainLine(i+2, 1))
			}
			m.cur = pos{0, 0}
			a.ta = a.ta.SetValue(m.text())
		case 2:
			m.cur = place(m.ls)
			a.ta = a.ta.SetCursorPosition(m.cur.r, m.cur.c)
		case 3:
			m.cur = pos{len(m.ls) - 1, len(m.ls[len(m.ls)-1])}
			a.ta = a.ta.MoveCursorToEnd()
		default:
			b := binds[zzsym.Choose(nMain)]
			a.press(b, 'Z')
		}
		a.sameAll("after a step")
		a.view(h, nums, cursor)
	}
	zzsym.Cover("end")
}

func main() {
	zzsym.Main(map[string]func(){
		"Keys": Keys,
		"Far":  Far,
		"Ring": Ring,
		"View": View,
	})
}
