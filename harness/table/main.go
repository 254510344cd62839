// Checks on the table (components/table): selection and scrolling, sorting,
// and the cells of the view.
package main

import (
	"math"

	"ZM/table"
	"ZZ/vt"
	"ZZ/zzsym"
	"github.com/phoenix-tui/phoenix/tea"
)

const maxRows = 12

// ---------------------------------------------------------------------------
// Keys: selection, scrolling, order.

type ref struct {
	order  []int // the rows in the order shown; row i has id i
	ids    []int // the rows as given
	sel    int
	off    int
	height int
	header bool
	sorted int // 0, 1 ascending, 2 descending (by id)
}

func (m *ref) fit() int {
	n := m.height
	if m.header {
		n--
	}
	if n < 0 {
		return 0
	}
	if n > len(m.order) {
		return len(m.order) // all
	}
	return n
}

func (m *ref) copy() *ref {
	c := *m
	c.order = append([]int{}, m.order...)
	c.ids = append([]int{}, m.ids...)
	return &c
}

func (m *ref) scroll() {
	if m.sel >= m.off+m.fit() {
		m.off = m.sel - m.fit() + 1
	}
	if m.sel < m.off {
		m.off = m.sel
	}
}

// id is what the column shows: a letter.
func letter(id int) string { return string(rune('a' + id)) }

func cols() []table.Column {
	return []table.Column{{Key: "id", Title: "T", Width: 4, Alignment: 2, Sortable: true, Renderer: func(v interface{}) string { return letter(v.(int)) }},
		{Key: "no", Title: "U", Width: 1, Renderer: func(v interface{}) string { return "." }}}
}

func rows(ids []int) []table.Row {
	rs := []table.Row{}
	for _, id := range ids {
		rs = append(rs, table.Row{"id": id})
	}
	return rs
}

func same(t *table.Table, m *ref, what string) {
	zzsym.Assert(t.SelectedIndex() == m.sel, what+": the selected index is where it should be")
	r := t.SelectedRow()
	if len(m.order) == 0 {
		zzsym.Assert(r == nil, what+": no row is selected if there is none")
	} else {
		zzsym.Assert(r["id"] == interface{}(m.order[m.sel]), what+": the selected row")
	}
	rs := t.Rows()
	zzsym.Assert(len(rs) == len(m.ids), what+": the rows are those given")
	for i := range rs {
		zzsym.Assert(rs[i]["id"] == interface{}(m.ids[i]), what+": the rows are those given, in the order given")
	}
}

// shown compares the view, of a first column of 4 and a second of 1.
func shown(t *table.Table, m *ref) {
	want := ""
	if m.header {
		switch m.sorted {
		case 1:
			want += " T ▲│U\n"
		case 2:
			want += " T ▼│U\n"
		default:
			want += "   T│U\n"
		}
		want += "────┼─\n"
	}
	seen := false
	for i := m.off; i < len(m.order) && i < m.off+m.fit(); i++ {
		if i == m.sel {
			seen = true
			want += ">  " + letter(m.order[i]) + "│.\n"
		} else {
			want += "   " + letter(m.order[i]) + "│.\n"
		}
	}
	zzsym.Assert(seen || len(m.order) == 0 || m.fit() == 0, "the selected row is shown")
	zzsym.Assert(t.View() == want, "the view shows the rows around the selected one")
}

const (
	oUp = iota
	oDown
	oHome
	oEnd
	oPgUp
	oPgDn
	oClear
	oNone
	oHeight
	oHeader
	oSort
	oSortNo
	oClearCall
	oSetRows
	oMsg
)

type bind struct {
	op  int
	key tea.KeyMsg
}

func key(t tea.KeyType) tea.KeyMsg { return tea.KeyMsg{Type: t} }
func let(r rune) tea.KeyMsg        { return tea.KeyMsg{Type: tea.KeyRune, Rune: r} }

var binds = []bind{
	{op: oDown, key: key(tea.KeyDown)},
	{op: oPgDn, key: key(tea.KeyPgDown)},
	{op: oHeight},
	{op: oUp, key: key(tea.KeyUp)},
	{op: oEnd, key: key(tea.KeyEnd)},
	{op: oPgUp, key: key(tea.KeyPgUp)},
	{op: oSort},
	{op: oHeader},
	{op: oClear, key: let('c')},
	{op: oHome, key: key(tea.KeyHome)},
	// the others
	{op: oUp, key: let('k')}, {op: oDown, key: let('j')}, {op: oHome, key: let('g')}, {op: oEnd, key: let('G')},
	{op: oSetRows}, {op: oSortNo}, {op: oClearCall}, {op: oMsg},
	{op: oNone, key: let('x')}, {op: oNone, key: key(tea.KeyLeft)}, {op: oNone, key: key(tea.KeyBackspace)},
	{op: oNone, key: tea.KeyMsg{Type: tea.KeyRune, Rune: 'j', Ctrl: true}}, {op: oNone, key: tea.KeyMsg{Type: tea.KeyRune, Rune: 'k', Alt: true}},
}

func height() int {
	if zzsym.Param("height", 5) < 0 {
		return zzsym.Int(math.MinInt64+1, math.MaxInt64)
	}
	return zzsym.Choose(zzsym.Param("height", 5)+2) - 1
}

func ids(n, salt int) []int {
	is := []int{}
	for i := 0; i < n; i++ {
		is = append(is, (i*7+salt)%maxRows)
	}
	return is
}

func (m *ref) resort() {
	m.order = append([]int{}, m.ids...)
	for i := 1; m.sorted > 0 && i < len(m.order); i++ {
		for j := i; j > 0 && (m.sorted == 1) == (m.order[j] < m.order[j-1]); j-- {
			m.order[j], m.order[j-1] = m.order[j-1], m.order[j]
		}
	}
}

func apply(t *table.Table, m *ref, b bind) *table.Table {
	n := len(m.order)
	switch b.op {
	case oUp:
		if m.sel > 0 {
			m.sel--
		}
	case oDown:
		if m.sel < n-1 {
			m.sel++
		}
	case oHome:
		m.sel, m.off = 0, 0
	case oEnd:
		m.sel = n - 1
		if n == 0 {
			m.sel = 0
		}
		if m.off = n - m.fit(); m.off < 0 {
			m.off = 0
		}
	case oPgUp:
		m.sel -= m.fit()
		if m.sel < 0 {
			m.sel = 0
		}
	case oPgDn:
		m.sel += m.fit()
		if m.sel > n-1 {
			m.sel = n - 1
		}
		if n == 0 {
			m.sel = 0
		}
	case oHeight:
		m.height = height()
		t = t.Height(m.height)
	case oHeader:
		m.header = !m.header
		t = t.ShowHeader(m.header)
	case oSort:
		m.sorted = 3 - m.sorted
		if m.sorted == 3 {
			m.sorted = 1
		}
		m.resort()
		m.sel, m.off = 0, 0
		t = t.SortByColumn("id")
	case oSortNo:
		t = t.SortByColumn("no").SortByColumn("nowhere")
	case oClear, oClearCall:
		m.sorted = 0
		m.resort()
		if b.op == oClearCall {
			t = t.ClearSort()
		}
	case oSetRows:
		m.ids = ids(zzsym.Choose(zzsym.Param("rows", 4)+1), 5)
		m.sorted = 0
		m.resort()
		m.sel, m.off = 0, 0
		given := rows(m.ids)
		t = t.SetRows(given)
		for i := range given {
			given[i] = nil
		}
	case oMsg:
		nt, cmd := t.Update(tea.WindowSizeMsg{Width: 3, Height: 2})
		zzsym.Assert(nt == t && cmd == nil, "other messages are ignored")
	}
	m.scroll()
	if b.op < oHeight {
		nt, cmd := t.Update(b.key)
		zzsym.Assert(cmd == nil, "keys give no command")
		t = nt
	}
	return t
}

// Keys: whatever is done, the selection is what the keys say, on a row that is
// shown.
func Keys() {
	lo := zzsym.Param("minrows", 0)
	m := &ref{ids: ids(lo+zzsym.Choose(zzsym.Param("rows", 4)+1-lo), 3), height: 10, header: true}
	m.resort()
	given := rows(m.ids)
	t := table.NewWithRows(cols(), given)
	for i := range given {
		given[i] = nil
	}
	if zzsym.Param("sized", 1) == 1 {
		m.height = height()
		t = t.Height(m.height)
		m.header = zzsym.Bool()
		t = t.ShowHeader(m.header)
	}
	same(t, m, "at first")
	if zzsym.Param("from", 0) == 1 && len(m.ids) > 0 {
		for i := zzsym.Choose(len(m.ids)); i > 0; i-- {
			t = apply(t, m, binds[0])
		}
	}
	nb := zzsym.Param("binds", len(binds))
	for i := 0; i < zzsym.Param("ops", 2); i++ {
		old, was := t, m.copy()
		t = apply(t, m, binds[zzsym.Choose(nb)])
		old.Update(key(tea.KeyDown))
		old.SortByColumn("id").Update(key(tea.KeyEnd))
		same(t, m, "after an operation")
		same(old, was, "an operation leaves the table it was given to as it was")
		if zzsym.Param("each", 0) == 1 {
			shown(old, was)
		}
	}
	shown(t, m)
	zzsym.Cover("end")
}

// ---------------------------------------------------------------------------
// Sort.

const (
	vInts = iota
	vInt64s
	vStrings
	vBools
	vFloats
)

type val struct {
	null bool
	i    int
	s    string
	b    bool
	f    float64
}

func value(kind int) val {
	var v val
	if v.null = zzsym.Bool(); v.null {
		return v
	}
	switch kind {
	case vInts, vInt64s:
		v.i = zzsym.Int(math.MinInt64, math.MaxInt64)
	case vStrings:
		v.s = zzsym.Str(zzsym.Choose(zzsym.Param("len", 2) + 1))
	case vBools:
		v.b = zzsym.Bool()
	case vFloats:
		switch zzsym.Choose(zzsym.Param("floats", 4)) {
		case 0:
			v.f = float64(zzsym.Int(-1<<50, 1<<50))
		case 1:
			v.f = 0.5
		case 2:
			v.f = math.Inf(1)
		case 3:
			v.f = math.Inf(-1)
		}
	}
	return v
}

func (v val) boxed(kind int) interface{} {
	switch {
	case v.null:
		return nil
	case kind == vInts:
		return v.i
	case kind == vInt64s:
		return int64(v.i)
	case kind == vStrings:
		return v.s
	case kind == vBools:
		return v.b
	}
	return v.f
}

// less: nothing comes before everything, false before true, strings by their
// bytes.
func less(a, b val, kind int) bool {
	if a.null || b.null {
		return a.null && !b.null
	}
	switch kind {
	case vInts, vInt64s:
		return a.i < b.i
	case vStrings:
		for i := 0; i < len(a.s) && i < len(b.s); i++ {
			if a.s[i] != b.s[i] {
				return a.s[i] < b.s[i]
			}
		}
		return len(a.s) < len(b.s)
	case vBools:
		return !a.b && b.b
	}
	return a.f < b.f
}

// order reads the order of the rows by going through them.
func order(t *table.Table, n int) []int {
	var is []int
	t, _ = t.Update(key(tea.KeyHome))
	for i := 0; i < n; i++ {
		zzsym.Assert(t.SelectedIndex() == i, "every row can be selected")
		is = append(is, t.SelectedRow()["id"].(int))
		t, _ = t.Update(key(tea.KeyDown))
	}
	zzsym.Assert(t.SelectedIndex() == n-1 || n == 0, "and no others")
	return is
}

// Sort: sorting orders by the column, keeping the order of equal rows.
func Sort() {
	lo := zzsym.Param("minrows", 0)
	n := lo + zzsym.Choose(zzsym.Param("rows", 3)+1-lo)
	kind := zzsym.Param("kind", -1)
	if kind < 0 {
		kind = zzsym.Choose(5)
	}
	var vs []val
	var rs []table.Row
	for i := 0; i < n; i++ {
		v := value(kind)
		vs = append(vs, v)
		r := table.Row{"id": i, "v": v.boxed(kind), "w": -i}
		if v.null && zzsym.Bool() {
			r = table.Row{"id": i, "w": -i} // no such cell
		}
		rs = append(rs, r)
	}
	t := table.NewWithRows([]table.Column{{Key: "id", Width: 1}, {Key: "v", Width: 1, Sortable: true}, {Key: "w", Width: 1, Sortable: true}}, rs)
	plain := t
	first := 1
	if zzsym.Param("before", 1) == 1 {
		switch zzsym.Choose(4) {
		case 1: // another column before
			t = t.SortByColumn("w")
			if n > 0 {
				zzsym.Assert(order(t, n)[0] == n-1, "the other column sorts too")
			}
		case 2: // this one
			t = t.SortByColumn("v")
			first = 2
		case 3: // this one, and then not
			t = t.SortByColumn("v").ClearSort()
		}
	}
	if zzsym.Bool() {
		t, _ = t.Update(key(tea.KeyEnd))
	}
	before := order(t, n)
	s := t.SortByColumn("v")
	zzsym.Assert(s.SelectedIndex() == 0, "sorting selects the first row")
	is := order(s, n)
	seen := map[int]bool{}
	for k, i := range is {
		zzsym.Assert(i >= 0 && i < n && !seen[i], "every row is there once")
		seen[i] = true
		if k == 0 {
			continue
		}
		a, b := vs[is[k-1]], vs[i]
		if first == 1 {
			zzsym.Assert(!less(b, a, kind), "rows ascend")
		} else {
			zzsym.Assert(!less(a, b, kind), "rows descend the second time")
		}
		if !less(a, b, kind) && !less(b, a, kind) {
			zzsym.Assert(is[k-1] < i, "equal rows stay in the order given")
		}
	}
	for k, i := range order(t, n) {
		zzsym.Assert(before[k] == i, "sorting leaves the table it is given as it was")
	}
	for k, r := range s.Rows() {
		zzsym.Assert(r["id"].(int) == k, "the rows as given stay as given")
	}
	for k, i := range order(s.ClearSort(), n) {
		zzsym.Assert(k == i, "without sorting the rows are in the order given")
	}
	for k, i := range order(plain, n) {
		zzsym.Assert(k == i, "sorting leaves the table it is given as it was")
	}
	zzsym.Cover("end")
}

// ---------------------------------------------------------------------------
// Cells.

type piece struct {
	s string
	r rune
	w int
}

var pieces = []piece{{"a", 'a', 1}, {"世", '世', 2}, {"é", 'é', 1}, {"e\u0301", 'e', 1}, {" ", ' ', 1}, {"界", '界', 2}}

// text picks a text.
func text(max int) (s string, ps []piece) {
	n := zzsym.Choose(max + 1)
	for i := 0; i < n; i++ {
		p := pieces[zzsym.Choose(zzsym.Param("pieces", 4))]
		s += p.s
		ps = append(ps, p)
	}
	return
}

func dots() []piece { return []piece{{".", '.', 1}, {".", '.', 1}, {".", '.', 1}} }

func width(ps []piece) (w int) {
	for _, p := range ps {
		w += p.w
	}
	return
}

// cell: what a cell of the given width shows, column by column.
func cell(ps []piece, w, align int, mark bool) []rune {
	if w < 0 {
		w = 0
	}
	if width(ps) > w {
		room, tail := w, []piece(nil)
		if w > 3 {
			room, tail = w-3, dots()
		}
		k, used := 0, 0
		for used+ps[k].w <= room {
			used += ps[k].w
			k++
		}
		ps = append(append([]piece{}, ps[:k]...), tail...)
	}
	pad := w - width(ps)
	left := 0
	switch align {
	case 1:
		left = pad / 2
	case 2:
		left = pad
	}
	out := []rune{}
	for i := 0; i < left; i++ {
		out = append(out, ' ')
	}
	for _, p := range ps {
		out = append(out, p.r)
		if p.w == 2 {
			out = append(out, 0)
		}
	}
	for len(out) < w {
		out = append(out, ' ')
	}
	if mark && w > 0 {
		if len(out) > 1 && out[1] == 0 {
			out[1] = ' '
		}
		out[0] = '>'
	}
	return out
}

func column(k, title string, w, align int, f func(interface{}) string) table.Column {
	c := table.Column{Key: k, Title: title, Width: w, Sortable: true, Renderer: f}
	switch align {
	case 1:
		c.Alignment = 1
	case 2:
		c.Alignment = 2
	}
	return c
}

// line compares a line of the screen with cells.
func line(s *vt.Screen, y int, cs [][]rune, sep rune) {
	x := 0
	for i, c := range cs {
		if i > 0 {
			zzsym.Assert(s.At(x, y).R == sep, "there is a separator between columns")
			x++
		}
		for _, r := range c {
			if r == 0 {
				zzsym.Assert(s.At(x, y).W == 0, "a wide character is whole")
			} else {
				zzsym.Assert(s.At(x, y).R == r && s.At(x, y).W > 0, "a cell shows its text in its column")
			}
			x++
		}
	}
	for ; x < s.W; x++ {
		zzsym.Assert(s.At(x, y).R == ' ', "a line ends with the last column")
	}
}

// Cells: every cell takes the width of its column.
func Cells() {
	max := zzsym.Param("text", 3)
	w := zzsym.Choose(zzsym.Param("width", 5)+2) - 1
	align := zzsym.Choose(3)
	title, tps := "", []piece(nil)
	txt, ps := "", []piece(nil)
	if zzsym.Param("title", 0) == 1 {
		title, tps = text(max)
	} else {
		txt, ps = text(max)
	}
	own := zzsym.Bool()
	r := table.Row{"a": txt, "b": "b"}
	var f func(interface{}) string
	if own {
		r["a"] = 7
		f = func(v interface{}) string {
			zzsym.Assert(v == interface{}(7), "a renderer gets the value")
			return txt
		}
	}
	cs := []table.Column{column("b", "T", 2, 0, nil), column("a", title, w, align, f)}
	first := zzsym.Bool() // the cell looked at is in the first column
	if first {
		cs[0], cs[1] = cs[1], cs[0]
	}
	t := table.NewWithRows(cs, []table.Row{r, r})
	sort := ""
	if zzsym.Param("title", 0) == 1 {
		switch zzsym.Choose(3) {
		case 1:
			t = t.SortByColumn("a")
			sort = "▲"
		case 2:
			t = t.SortByColumn("a").SortByColumn("a")
			sort = "▼"
		}
	}
	if sort != "" {
		tps = append(append([]piece{}, tps...), piece{" ", ' ', 1}, piece{sort, []rune(sort)[0], 1})
	}
	put := func(a, b []rune) [][]rune {
		if first {
			return [][]rune{a, b}
		}
		return [][]rune{b, a}
	}
	s := vt.New(zzsym.Param("width", 5)+6, 6)
	s.CRLF = true
	s.Feed(t.View())
	line(s, 0, put(cell(tps, w, align, false), []rune{'T', ' '}), '│')
	rule := []rune{}
	for i := 0; i < w; i++ {
		rule = append(rule, '─')
	}
	line(s, 1, put(rule, []rune{'─', '─'}), '┼')
	if first {
		line(s, 2, put(cell(ps, w, align, true), []rune{'b', ' '}), '│')
	} else {
		line(s, 2, put(cell(ps, w, align, false), []rune{'>', ' '}), '│')
	}
	line(s, 3, put(cell(ps, w, align, false), []rune{'b', ' '}), '│')
	line(s, 4, nil, 0)
	line(s, 5, nil, 0)
	zzsym.Assert(s.Strange == 0 && s.X == 0 && s.Y == 4, "nothing else is written")
	zzsym.Cover("end")
}

func main() {
	zzsym.Main(map[string]func(){
		"Keys":  Keys,
		"Sort":  Sort,
		"Cells": Cells,
	})
}
