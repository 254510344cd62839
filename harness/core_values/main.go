// Checks on core: width of text, clamped values, terminal capabilities.
package main

import (
	"os"
	"strings"
	"unicode/utf8"

	core "ZM"
	"ZM/internal/domain/service"
	"ZM/internal/domain/value"
	"ZZ/zzsym"
)

const big = 1 << 40

// Characters and the columns terminals give them.
var table = []struct {
	r rune
	w int
}{
	{' ', 1}, {'a', 1}, {'~', 1}, {0xa0, 1}, {0xe9, 1}, {0x416, 1}, {0x2500, 1}, {0x2588, 1}, {0xff61, 1},
	{0x3042, 2}, {0x4e2d, 2}, {0xac00, 2}, {0xff01, 2}, {0x3000, 2}, {0x1f600, 2}, {0x1f680, 2}, {0x20000, 2},
	{0x300, 0}, {0x301, 0}, {0x200b, 0}, {0x20d0, 0},
}

// Text of characters that do not combine into one picture: the width is the
// sum of the widths of the characters, and so is the width of a cell.
func Additive() {
	n := zzsym.Param("n", 3)
	s, sum := "", 0
	k := zzsym.Choose(n + 1)
	for i := 0; i < k; i++ {
		e := table[zzsym.Pick(len(table))]
		s += string(e.r)
		sum += e.w
	}
	w := core.StringWidth(s)
	zzsym.ObserveInt("width", w)
	zzsym.Assert(w == sum, "the width of text is not the sum of its characters' widths")
	c := core.NewCellAuto(s)
	zzsym.Assert(c.Content == s && c.Width == sum, "NewCellAuto: content or width is wrong")
	zzsym.Cover("end")
}

// Every printable ASCII text is as wide as it is long.
func Ascii() {
	n := zzsym.Param("n", 12)
	k := zzsym.Choose(n + 1)
	b := make([]byte, k)
	for i := range b {
		b[i] = byte(zzsym.Int(0x20, 0x7e))
	}
	s := string(b)
	zzsym.Assert(core.StringWidth(s) == k, "printable ASCII: the width is not the length")
	c := core.NewCellAuto(s)
	zzsym.Assert(c.Content == s && c.Width == k, "NewCellAuto on ASCII")
	zzsym.Cover("end")
}

var ranges = []struct {
	lo, hi rune
	w      int
}{
	{0x20, 0x7e, 1}, {0xc0, 0xff, 1}, {0x410, 0x44f, 1}, {0x2500, 0x257f, 1}, {0x2580, 0x259f, 1},
	{0x3041, 0x3096, 2}, {0x30a1, 0x30fa, 2}, {0x3400, 0x4dbf, 2}, {0x4e00, 0x9fff, 2}, {0xac00, 0xd7a3, 2},
	{0xff01, 0xff60, 2}, {0x1f600, 0x1f64f, 2}, {0x20000, 0x2a6df, 2}, {0x300, 0x36f, 0},
}

// Every single character of the ranges.
func Range() {
	e := ranges[zzsym.Choose(len(ranges))]
	r := rune(zzsym.Int(int(e.lo), int(e.hi)))
	pre := zzsym.Choose(2) == 1
	s := string(r)
	w := e.w
	if pre {
		s = "x" + s
		w++
	}
	got := core.StringWidth(s)
	zzsym.ObserveInt("width", got)
	zzsym.Assert(got == w, "the width of a character is wrong")
	zzsym.Cover("end")
}

var alpha = []rune{0, 7, 0x1b, ' ', 'a', 0x7f, 0x80, 0xad, 0xe9, 0x301, 0x1100, 0x1160, 0x11a8, 0x200b, 0x200d, 0x200e, 0x2600, 0x263a, 0x2764, 0x4e2d, 0xac00, 0xfe0e, 0xfe0f, 0xfffd, 0x1f1e6, 0x1f1f7, 0x1f3fb, 0x1f44d, 0x1f468, 0x1f600, 0xe0100, 0x10ffff}

// Any text: never negative, never more than two columns a character.
func Bounds() {
	n := zzsym.Param("n", 3)
	rs := make([]rune, n)
	for i := range rs {
		rs[i] = alpha[zzsym.Pick(len(alpha))]
	}
	s := string(rs)
	w := core.StringWidth(s)
	zzsym.ObserveInt("w", w)
	zzsym.Assert(w >= 0 && w <= 2*utf8.RuneCountInString(s), "the width is outside 0..2 columns a character")
	c := core.NewCellAuto(s)
	zzsym.Assert(c.Content == s && c.Width == w, "NewCellAuto disagrees with StringWidth")
	zzsym.Cover("end")
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// Sizes, positions and cells are clamped, not rejected; a terminal is not
// changed by deriving another from it.
func Values() {
	a, b := zzsym.Int(-big, big), zzsym.Int(-big, big)
	switch zzsym.Choose(4) {
	case 0:
		s := core.NewSize(a, b)
		zzsym.Assert(s.Width == max(a, 1) && s.Height == max(b, 1), "NewSize: not the given size with at least 1 each")
		t := core.NewTerminal()
		t2 := t.WithSize(core.Size{Width: a, Height: b})
		zzsym.Assert(t2.Size() == s, "WithSize: not the given size with at least 1 each")
		zzsym.Assert(t.Size() == core.Size{Width: 80, Height: 24}, "WithSize changed the terminal it was called on")
	case 1:
		p := core.NewPosition(a, b)
		zzsym.Assert(p.Row == max(a, 0) && p.Col == max(b, 0), "NewPosition: not the given position with at least 0 each")
		dr, dc := zzsym.Int(-big, big), zzsym.Int(-big, big)
		q := p.Add(dr, dc)
		zzsym.Assert(q.Row == max(p.Row+dr, 0) && q.Col == max(p.Col+dc, 0), "Position.Add: not the sum with at least 0 each")
		zzsym.Assert(p == core.NewPosition(a, b), "Add changed the position")
	case 2:
		s := zzsym.Str(zzsym.Choose(4))
		c := core.NewCell(s, a)
		zzsym.Assert(c.Content == s && c.Width == max(a, 0), "NewCell: content or width is wrong")
	case 3:
		rm, err := core.NewRawMode("state")
		zzsym.Assert(err == nil && !rm.IsEnabled() && rm.OriginalState() == "state", "NewRawMode")
		_, err = core.NewRawMode(nil)
		zzsym.Assert(err != nil, "NewRawMode accepts no state")
		t := core.NewTerminal().WithSize(core.Size{Width: a, Height: b})
		t2 := t.WithRawMode(rm)
		zzsym.Assert(!t.IsRawModeEnabled() && t2.Size() == t.Size(), "WithRawMode changed something else")
		zzsym.Assert(t2.IsRawModeEnabled() == rm.IsEnabled(), "WithRawMode: another mode")
	}
	zzsym.Cover("end")
}

func depth() int {
	return []int{0, 8, 256, 16777216}[zzsym.Choose(4)]
}

func valid(d int) bool { return d == 0 || d == 8 || d == 256 || d == 16777216 }

// Capabilities are consistent whatever they are made of.
func Caps() {
	ansi, mouse, alt, cur := zzsym.Bool(), zzsym.Bool(), zzsym.Bool(), zzsym.Bool()
	d := zzsym.Int(-big, big)
	c := core.NewCapabilities(ansi, core.ColorDepth(d), mouse, alt, cur)
	want := 0
	if valid(d) {
		want = d
	}
	zzsym.Assert(int(c.ColorDepth()) == want, "the colour depth is neither the given one nor none")
	zzsym.Assert(c.SupportsANSI() == ansi, "SupportsANSI")
	zzsym.Assert(c.SupportsMouse() == (ansi && mouse), "mouse: without ANSI there is none")
	zzsym.Assert(c.SupportsAltScreen() == (ansi && alt), "alternate screen: without ANSI there is none")
	zzsym.Assert(c.SupportsCursorControl() == (ansi && cur), "cursor control: without ANSI there is none")
	zzsym.Assert(c.SupportsColor() == (want > 0), "SupportsColor")
	zzsym.Assert(c.SupportsTrueColor() == (want == 16777216), "SupportsTrueColor")
	t := core.NewTerminalWithCapabilities(c)
	k := t.WithSize(core.Size{Width: 3, Height: 4}).Capabilities()
	zzsym.Assert(*k == *c, "a terminal reports other capabilities than it was given")
	zzsym.Cover("end")
}

// An environment whose variables have any of the listed values.
type env struct {
	m   map[string]string
	p   string
	any bool
}

var choices = map[string][]string{
	"NO_COLOR":     {"", "1", "0", "?"},
	"FORCE_COLOR":  {"", "0", "1", "2", "3", "true", "?"},
	"COLORTERM":    {"", "truecolor", "24bit", "TrueColor", "24BIT", "yes", "?"},
	"TERM_PROGRAM": {"", "iTerm.app", "vscode", "Hyper", "WarpTerminal", "Apple_Terminal", "?"},
	"TERM":         {"", "dumb", "xterm", "xterm-256color", "screen.xterm-256color", "xterm-color", "256color", "linux", "?"},
	"WT_SESSION":   {"", "x"},
}

func (e *env) Get(k string) string {
	if v, ok := e.m[k]; ok {
		return v
	}
	v := ""
	if c := choices[k]; c != nil {
		v = c[zzsym.Choose(len(c))]
		if v == "?" { // one variable can have any text
			v = "other"
			if !e.any && zzsym.Bool() {
				e.any = true
				n := zzsym.Param("len", 4)
				if k == "COLORTERM" {
					n = 2
				}
				v = zzsym.Str(1 + zzsym.Choose(n))
				for i := 0; i < len(v); i++ {
					zzsym.Assume(v[i] < 0x80 && v[i] != 0)
				}
			}
		}
	}
	e.m[k] = v
	return v
}
func (e *env) Lookup(k string) (string, bool) { v := e.Get(k); return v, v != "" }
func (e *env) Platform() string               { return e.p }

// What a terminal in that environment can do.
func oracle(e *env) (ansi bool, depth int, mouse, rest bool) {
	if e.Get("NO_COLOR") != "" {
		return
	}
	switch e.Get("FORCE_COLOR") {
	case "":
	case "0":
		return
	case "1":
		return true, 8, true, true
	case "2":
		return true, 256, true, true
	default:
		return true, 16777216, true, true
	}
	if e.p == "windows" {
		if e.Get("WT_SESSION") != "" || e.Get("TERM_PROGRAM") == "vscode" {
			return true, 16777216, true, true
		}
		return true, 8, false, true
	}
	t := e.Get("TERM")
	dumb := t == "" || t == "dumb"
	if dumb && e.p != "darwin" {
		return
	}
	tp := e.Get("TERM_PROGRAM")
	ct := e.Get("COLORTERM")
	switch {
	case lower(ct) == "truecolor" || lower(ct) == "24bit":
		depth = 16777216
		if e.p == "darwin" && tp == "Apple_Terminal" {
			depth = 256
		}
	case tp == "iTerm.app" || tp == "vscode" || tp == "Hyper" || tp == "WarpTerminal":
		depth = 16777216
	case tp == "Apple_Terminal":
		depth = 256
	case has(t, "256color"):
		depth = 256
	case !dumb:
		depth = 8
	}
	return true, depth, true, true
}

func lower(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

func has(s, sub string) bool { return strings.Contains(s, sub) }

func Detect() {
	e := &env{m: map[string]string{}, p: []string{"unix", "windows", "darwin"}[zzsym.Choose(3)]}
	c := service.NewCapabilitiesDetector(e).Detect()
	ansi, depth, mouse, rest := oracle(e)
	zzsym.ObserveInt("depth", int(c.ColorDepth()))
	zzsym.Assert(c.SupportsANSI() == ansi, "detection: ANSI support is wrong for this environment")
	zzsym.Assert(c.ColorDepth() == value.ColorDepth(depth), "detection: the colour depth is wrong for this environment")
	zzsym.Assert(c.SupportsMouse() == mouse, "detection: mouse support is wrong for this environment")
	zzsym.Assert(c.SupportsAltScreen() == rest && c.SupportsCursorControl() == rest, "detection: alternate screen or cursor control is wrong for this environment")
	zzsym.Cover("end")
}

// AutoDetect on the real environment of the process (platform: unix).
func Auto() {
	e := &env{m: map[string]string{}, p: "unix"}
	ansi, depth, mouse, rest := oracle(e)
	for k := range choices {
		os.Unsetenv(k)
	}
	for k, v := range e.m {
		if v != "" {
			os.Setenv(k, v)
		}
	}
	t := core.AutoDetect()
	c := t.Capabilities()
	zzsym.Assert(c.SupportsANSI() == ansi && int(c.ColorDepth()) == depth && c.SupportsMouse() == mouse, "AutoDetect: ANSI, colours or mouse are wrong for this environment")
	zzsym.Assert(c.SupportsAltScreen() == rest && c.SupportsCursorControl() == rest, "AutoDetect: alternate screen or cursor control is wrong for this environment")
	zzsym.Assert(c.SupportsColor() == (depth > 0) && c.SupportsTrueColor() == (depth == 16777216), "AutoDetect: colour predicates")
	zzsym.Assert(t.Size() == core.Size{Width: 80, Height: 24} && !t.IsRawModeEnabled(), "AutoDetect: a new terminal is 80 x 24 and cooked")
	zzsym.Cover("end")
}

func main() {
	zzsym.Main(map[string]func(){"Additive": Additive, "Ascii": Ascii, "Range": Range, "Bounds": Bounds, "Values": Values, "Caps": Caps, "Detect": Detect, "Auto": Auto})
}
