// Checks on progress bars and spinners (components/progress).
package main

import (
	"math"
	"strconv"
	"strings"
	"time"

	"ZM/progress"
	"ZZ/zzsym"
	"github.com/phoenix-tui/phoenix/tea"
)

func clamp(n int) int {
	if n < 0 {
		return 0
	}
	if n > 100 {
		return 100
	}
	return n
}

// change is p with d added, whatever d is.
func change(p, d int) int {
	if d > 100 {
		d = 100
	}
	if d < -100 {
		d = -100
	}
	return clamp(p + d)
}

func anyInt() int { return zzsym.Int(math.MinInt64, math.MaxInt64) }

// Percent: the progress is what it was set to and changed by, from 0 to 100.
func Percent() {
	p := anyInt()
	b := *progress.NewBarWithProgress(5, p)
	p = clamp(p)
	if zzsym.Bool() {
		b, p = *progress.NewBar(anyInt()), 0
	}
	for i := 0; i < zzsym.Param("ops", 2); i++ {
		zzsym.Assert(b.Progress() == p, "the progress is what it should be")
		zzsym.Assert(b.IsComplete() == (p == 100), "complete is 100")
		old, was, n := b, p, anyInt()
		switch zzsym.Choose(5) {
		case 0:
			b, p = b.SetProgress(n), clamp(n)
		case 1:
			b, p = b.Increment(n), change(p, n)
		case 2:
			if n == math.MinInt64 {
				n++
			}
			b, p = b.Decrement(n), change(p, -n)
		case 3:
			b = b.Label("x").ShowPercent(true).FillChar('#').EmptyChar('.')
		case 4:
			nb, cmd := b.Update(tea.TickMsg{})
			zzsym.Assert(cmd == nil && nb.Init() == nil, "bars need no messages")
			b = nb
		}
		zzsym.Assert(old.Progress() == was, "a change leaves the bar it is given as it was")
	}
	zzsym.Assert(b.Progress() == p && b.Progress() >= 0 && b.Progress() <= 100, "the progress is what it should be")
	zzsym.Assert(b.IsComplete() == (p == 100), "complete is 100")
	zzsym.Cover("end")
}

func three(p int) string {
	s := strconv.Itoa(p)
	for len(s) < 3 {
		s = "0" + s
	}
	return s
}

// Bar: the view is filled in proportion.
func Bar() {
	w := zzsym.Choose(zzsym.Param("width", 10)+2) - 1
	p := zzsym.Concrete(zzsym.Int(0, 100))
	b := *progress.NewBarWithProgress(w, p)
	settings := zzsym.Param("settings", 1) == 1
	if settings && zzsym.Bool() {
		b = progress.NewBar(w).SetProgress(p)
	}
	if w < 1 {
		w = 1
	}
	full, empty := "█", "░"
	if settings && zzsym.Bool() {
		b, full = b.FillChar('#'), "#"
	}
	if settings && zzsym.Bool() {
		b, empty = b.EmptyChar('é'), "é"
	}
	label, percent := settings && zzsym.Bool(), settings && zzsym.Bool()
	if label {
		b = b.Label("la bel")
	}
	b = b.ShowPercent(percent)
	view := b.View()
	if label {
		zzsym.Assert(strings.HasPrefix(view, "la bel "), "the label comes first")
		view = view[len("la bel "):]
	}
	if percent {
		tail := " " + three(p) + "%"
		zzsym.Assert(strings.HasSuffix(view, tail), "the percentage comes last")
		view = view[:len(view)-len(tail)]
	}
	n := 0
	for strings.HasPrefix(view, full) {
		view = view[len(full):]
		n++
	}
	zzsym.Assert(n*100 <= p*w && p*w < (n+1)*100, "the filled part is in proportion, rounded down")
	for strings.HasPrefix(view, empty) {
		view = view[len(empty):]
		n++
	}
	zzsym.Assert(n == w && view == "", "the bar has its width")
	zzsym.Cover("end")
}

var styles = []string{"dots", "line", "arrow", "circle", "bounce", "dot-pulse", "grow-vertical", "grow-horizontal", "box-bounce", "simple-dots", "clock", "earth", "moon", "toggle", "hamburger", "nothing known", ""}

// period is how many different views in turn s has before it repeats itself.
func run(s progress.Spinner, n int) []string {
	var vs []string
	for i := 0; i < n; i++ {
		vs = append(vs, s.View())
		ns, cmd := s.Update(tea.TickMsg{})
		zzsym.Assert(cmd != nil, "a tick asks for the next one")
		zzsym.Assert(s.View() == vs[i], "a tick leaves the spinner it is given as it was")
		s = ns
	}
	return vs
}

// Custom: a spinner shows its frames in turn.
func Custom() {
	n := zzsym.Choose(zzsym.Param("frames", 4) + 1)
	frames, given := []string{}, []string{}
	for i := 0; i < n; i++ {
		f := zzsym.Str(zzsym.Choose(zzsym.Param("len", 1) + 1))
		frames = append(frames, f)
		given = append(given, f)
	}
	fps := zzsym.Int(-2, 4)
	s := *progress.NewSpinnerCustom(given, fps)
	for i := range given {
		given[i] = "changed later"
	}
	if n == 0 {
		frames = []string{"•"}
	}
	label := ""
	if zzsym.Bool() {
		label = "lab"
		s = s.Label(label)
	}
	for i, v := range run(s, zzsym.Param("ticks", 9)) {
		want := frames[i%len(frames)]
		if label != "" {
			want += " " + label
		}
		zzsym.Assert(v == want, "the frames are shown in turn, over and over")
	}
	ns, cmd := s.Update(tea.WindowSizeMsg{})
	zzsym.Assert(cmd == nil && ns.View() == s.View(), "other messages do nothing")
	if fps <= 0 {
		fps = 10
	}
	next(s, fps)
	zzsym.Cover("end")
}

// next: Init, and every tick, ask for a tick at the right time.
func next(s progress.Spinner, fps int) {
	for i := 0; i < 2; i++ {
		cmd := s.Init()
		if i > 0 {
			s, cmd = s.Update(tea.TickMsg{})
		}
		t := time.Now()
		_, ok := cmd().(tea.TickMsg)
		d := time.Since(t)
		zzsym.Assert(ok, "a spinner asks for a tick")
		want := time.Second / time.Duration(fps)
		zzsym.Assert(d >= want && (!zzsym.IsSymbolic() || d < want+time.Millisecond), "a frame later")
	}
}

// Styles: the styles by name.
func Styles() {
	name := styles[zzsym.Choose(len(styles))]
	s := *progress.NewSpinner(name)
	vs := run(s, 40)
	period := 0
	for k := 2; k <= 14 && period == 0; k++ {
		period = k
		for i := range vs {
			if vs[i] != vs[i%k] {
				period = 0
			}
		}
		for i := 0; i < k; i++ {
			if vs[i] == "" {
				period = 0
			}
		}
	}
	zzsym.Assert(period > 0, "a style turns")
	if name == "nothing known" || name == "" {
		dots := run(*progress.NewSpinner("dots"), 40)
		for i := range vs {
			zzsym.Assert(vs[i] == dots[i], "unknown styles are dots")
		}
	}
	zzsym.Cover("end")
}

func main() {
	zzsym.Main(map[string]func(){
		"Percent": Percent,
		"Bar":     Bar,
		"Custom":  Custom,
		"Styles":  Styles,
	})
}
