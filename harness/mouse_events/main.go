// Checks on mouse: parsing of reports, clicks, drags, hovering, menus.
package main

import (
	"os"
	"strings"
	"time"

	mouse "ZM"
	"ZM/internal/application"
	"ZM/internal/domain/model"
	"ZM/internal/infrastructure/parser"
	"ZZ/zzsym"
)

const big = 1 << 40

// digits returns a decimal number of 1..n digits without leading zeros.
func digits(n int) (string, int) {
	k := 1 + zzsym.Choose(n)
	b := make([]byte, k)
	v := 0
	for i := range b {
		lo := 0
		if i == 0 {
			lo = 1
		}
		d := zzsym.Int(lo, 9)
		b[i] = byte('0' + d)
		v = v*10 + d
	}
	return string(b), v
}

func itoa(n int) string {
	if n < 10 {
		return string(byte('0' + n))
	}
	return itoa(n/10) + string(byte('0'+n%10))
}

// code returns the code of a button with modifiers.
func code(motion bool) (int, mouse.Button, mouse.Modifiers, bool) {
	base := []int{0, 1, 2, 64, 65, 32, 33, 34, 35}
	btn := []mouse.Button{mouse.ButtonLeft, mouse.ButtonMiddle, mouse.ButtonRight, mouse.ButtonWheelUp, mouse.ButtonWheelDown, mouse.ButtonNone, mouse.ButtonNone, mouse.ButtonNone, mouse.ButtonNone}
	n := 5
	if motion {
		n = len(base)
	}
	i := zzsym.Choose(n)
	m := zzsym.Choose(8)
	return base[i] + m*4, btn[i], mouse.NewModifiers(m&1 != 0, m&4 != 0, m&2 != 0), i >= 5
}

func same(e mouse.MouseEvent, t mouse.EventType, b mouse.Button, x, y int, m mouse.Modifiers) bool {
	return e.Type() == t && e.Button() == b && e.Position().X() == x && e.Position().Y() == y && e.Modifiers() == m
}

func check(evs []mouse.MouseEvent, press, motion bool, b mouse.Button, x, y int, m mouse.Modifiers) {
	switch {
	case b.IsWheel():
		zzsym.Assert(len(evs) == 1 && same(evs[0], mouse.EventScroll, b, x, y, m), "a wheel report is not one scroll event with its button, place and modifiers")
	case motion:
		zzsym.Assert(len(evs) == 1 && same(evs[0], mouse.EventMotion, b, x, y, m), "a motion report is not one motion event with its place and modifiers")
	case press:
		zzsym.Assert(len(evs) == 1 && same(evs[0], mouse.EventPress, b, x, y, m), "a press report is not one press event with its button, place and modifiers")
	default:
		zzsym.Assert(len(evs) == 2 && same(evs[0], mouse.EventClick, b, x, y, m) && same(evs[1], mouse.EventRelease, b, x, y, m), "a release report is not a click and a release with its button, place and modifiers")
	}
}

func prefix() string { return []string{"\x1b[", "[", ""}[zzsym.Choose(3)] }

func Sgr() {
	c, b, m, mo := code(true)
	xs, x := digits(zzsym.Param("digits", 4))
	ys, y := digits(zzsym.Param("digits", 4))
	press := zzsym.Bool()
	end := "m"
	if press {
		end = "M"
	}
	evs, err := mouse.New().ParseSequence(prefix() + "<" + itoa(c) + ";" + xs + ";" + ys + end)
	zzsym.Assert(err == nil, "a well-formed SGR report is rejected")
	check(evs, press, mo, b, x-1, y-1, m)
	zzsym.Cover("end")
}

func Urxvt() {
	c, b, m, _ := code(false)
	xs, x := digits(zzsym.Param("digits", 4))
	ys, y := digits(zzsym.Param("digits", 4))
	evs, err := mouse.New().ParseSequence(prefix() + itoa(c) + ";" + xs + ";" + ys + "M")
	zzsym.Assert(err == nil, "a well-formed urxvt report is rejected")
	check(evs, true, false, b, x-1, y-1, m)
	zzsym.Cover("end")
}

func X10() {
	c, b, m, _ := code(false)
	x, y := zzsym.Int(0, 222), zzsym.Int(0, 222)
	evs, err := mouse.New().ParseSequence(prefix() + "M" + string([]byte{byte(32 + c), byte(33 + x), byte(33 + y)}))
	zzsym.Assert(err == nil, "a well-formed X10 report is rejected")
	check(evs, true, false, b, x, y, m)
	zzsym.Cover("end")
}

// A malformed report is an error and changes nothing.
func Malformed() {
	ms := mouse.New()
	f := make([]string, zzsym.Choose(5))
	for i := range f {
		f[i], _ = digits(2)
	}
	good := len(f) == 3
	if len(f) > 0 && zzsym.Bool() {
		bad := zzsym.Byte()
		zzsym.Assume((bad < '0' || bad > '9') && bad != ';' && bad != '+' && bad != '-' && bad != 'M' && bad != 'm')
		i := zzsym.Choose(len(f))
		switch zzsym.Choose(3) {
		case 0:
			f[i] = ""
		case 1:
			f[i] += string([]byte{bad})
		case 2:
			f[i] = f[i][:1] + string([]byte{bad}) + f[i][1:]
		}
		good = false
	}
	if good {
		return
	}
	s := strings.Join(f, ";")
	switch zzsym.Choose(4) {
	case 0:
		s = "\x1b[<" + s + "M"
	case 1:
		s = "\x1b[<" + s + "m"
	case 2:
		if len(f) == 0 {
			return
		}
		s = "\x1b[" + s + "M"
		zzsym.Assume(s[2] != 'M' && s[2] != '<')
	case 3: // X10 of a wrong length
		n := zzsym.Choose(6)
		if n == 3 {
			return
		}
		s = "\x1b[M" + zzsym.Str(n)
	}
	evs, err := ms.ParseSequence(s)
	zzsym.Assert(err != nil && len(evs) == 0, "a malformed report is accepted")
	evs, err = ms.ParseSequence("\x1b[<0;5;6m")
	zzsym.Assert(err == nil, "a report after a malformed one is rejected")
	check(evs, false, false, mouse.ButtonLeft, 4, 5, mouse.ModifierNone)
	zzsym.Cover("end")
}

// What the parsers format, they parse back.
func RoundTrip() {
	bs := []mouse.Button{mouse.ButtonLeft, mouse.ButtonMiddle, mouse.ButtonRight, mouse.ButtonWheelUp, mouse.ButtonWheelDown, mouse.ButtonNone}
	i := zzsym.Choose(len(bs))
	m := zzsym.Choose(8)
	mods := mouse.NewModifiers(m&1 != 0, m&2 != 0, m&4 != 0)
	x, y := zzsym.Int(0, 222), zzsym.Int(0, 222)
	ev := model.NewMouseEvent(mouse.EventPress, bs[i], mouse.NewPosition(x, y), mods)
	s := ""
	press := true
	switch zzsym.Choose(3) {
	case 0:
		press = zzsym.Bool()
		s = parser.NewSGRParser().FormatSequence(ev, press)
		evs, err := mouse.New().ParseSequence(s)
		zzsym.Assert(err == nil, "SGR: what is formatted does not parse")
		check(evs, press, bs[i] == mouse.ButtonNone, bs[i], x, y, mods)
	case 1:
		s = parser.NewX10Parser().FormatSequence(ev)
		evs, err := mouse.New().ParseSequence(s)
		zzsym.Assert(err == nil, "X10: what is formatted does not parse")
		check(evs, true, false, bs[i], x, y, mods)
	case 2:
		s = parser.NewURxvtParser().FormatSequence(ev)
		evs, err := mouse.New().ParseSequence(s)
		zzsym.Assert(err == nil, "urxvt: what is formatted does not parse")
		check(evs, true, false, bs[i], x, y, mods)
	}
	zzsym.Cover("end")
}

func abs(a int) int {
	if a < 0 {
		return -a
	}
	return a
}

func dist(a, b mouse.Position) int { return abs(a.X()-b.X()) + abs(a.Y()-b.Y()) }

var btns = []mouse.Button{mouse.ButtonLeft, mouse.ButtonMiddle, mouse.ButtonRight}

// Sequences of presses, releases, motions and scrolls at any place and time.
func Gestures() {
	n := zzsym.Param("n", 4)
	R := zzsym.Param("range", 1<<30)
	p := application.NewEventProcessor()
	sec, lsec, lns := 0, 0, 0
	// the oracle's state
	down := false
	var start mouse.Position
	var dbtn mouse.Button
	var dmods mouse.Modifiers
	dragging := false
	count := 0
	var lpos mouse.Position
	var lbtn mouse.Button
	ltime := 0
	for i := 0; i < n; i++ {
		var ns int
		var pos mouse.Position
		if zzsym.Param("times", 0) == 1 { // any time, a few places
			sec += zzsym.Choose(2)
			ns = zzsym.Int(0, 999_999_999)
			zzsym.Assume(sec > lsec || ns >= lns)
			pos = mouse.NewPosition(4+zzsym.Choose(3), 7)
		} else { // any place, a few times
			ns = lns + []int{0, 500_000_000, 500_000_001}[zzsym.Choose(3)]
			if ns >= 1_000_000_000 {
				sec, ns = sec+1, ns-1_000_000_000
			}
			pos = mouse.NewPosition(zzsym.Int(-R, R), zzsym.Int(-R, R))
		}
		lsec, lns = sec, ns
		now := sec*1_000_000_000 + ns
		ts := time.Unix(int64(1700000000+sec), int64(ns))
		mods := mouse.Modifiers(zzsym.Pick(8) << 1)
		b := btns[zzsym.Pick(3)]
		kind := zzsym.Choose(zzsym.Param("kinds", 5))
		var evs []mouse.MouseEvent
		switch kind {
		case 0: // press
			evs = p.ProcessEvent(model.NewMouseEventWithTimestamp(mouse.EventPress, b, pos, mods, ts))
			zzsym.Assert(len(evs) == 1 && same(evs[0], mouse.EventPress, b, pos.X(), pos.Y(), mods), "a press is not passed on as it is")
			down, start, dbtn, dmods, dragging = true, pos, b, mods, false
		case 1: // release
			evs = p.ProcessEvent(model.NewMouseEventWithTimestamp(mouse.EventRelease, b, pos, mods, ts))
			if dragging {
				zzsym.Assert(len(evs) == 1 && same(evs[0], mouse.EventRelease, b, pos.X(), pos.Y(), mods), "the end of a drag is not just a release")
			} else {
				if count > 0 && count < 3 && now-ltime <= 500_000_000 && dist(pos, lpos) <= 1 && b == lbtn {
					count++
				} else {
					count = 1
				}
				lpos, lbtn, ltime = pos, b, now
				want := []mouse.EventType{mouse.EventClick, mouse.EventDoubleClick, mouse.EventTripleClick}[count-1]
				zzsym.Assert(len(evs) == 2, "a release without a drag is not a click and a release")
				zzsym.Assert(same(evs[0], want, b, pos.X(), pos.Y(), mods), "single, double and triple clicks are told apart wrongly")
				zzsym.Assert(same(evs[1], mouse.EventRelease, b, pos.X(), pos.Y(), mods), "a release is not passed on as it is")
			}
			down, dragging = false, false
		case 2: // motion
			evs = p.ProcessEvent(model.NewMouseEventWithTimestamp(mouse.EventMotion, mouse.ButtonNone, pos, mods, ts))
			zzsym.Assert(len(evs) == 1, "a motion is not one event")
			if down {
				dragging = dist(start, pos) >= 2
			}
			if dragging {
				zzsym.Assert(same(evs[0], mouse.EventDrag, dbtn, pos.X(), pos.Y(), dmods), "a motion with a button held, two cells away, is not a drag of that button")
			} else {
				zzsym.Assert(same(evs[0], mouse.EventMotion, mouse.ButtonNone, pos.X(), pos.Y(), mods), "a motion that is no drag is not passed on as it is")
			}
		case 3: // scroll
			w := []mouse.Button{mouse.ButtonWheelUp, mouse.ButtonWheelDown}[zzsym.Pick(2)]
			evs = p.ProcessEvent(model.NewMouseEventWithTimestamp(mouse.EventScroll, w, pos, mods, ts))
			zzsym.Assert(len(evs) == 1 && same(evs[0], mouse.EventScroll, w, pos.X(), pos.Y(), mods), "a scroll is not passed on as it is")
			d := p.ScrollDelta(evs[0])
			zzsym.Assert((w == mouse.ButtonWheelUp) == (d == -3) && (w == mouse.ButtonWheelDown) == (d == 3), "a scroll is not three lines in its direction")
		case 4:
			p.Reset()
			down, dragging, count = false, false, 0
		}
		for _, e := range evs {
			zzsym.Assert(e.Timestamp().Equal(ts), "an event has another time than the report")
		}
		zzsym.Assert(p.IsDragging() == dragging, "IsDragging is not true exactly during a drag")
	}
	zzsym.Cover("end")
}

// Long series of clicks, each in or out of reach of the one before.
func Clicks() {
	p := application.NewEventProcessor()
	ts := time.Unix(1700000000, 0)
	x, bi, count := 10, 0, 0
	for i := 0; i < zzsym.Param("n", 6); i++ {
		in := i > 0
		switch zzsym.Choose(4) {
		case 0:
			ts = ts.Add(500 * time.Millisecond)
			x++
		case 1:
			ts = ts.Add(500*time.Millisecond + 1)
			in = false
		case 2:
			x += 2
			in = false
		case 3:
			bi = 1 - bi
			in = false
		}
		if in && count < 3 {
			count++
		} else {
			count = 1
		}
		p.ProcessEvent(model.NewMouseEventWithTimestamp(mouse.EventPress, btns[bi], mouse.NewPosition(x, 3), mouse.ModifierNone, ts))
		evs := p.ProcessEvent(model.NewMouseEventWithTimestamp(mouse.EventRelease, btns[bi], mouse.NewPosition(x, 3), mouse.ModifierNone, ts))
		want := []mouse.EventType{mouse.EventClick, mouse.EventDoubleClick, mouse.EventTripleClick}[count-1]
		zzsym.Assert(len(evs) == 2 && same(evs[0], want, btns[bi], x, 3, mouse.ModifierNone), "single, double and triple clicks are told apart wrongly")
	}
	zzsym.Cover("end")
}

// The same through reports as a terminal sends them: press, move, release.
func Drag() {
	m := mouse.New()
	bi := zzsym.Choose(3)
	D := zzsym.Param("digits", 2)
	sx1, x1 := digits(D)
	sy1, y1 := digits(D)
	sx2, x2 := digits(D)
	sy2, y2 := digits(D)
	rep := func(c int, x, y string, end string) []mouse.MouseEvent {
		evs, err := m.ParseSequence("\x1b[<" + itoa(c) + ";" + x + ";" + y + end)
		zzsym.Assert(err == nil, "a report is rejected")
		return evs
	}
	rep(bi, sx1, sy1, "M")
	zzsym.Assert(!m.IsDragging(), "a press is a drag")
	evs := rep(32+bi, sx2, sy2, "M")
	d := abs(x1-x2)+abs(y1-y2) >= 2
	zzsym.Assert(len(evs) == 1 && m.IsDragging() == d, "moving with a button held: IsDragging is wrong")
	if d {
		zzsym.Assert(same(evs[0], mouse.EventDrag, btns[bi], x2-1, y2-1, mouse.ModifierNone), "moving two cells or more with a button held is not a drag")
	} else {
		zzsym.Assert(same(evs[0], mouse.EventMotion, mouse.ButtonNone, x2-1, y2-1, mouse.ModifierNone), "moving less than two cells with a button held is not a motion")
	}
	evs = rep(bi, sx2, sy2, "m")
	zzsym.Assert(!m.IsDragging(), "a drag outlives the release")
	if d {
		zzsym.Assert(len(evs) == 1 && same(evs[0], mouse.EventRelease, btns[bi], x2-1, y2-1, mouse.ModifierNone), "the end of a drag is not just a release")
	} else {
		check(evs, false, false, btns[bi], x2-1, y2-1, mouse.ModifierNone)
	}
	zzsym.Cover("end")
}

// Hovering over areas as the pointer moves.
func Hover() {
	m := mouse.New()
	R := zzsym.Param("range", 100)
	k := zzsym.Choose(zzsym.Param("areas", 3) + 1)
	areas := make([]mouse.ComponentArea, k)
	type box struct{ x, y, w, h int }
	bs := make([]box, k)
	ids := []string{"a", "b", "c", "d"}
	for i := range areas {
		b := box{zzsym.Int(-R, R), zzsym.Int(-R, R), zzsym.Int(-R, R), zzsym.Int(-R, R)}
		bs[i] = b
		id := ids[i]
		if i > 0 && zzsym.Bool() {
			id = ids[i-1] // two areas of one component
		}
		areas[i] = mouse.ComponentArea{ID: id, Area: mouse.NewBoundingBox(b.x, b.y, b.w, b.h)}
	}
	cur := ""
	for i := 0; i < zzsym.Param("moves", 3); i++ {
		if i > 0 && zzsym.Choose(8) == 0 {
			m.Reset()
			cur = ""
		}
		x, y := zzsym.Int(-R, R), zzsym.Int(-R, R)
		now := ""
		for j := range bs {
			if x >= bs[j].x && x-bs[j].x < bs[j].w && y >= bs[j].y && y-bs[j].y < bs[j].h {
				now = areas[j].ID
				break
			}
		}
		t := m.ProcessHover(mouse.NewPosition(x, y), areas)
		want := mouse.EventHoverMove
		switch {
		case now == "" && cur == "":
			want = mouse.EventMotion
		case now == "":
			want = mouse.EventHoverLeave
		case now != cur:
			want = mouse.EventHoverEnter
		}
		zzsym.Assert(t == want, "hover: enter, move, leave or motion is reported wrongly")
		cur = now
		zzsym.Assert(m.CurrentHoverComponent() == cur && m.IsHovering() == (cur != ""), "hover: not the first component under the pointer")
	}
	zzsym.Cover("end")
}

// A context menu is at the pointer or as near as it fits.
func Menu() {
	x, y := zzsym.Int(-big, big), zzsym.Int(-big, big)
	mw, mh, sw, sh := zzsym.Int(0, big), zzsym.Int(0, big), zzsym.Int(0, big), zzsym.Int(0, big)
	p := mouse.New().CalculateMenuPosition(mouse.NewPosition(x, y), mw, mh, sw, sh)
	zzsym.ObserveInt("x", p.X())
	zzsym.ObserveInt("y", p.Y())
	if mw > sw || mh > sh {
		zzsym.Assert(p.X() == 0 && p.Y() == 0, "menu: one that does not fit is not at the top left")
		return
	}
	zzsym.Assert(p.X() >= 0 && p.Y() >= 0 && p.X()+mw <= sw && p.Y()+mh <= sh, "menu: not fully on the screen")
	near := func(c, size, screen int) int {
		if c > screen-size {
			c = screen - size
		}
		if c < 0 {
			c = 0
		}
		return c
	}
	zzsym.Assert(p.X() == near(x, mw, sw) && p.Y() == near(y, mh, sh), "menu: not as near to the pointer as it fits")
	zzsym.Cover("end")
}

// Enabling and disabling in any order: tracking is on in the terminal exactly
// when IsEnabled says so.
func Modes() {
	r, w, err := os.Pipe()
	zzsym.Assert(err == nil, "pipe")
	os.Stdout = w
	m := mouse.New()
	on := false
	track, sgr := false, false
	for i := 0; i < zzsym.Param("n", 4); i++ {
		if zzsym.Bool() {
			zzsym.Assert(m.Enable() == nil, "Enable fails")
			on = true
		} else {
			zzsym.Assert(m.Disable() == nil, "Disable fails")
			on = false
		}
		zzsym.Assert(m.IsEnabled() == on, "IsEnabled")
		w.WriteString("!") // so that there is something to read
		out := ""
		for !strings.HasSuffix(out, "!") {
			buf := make([]byte, 256)
			k, _ := r.Read(buf)
			out += string(buf[:k])
		}
		out = out[:len(out)-1]
		for out != "" {
			j := strings.IndexAny(out, "hl")
			zzsym.Assert(j > 3 && strings.HasPrefix(out, "\x1b[?"), "not a mode sequence")
			set := out[j] == 'h'
			switch out[3:j] {
			case "1006":
				sgr = set
			case "1000", "1002", "1003":
				track = set
			default:
				zzsym.Assert(false, "another mode is touched")
			}
			out = out[j+1:]
		}
		zzsym.Assert(track == on && sgr == on, "mouse tracking in the terminal is not what IsEnabled says")
	}
	zzsym.Cover("end")
}

func main() {
	zzsym.Main(map[string]func(){"Sgr": Sgr, "Urxvt": Urxvt, "X10": X10, "Malformed": Malformed, "RoundTrip": RoundTrip, "Gestures": Gestures, "Drag": Drag, "Clicks": Clicks, "Hover": Hover, "Menu": Menu, "Modes": Modes})
}
