// The program's event loop, life cycle and suspension.
package main

import (
	"errors"
	"io"
	"os"
	"time"

	tea "ZM"
	"ZZ/zzsym"

	"github.com/phoenix-tui/phoenix/terminal"
)

// tty is a terminal that keeps its modes.
type tty struct {
	terminal.Terminal
	raw, alt, hidden bool
	failRaw, failAlt bool // entering fails
	failExitRaw      bool
	failExitAlt      bool
}

var errTTY = errors.New("tty")

func (t *tty) EnterRawMode() error {
	if t.failRaw {
		return errTTY
	}
	t.raw = true
	return nil
}

func (t *tty) ExitRawMode() error {
	if t.failExitRaw {
		return errTTY
	}
	t.raw = false
	return nil
}

func (t *tty) EnterAltScreen() error {
	if t.failAlt {
		return errTTY
	}
	t.alt = true
	return nil
}

func (t *tty) ExitAltScreen() error {
	if t.failExitAlt {
		return errTTY
	}
	t.alt = false
	return nil
}

func (t *tty) IsInRawMode() bool   { return t.raw }
func (t *tty) IsInAltScreen() bool { return t.alt }
func (t *tty) HideCursor() error   { t.hidden = true; return nil }
func (t *tty) ShowCursor() error   { t.hidden = false; return nil }

func (t *tty) cooked() bool { return !t.raw && !t.alt && !t.hidden }

// screen is the output; while it is not ours nothing may be written.
type screen struct {
	foreign bool
	last    string
	n       int
}

func (s *screen) Write(p []byte) (int, error) {
	zzsym.Assert(!s.foreign, "something is drawn while the program is suspended or over")
	s.last = string(p)
	s.n++
	return len(p), nil
}

// keys is the input: some keys, then nothing.
type keys struct {
	data []byte
	grab func()
}

var never = make(chan struct{})

func (k *keys) Read(p []byte) (int, error) {
	if len(k.data) == 0 {
		<-never
		return 0, io.EOF
	}
	n := copy(p, k.data)
	k.data = k.data[n:]
	return n, nil
}

type num struct{ from, i int }

// rec is what happened.
type rec struct {
	msgs   []tea.Msg
	busy   bool
	over   bool
	views  int
	want   int // a view is due
	panics int
	hidden bool // suspended
}

type app struct {
	r      *rec
	n      int
	init   tea.Cmd
	update func(a app, m tea.Msg) tea.Cmd
}

func (a app) Init() tea.Cmd {
	if a.r.panics == 1 {
		panic("init")
	}
	return a.init
}

func (a app) Update(m tea.Msg) (app, tea.Cmd) {
	r := a.r
	zzsym.Assert(!r.busy, "Update runs twice at once")
	zzsym.Assert(!r.over, "Update after the end")
	zzsym.Assert(a.n == len(r.msgs), "Update runs on an old model")
	zzsym.Assert(r.want == 0 || r.hidden, "no view between two updates")
	r.busy = true
	r.msgs = append(r.msgs, m)
	a.n++
	r.want = 1
	var c tea.Cmd
	if r.panics == 2 {
		r.busy = false
		panic("update")
	}
	if a.update != nil {
		c = a.update(a, m)
	}
	r.busy = false
	return a, c
}

func (a app) View() string {
	if a.r.panics == 3 && a.n > 0 {
		panic("view")
	}
	a.r.views++
	a.r.want = 0
	return "v" + string(rune('0'+a.n))
}

func msg(from, i int) tea.Cmd {
	return func() tea.Msg { return num{from, i} }
}

// Deliver: what is sent arrives once and in order.
func Deliver() {
	r := &rec{}
	per := map[int]int{} // messages expected from each origin
	a := app{r: r}
	kind := zzsym.Choose(zzsym.Param("kinds", 6))
	switch kind {
	case 0:
		a.init = msg(1, 0)
		per[1] = 1
	case 1:
		a.init = tea.Batch(msg(1, 0), msg(2, 0))
		per[1], per[2] = 1, 1
	case 2:
		a.init = tea.Sequence(msg(1, 0), nil, msg(1, 1))
		per[1] = 2
	case 3:
		// a command from Update
		a.update = func(a app, m tea.Msg) tea.Cmd {
			if n, ok := m.(num); ok && n.from == 9 && n.i == 0 {
				return tea.Sequence(msg(1, 0), msg(1, 1))
			}
			return nil
		}
		per[1] = 2
	case 4:
		a.init = tea.Batch(msg(1, 0), tea.Sequence(msg(2, 0), msg(2, 1)), nil)
		per[1], per[2] = 1, 2
	}
	in := &keys{}
	if zzsym.Choose(2) == 1 {
		in.data = []byte("xy")
		per[7] = 2
	}
	out := &screen{}
	p := tea.New(a, tea.WithInput[app](in), tea.WithOutput[app](out), tea.WithTerminal[app](&tty{}))
	zzsym.Assert(p.Start() == nil, "Start")
	senders := zzsym.Param("senders", 1)
	sent := make(chan struct{}, 10)
	for s := 0; s < senders; s++ {
		per[9+s] = zzsym.Param("sends", 2)
		s := s
		go func() {
			for i := 0; i < zzsym.Param("sends", 2); i++ {
				zzsym.Assert(p.Send(num{9 + s, i}) == nil, "Send")
			}
			sent <- struct{}{}
		}()
	}
	for s := 0; s < senders; s++ {
		<-sent
	}
	total := 0
	for _, n := range per {
		total += n
	}
	// until everything is still
	time.Sleep(200 * time.Millisecond)
	p.Stop()
	r.over = true
	out.foreign = true
	zzsym.Assert(!p.IsRunning(), "running after Stop")
	zzsym.Assert(len(r.msgs) == total, "a message is lost or repeated")
	zzsym.Assert(r.want == 0, "the last update is not drawn")
	next := map[int]int{}
	for _, m := range r.msgs {
		from, i := 7, 0
		if k, ok := m.(tea.KeyMsg); ok {
			zzsym.Assert(k.Type == tea.KeyRune && (k.Rune == 'x' || k.Rune == 'y'), "the wrong key")
			i = int(k.Rune - 'x')
		} else {
			n, ok := m.(num)
			zzsym.Assert(ok, "an unknown message")
			from, i = n.from, n.i
		}
		zzsym.Assert(next[from] == i, "messages of one origin are reordered")
		next[from]++
	}
	zzsym.Cover("end")
}

// Big: a batch or sequence of any size.
func Big() {
	r := &rec{}
	lo := zzsym.Param("lo", 0)
	n := lo + zzsym.Choose(zzsym.Param("n", 4)-lo+1)
	at := n // a quit among them
	if zzsym.Choose(2) == 1 {
		at = zzsym.Choose(min(n, 3) + 1)
	}
	var cs []tea.Cmd
	for i := 0; i < n; i++ {
		if i == at {
			cs = append(cs, tea.Quit())
		}
		cs = append(cs, msg(1, i))
	}
	if at == n {
		cs = append(cs, tea.Quit())
	}
	a := app{r: r, init: tea.Sequence(cs...)}
	if zzsym.Choose(2) == 1 {
		// nested
		a.init = tea.Sequence(func() tea.Msg {
			var ms []tea.Msg
			for _, c := range cs[1:] {
				ms = append(ms, c())
			}
			return tea.SequenceMsg{Messages: []tea.Msg{cs[0](), tea.BatchMsg{Messages: ms}}}
		})
	}
	p := tea.New(a, tea.WithInput[app](&keys{}), tea.WithOutput[app](&screen{}), tea.WithTerminal[app](&tty{}))
	zzsym.Assert(p.Run() == nil, "Run")
	zzsym.Assert(len(r.msgs) == at, "messages of a sequence before the quit")
	for i, m := range r.msgs {
		zzsym.Assert(m == tea.Msg(num{1, i}), "a sequence is reordered")
	}
	zzsym.Assert(!p.IsRunning(), "running after Run")
	zzsym.Cover("end")
}

// Flood: more typed at once than the queue holds.
func Flood() {
	r := &rec{}
	n := zzsym.Param("n", 103)
	in := &keys{}
	for i := 0; i < n; i++ {
		in.data = append(in.data, byte('a'+i%26))
	}
	gate := make(chan struct{})
	a := app{r: r}
	a.update = func(a app, m tea.Msg) tea.Cmd {
		if a.n == 1 {
			<-gate
		}
		return nil
	}
	p := tea.New(a, tea.WithInput[app](in), tea.WithOutput[app](&screen{}), tea.WithTerminal[app](&tty{}))
	zzsym.Assert(p.Start() == nil, "Start")
	time.Sleep(200 * time.Millisecond)
	close(gate)
	time.Sleep(200 * time.Millisecond)
	p.Stop()
	zzsym.Assert(len(r.msgs) == n, "a key is lost or repeated")
	for i, m := range r.msgs {
		k, ok := m.(tea.KeyMsg)
		zzsym.Assert(ok && k.Rune == rune('a'+i%26), "the wrong key")
	}
	zzsym.Cover("end")
}

// Convert: a message's content passes unchanged.
func Convert() {
	var m tea.Msg
	switch zzsym.Choose(6) {
	case 0:
		m = tea.KeyMsg{Type: tea.KeyType(zzsym.Int(0, 40)), Rune: rune(zzsym.Int(0, 0x10ffff)), Alt: zzsym.Bool(), Ctrl: zzsym.Bool(), Shift: zzsym.Bool()}
	case 1:
		m = tea.MouseMsg{X: zzsym.Int(-1<<40, 1<<40), Y: zzsym.Int(-1<<40, 1<<40), Button: tea.MouseButton(zzsym.Int(0, 9)), Action: tea.MouseAction(zzsym.Int(0, 4)), Alt: zzsym.Bool(), Ctrl: zzsym.Bool(), Shift: zzsym.Bool()}
	case 2:
		m = tea.WindowSizeMsg{Width: zzsym.Int(-1<<40, 1<<40), Height: zzsym.Int(-1<<40, 1<<40)}
	case 3:
		m = tea.PrintlnMsg{Message: zzsym.Str(zzsym.Choose(3))}
	case 4:
		m = tea.TickMsg{Time: time.Unix(int64(zzsym.Int(0, 1<<40)), 0)}
	case 5:
		m = num{zzsym.Int(-1<<40, 1<<40), zzsym.Int(0, 9)}
	}
	r := &rec{}
	a := app{r: r}
	n := 1
	cmd := func() tea.Msg { return m }
	how := zzsym.Choose(5)
	switch how {
	case 1:
		a.init = cmd
	case 2:
		a.init = tea.Batch(cmd, cmd)
		n = 2
	case 3:
		a.init = tea.Sequence(cmd, cmd)
		n = 2
	case 4:
		a.update = func(a app, x tea.Msg) tea.Cmd {
			if a.n == 1 {
				return cmd
			}
			return nil
		}
		n = 2
	}
	p := tea.New(a, tea.WithInput[app](&keys{}), tea.WithOutput[app](&screen{}), tea.WithTerminal[app](&tty{}))
	zzsym.Assert(p.Start() == nil, "Start")
	if how == 0 || how == 4 {
		zzsym.Assert(p.Send(m) == nil, "Send")
	}
	time.Sleep(200 * time.Millisecond)
	p.Stop()
	zzsym.Assert(len(r.msgs) == n, "a message is lost or repeated")
	for _, x := range r.msgs {
		zzsym.Assert(x == m, "a message's content changes on the way")
	}
	zzsym.Cover("end")
}

// End: every way to end, the terminal is as before and a new run is possible.
func End() {
	r := &rec{}
	t := &tty{failRaw: zzsym.Choose(2) == 1, failAlt: zzsym.Choose(2) == 1}
	out := &screen{}
	a := app{r: r}
	opts := []tea.Option[app]{tea.WithInput[app](&keys{}), tea.WithOutput[app](out), tea.WithTerminal[app](t)}
	alt := zzsym.Choose(2) == 1
	if alt {
		opts = append(opts, tea.WithAltScreen[app]())
	}
	gate := make(chan struct{}, 1)
	a.update = func(a app, m tea.Msg) tea.Cmd {
		if n, ok := m.(num); ok && n.i == 5 {
			<-gate
		}
		zzsym.Assert(alt && t.failAlt || t.raw != t.failRaw, "raw mode while running")
		zzsym.Assert(t.alt == (alt && !t.failAlt), "alternate screen while running")
		return nil
	}
	background := zzsym.Choose(2) == 1
	how := zzsym.Choose(9)
	switch how {
	case 0:
		a.init = tea.Quit()
	case 1, 2, 3:
		if background {
			zzsym.Assume(false)
		}
		r.panics = how
		a.init = msg(1, 0)
	case 4, 5, 6, 7, 8:
		if !background {
			zzsym.Assume(false)
		}
	}
	late := make(chan struct{}, 2)
	if how == 8 {
		// a command that outlives the run
		runs := 0
		a.init = func() tea.Msg {
			runs++
			me := runs
			<-late
			return num{4, me}
		}
	}
	p := tea.New(a, opts...)
	if background {
		zzsym.Assert(p.Start() == nil, "Start")
		if how != 0 && !(alt && t.failAlt) {
			zzsym.Assert(p.Start() != nil && p.Run() != nil, "a second Start")
		}
	} else {
		err := func() (err error) {
			defer func() {
				if x := recover(); x != nil {
					err = errors.New("panic")
				}
			}()
			return p.Run()
		}()
		bad := alt && t.failAlt || how >= 1 && how <= 3
		zzsym.Assert((err != nil) == bad, "Run's result")
	}
	switch how {
	case 0:
		if background {
			time.Sleep(200 * time.Millisecond)
		}
	case 4:
		p.Stop()
	case 8:
		time.Sleep(200 * time.Millisecond)
		p.Stop()
	case 5:
		// Stop while an update is busy
		_ = p.Send(num{1, 5})
		go func() { gate <- struct{}{} }()
		p.Stop()
	case 7:
		// several at once, while an update is busy
		_ = p.Send(num{1, 5})
		go p.Stop()
		go p.Stop()
		time.Sleep(200 * time.Millisecond)
		gate <- struct{}{}
		p.Stop()
	case 6:
		_ = p.Send(tea.QuitMsg{})
		_ = p.Send(num{2, 0})
		time.Sleep(200 * time.Millisecond)
	}
	zzsym.Assert(!p.IsRunning(), "still running")
	zzsym.Assert(t.cooked(), "the terminal is not restored")
	zzsym.Assert(p.Send(num{1, 1}) != nil, "Send to a program that is over")
	for _, m := range r.msgs {
		zzsym.Assert(m != tea.Msg(num{2, 0}), "a message after the quit is handled")
	}
	p.Stop()
	zzsym.Cover("end")
	if how >= 1 && how <= 3 || alt && t.failAlt || zzsym.Param("again", 1) == 0 {
		return
	}
	// again
	n := len(r.msgs)
	if !background && how == 0 {
		zzsym.Assert(p.Run() == nil, "a second Run")
		zzsym.Assert(len(r.msgs) == n, "a message of the run before")
	} else {
		zzsym.Assert(p.Start() == nil, "a second Start")
		if how == 8 {
			time.Sleep(200 * time.Millisecond)
		}
		if how == 0 {
			time.Sleep(200 * time.Millisecond)
		} else if how == 8 {
			late <- struct{}{}
			late <- struct{}{}
			time.Sleep(200 * time.Millisecond)
			zzsym.Assert(len(r.msgs) == n+1 && r.msgs[n] == tea.Msg(num{4, 2}), "a command's message reaches another run")
			p.Stop()
		} else {
			// messages may be left over only if the loop was stopped; they
			// must not show up now
			zzsym.Assert(p.Send(num{3, 3}) == nil, "Send to a second run")
			time.Sleep(200 * time.Millisecond)
			zzsym.Assert(len(r.msgs) == n+1 && r.msgs[n] == tea.Msg(num{3, 3}), "the second run's messages")
			p.Stop()
		}
	}
	zzsym.Assert(!p.IsRunning(), "still running")
	zzsym.Assert(t.cooked(), "the terminal is not restored")
	zzsym.Cover("again")
}

// Suspension: any history of Suspend, Resume, messages and the end.
func Suspension() {
	r := &rec{}
	t := &tty{failRaw: zzsym.Choose(2) == 1}
	noRaw := t.failRaw
	out := &screen{}
	opts := []tea.Option[app]{tea.WithInput[app](&keys{}), tea.WithOutput[app](out), tea.WithTerminal[app](t)}
	alt := zzsym.Choose(2) == 1
	if alt {
		opts = append(opts, tea.WithAltScreen[app]())
	}
	p := tea.New(app{r: r}, opts...)
	zzsym.Assert(p.Start() == nil, "Start")
	time.Sleep(200 * time.Millisecond)
	sus := false
	n := 0
	for i := 0; i < zzsym.Param("ops", 3); i++ {
		switch zzsym.Choose(5) {
		case 0:
			err := p.Suspend()
			zzsym.Assert(err == nil, "Suspend")
			out.foreign = true
			sus = true
			r.hidden = true
			zzsym.Assert(p.IsSuspended() && t.cooked(), "the terminal is not released")
		case 1:
			out.foreign, r.hidden = false, false
			before := out.n
			err := p.Resume()
			zzsym.Assert(err == nil, "Resume")
			if sus {
				zzsym.Assert(out.n > before, "Resume does not redraw")
				c := string(rune('0' + n))
				found := false
				for _, x := range out.last {
					if string(x) == c {
						found = true
					}
				}
				zzsym.Assert(found, "Resume draws an old view")
			}
			sus = false
			zzsym.Assert(!p.IsSuspended() && t.raw == !noRaw && t.alt == alt, "the terminal is not taken back as it was")
		case 2:
			zzsym.Assert(p.Send(num{1, n}) == nil, "Send")
			n++
			time.Sleep(200 * time.Millisecond)
			zzsym.Assert(len(r.msgs) == n, "a message is not handled")
		case 3:
			// a failing Suspend changes nothing
			t.failExitRaw, t.failExitAlt = t.raw, !t.raw
			if zzsym.Choose(2) == 1 {
				t.failExitRaw, t.failExitAlt = false, true
			}
			was := *t
			err := p.Suspend()
			if sus || !t.raw && !t.alt || !t.alt && !t.failExitRaw {
				zzsym.Assert(err == nil, "Suspend fails without a reason")
				if !sus {
					out.foreign = true
				}
				sus = true
				r.hidden = true
			} else {
				zzsym.Assert(err != nil, "Suspend hides a failure")
				zzsym.Assert(t.raw == was.raw && t.alt == was.alt && !p.IsSuspended(), "a failed Suspend changes the terminal")
			}
			t.failExitRaw, t.failExitAlt = false, false
		case 4:
			// a failing Resume can be repeated
			if !sus || noRaw && !alt {
				zzsym.Assume(false)
			}
			if noRaw {
				t.failAlt = true
			} else {
				t.failRaw = true
			}
			err := p.Resume()
			zzsym.Assert(err != nil && p.IsSuspended(), "Resume hides a failure")
			t.failAlt, t.failRaw = false, noRaw
			out.foreign, r.hidden = false, false
			zzsym.Assert(p.Resume() == nil, "Resume after a failed one")
			sus = false
			zzsym.Assert(!p.IsSuspended() && t.raw == !noRaw && t.alt == alt, "the terminal is not taken back as it was")
		}
	}
	p.Stop()
	out.foreign = true
	zzsym.Assert(!p.IsRunning() && t.cooked(), "the terminal is not restored")
	if sus {
		zzsym.Assert(p.Resume() == nil, "Resume after the end")
		zzsym.Assert(t.cooked(), "Resume after the end takes the terminal")
		zzsym.Cover("late resume")
	}
	zzsym.Cover("end")
}

// Input: what is typed while the program is suspended is left to others.
func Input() {
	r := &rec{}
	out := &screen{}
	t := &tty{}
	rd, w, err := os.Pipe()
	zzsym.Assert(err == nil, "pipe")
	p := tea.New(app{r: r}, tea.WithInput[app](rd), tea.WithOutput[app](out), tea.WithTerminal[app](t))
	zzsym.Assert(p.Start() == nil, "Start")
	lean := zzsym.Param("lean", 0) == 1
	var want []byte
	typed := func() {
		b := byte(zzsym.Int('a', 'z'))
		w.Write([]byte{b})
		want = append(want, b)
		time.Sleep(200 * time.Millisecond)
	}
	check := func() {
		zzsym.Assert(len(r.msgs) == len(want), "a key is lost or repeated")
		for i, m := range r.msgs {
			k, ok := m.(tea.KeyMsg)
			zzsym.Assert(ok && k.Type == tea.KeyRune && k.Rune == rune(want[i]), "the wrong key")
		}
	}
	for i := 0; i < zzsym.Param("rounds", 2); i++ {
		if !lean {
			if zzsym.Choose(2) == 1 {
				// a Suspend that fails takes nothing away
				t.failExitRaw = true
				_ = p.Suspend()
				t.failExitRaw = false
			}
			if zzsym.Choose(2) == 1 {
				typed()
				check()
			}
		}
		zzsym.Assert(p.Suspend() == nil, "Suspend")
		check()
		if lean && i > 0 || !lean && zzsym.Choose(2) == 1 {
			b := zzsym.Byte()
			w.Write([]byte{b})
			if !lean && zzsym.Choose(2) == 1 {
				time.Sleep(200 * time.Millisecond)
			}
			buf := make([]byte, 4)
			n, err := rd.Read(buf)
			zzsym.Assert(err == nil && n == 1 && buf[0] == b, "input of the suspended time is taken away")
		}
		zzsym.Assert(p.Resume() == nil, "Resume")
	}
	typed()
	check()
	p.Stop()
	b := zzsym.Byte()
	w.Write([]byte{b})
	time.Sleep(200 * time.Millisecond)
	buf := make([]byte, 4)
	n, err := rd.Read(buf)
	zzsym.Assert(err == nil && n == 1 && buf[0] == b, "input after the end is taken away")
	zzsym.Cover("end")
}

// Concurrent: Suspend and Resume from several goroutines while messages come.
func Concurrent() {
	r := &rec{}
	t := &tty{}
	out := &screen{}
	opts := []tea.Option[app]{tea.WithInput[app](&keys{}), tea.WithOutput[app](out), tea.WithTerminal[app](t)}
	alt := zzsym.Param("alt", 1) == 1
	if alt {
		opts = append(opts, tea.WithAltScreen[app]())
	}
	p := tea.New(app{r: r}, opts...)
	zzsym.Assert(p.Start() == nil, "Start")
	time.Sleep(200 * time.Millisecond)
	done := make(chan struct{}, 3)
	kind := zzsym.Choose(3)
	go func() {
		zzsym.Assert(p.Suspend() == nil, "Suspend")
		if kind != 1 {
			zzsym.Assert(p.Resume() == nil, "Resume")
		}
		done <- struct{}{}
	}()
	go func() {
		if kind != 2 {
			zzsym.Assert(p.Suspend() == nil, "Suspend")
		} else {
			zzsym.Assert(p.Send(num{1, 0}) == nil, "Send")
		}
		done <- struct{}{}
	}()
	<-done
	<-done
	if kind != 2 && p.IsSuspended() {
		zzsym.Assert(t.cooked(), "the terminal is not released")
		out.foreign = true
		r.hidden = true
		if zzsym.Choose(2) == 1 {
			zzsym.Assert(p.Send(num{1, 0}) == nil, "Send")
			time.Sleep(200 * time.Millisecond)
		}
		out.foreign, r.hidden = false, false
	}
	zzsym.Assert(p.Resume() == nil, "Resume")
	zzsym.Assert(!p.IsSuspended() && t.raw && t.alt == alt, "the terminal is not taken back as it was")
	p.Stop()
	zzsym.Assert(!p.IsRunning() && t.cooked(), "the terminal is not restored")
	zzsym.Cover("end")
}

func main() {
	zzsym.Main(map[string]func(){"Deliver": Deliver, "Big": Big, "End": End, "Suspension": Suspension, "Concurrent": Concurrent, "Convert": Convert, "Input": Input, "Flood": Flood})
}
