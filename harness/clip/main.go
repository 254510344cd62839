// Checks on clipboard: providers, history, OSC 52, rich text.
package main

import (
	"errors"
	"os"
	"strconv"
	"time"
	"unicode/utf16"
	"unicode/utf8"

	clipboard "ZM"
	"ZM/internal/domain/model"
	"ZM/internal/domain/service"
	"ZM/internal/domain/value"
	"ZM/internal/infrastructure/osc52"
	"ZZ/zzsym"
)

// fake is a provider that keeps what is written to it.
type fake struct {
	name   string
	up     bool
	broken bool
	data   []byte
	writes int
	reads  int
}

func (f *fake) Read() (*model.ClipboardContent, error) {
	f.reads++
	if f.broken {
		return nil, errors.New("broken")
	}
	return model.NewTextContent(string(f.data))
}

func (f *fake) Write(c *model.ClipboardContent) error {
	f.writes++
	if f.broken {
		return errors.New("broken")
	}
	f.data = c.Data()
	return nil
}
func (f *fake) IsAvailable() bool { return f.up }
func (f *fake) Name() string      { return f.name }

func build(ps ...*fake) *clipboard.Clipboard {
	b := clipboard.NewBuilder().WithOSC52(false).WithNative(false)
	for _, p := range ps {
		b = b.WithProvider(p)
	}
	c, err := b.Build()
	zzsym.Assert(err == nil && c != nil, "a clipboard with providers is built")
	return c
}

// Providers: the first available provider is the one used, for every call.
func Providers() {
	if c, err := clipboard.NewBuilder().WithOSC52(false).WithNative(false).Build(); err == nil || c != nil {
		zzsym.Assert(false, "a clipboard without providers is an error")
	}
	n := 1 + zzsym.Choose(zzsym.Param("n", 3))
	ps := make([]*fake, n)
	for i := range ps {
		ps[i] = &fake{name: string(byte('A' + i)), up: zzsym.Bool(), broken: zzsym.Bool()}
	}
	c := build(ps...)
	hist := zzsym.Bool()
	if hist {
		c.EnableHistory(0, 0)
	}
	kept := 0
	for k := 0; k < zzsym.Param("calls", 3); k++ {
		if zzsym.Bool() {
			i := zzsym.Choose(n)
			ps[i].up = !ps[i].up
		}
		var p *fake
		for i := range ps {
			if ps[i].up {
				p = ps[i]
				break
			}
		}
		zzsym.Assert(c.IsAvailable() == (p != nil), "the clipboard is available when a provider is")
		name := "none"
		if p != nil {
			name = p.name
		}
		zzsym.Assert(c.GetProviderName() == name, "the name is the first available provider's")
		var w, r int
		for i := range ps {
			w, r = w+ps[i].writes, r+ps[i].reads
		}
		text := string(zzsym.Bytes(zzsym.Choose(zzsym.Param("len", 3))))
		var err error
		switch zzsym.Choose(4) {
		case 0:
			err = c.Write(text)
		case 1:
			err = c.WriteHTML(text)
		case 2:
			err = c.WriteRTF(text)
		case 3:
			var before []byte
			if p != nil {
				before = p.data
			}
			var got string
			switch zzsym.Choose(3) {
			case 0:
				got, err = c.Read()
			case 1:
				got, err = c.ReadHTML()
			case 2:
				got, err = c.ReadRTF()
			}
			if p == nil || p.broken || len(before) == 0 {
				zzsym.Assert(err != nil && got == "", "reading from no provider, a failing one or nothing is an error")
			} else {
				zzsym.Assert(err == nil && got == string(before), "what was written is read")
			}
			continue
		}
		if p == nil || p.broken || text == "" {
			zzsym.Assert(err != nil, "writing to no provider, to a failing one or nothing is an error")
		} else {
			zzsym.Assert(err == nil, "a write to an available provider succeeds")
			zzsym.Assert(string(p.data) == text, "the bytes written are the text")
			if hist {
				kept++
			}
		}
		var w2, r2 int
		for i := range ps {
			w2, r2 = w2+ps[i].writes, r2+ps[i].reads
		}
		if p != nil && text != "" {
			w++
		}
		zzsym.Assert(w2 == w && r2 == r, "one provider is written to, once")
		zzsym.Assert(c.GetHistorySize() == kept, "successful writes are kept in the history, failed ones are not")
	}
	zzsym.Cover("end")
}

type item struct {
	text string
	mime string
	id   string
}

var mimes = []string{"text/plain", "text/html", "text/rtf"}

func write(c *clipboard.Clipboard, kind int, text string) error {
	switch kind {
	case 0:
		return c.Write(text)
	case 1:
		return c.WriteHTML(text)
	}
	return c.WriteRTF(text)
}

// checkHistory compares the history with want (oldest first).
func checkHistory(c *clipboard.Clipboard, want []item) {
	hs := c.GetHistory()
	zzsym.Assert(hs != nil && len(hs) == len(want) && c.GetHistorySize() == len(want), "the history has the entries written last")
	total := 0
	for i := range hs {
		w := &want[len(want)-1-i]
		zzsym.Assert(string(hs[i].Content) == w.text && hs[i].MIMEType == w.mime, "history, newest first, with the type written")
		zzsym.Assert(hs[i].Size == len(w.text), "the size of an entry is its content's")
		if w.id == "" {
			w.id = hs[i].ID
			for j := range want {
				zzsym.Assert(&want[j] == w || want[j].id != w.id, "entries have different IDs")
			}
		}
		zzsym.Assert(hs[i].ID == w.id && w.id != "", "the ID of an entry stays")
		total += len(w.text)
		if i > 0 {
			zzsym.Assert(!hs[i].Timestamp.After(hs[i-1].Timestamp), "times go with the order")
		}
		e, err := c.GetHistoryEntry(w.id)
		zzsym.Assert(err == nil && string(e.Content) == w.text && e.MIMEType == w.mime && e.ID == w.id, "an entry is found by its ID")
		// results are copies
		hs[i].Content[0] ^= 1
		e.Content[0] ^= 2
		e, _ = c.GetHistoryEntry(w.id)
		zzsym.Assert(string(e.Content) == w.text, "what is returned does not change the history")
	}
	zzsym.Assert(c.GetHistoryTotalSize() == total, "the total size is the sum of the sizes")
	_, err := c.GetHistoryEntry("no such")
	zzsym.Assert(err != nil, "an unknown ID is an error")
}

// History: every sequence of calls against a list.
func History() {
	p := &fake{name: "A", up: true}
	c := build(p)
	zzsym.Assert(!c.IsHistoryEnabled() && c.GetHistory() != nil && len(c.GetHistory()) == 0 && c.GetHistorySize() == 0 && c.RemoveExpiredHistory() == 0, "history is off at first")
	zzsym.Assert(c.Write("x") == nil && c.GetHistorySize() == 0, "no history while it is off")
	limits := []int{2, 0, 1, -1, 3, 1 << 62}
	limit := limits[zzsym.Choose(zzsym.Param("limits", len(limits)))]
	c.EnableHistory(limit, 0)
	on := true
	var want []item
	add := func(text, mime string) {
		if !on {
			return
		}
		want = append(want, item{text: text, mime: mime})
		if limit > 0 && len(want) > limit {
			want = append([]item(nil), want[len(want)-limit:]...)
		}
	}
	for k := 0; k < zzsym.Param("n", 3); k++ {
		zzsym.Assert(c.IsHistoryEnabled() == on, "IsHistoryEnabled")
		switch zzsym.Choose(7) {
		case 0, 1:
			text := "t" + string(zzsym.Byte())
			kind := zzsym.Choose(3)
			zzsym.Assert(write(c, kind, text) == nil, "write")
			add(text, mimes[kind])
		case 2:
			p.broken = true
			zzsym.Assert(c.Write("failed") != nil, "a failing provider is an error")
			p.broken = false
		case 3:
			c.ClearHistory()
			want = nil
		case 4:
			c.DisableHistory()
			on, want = false, nil
		case 5:
			c.EnableHistory(limit, 0)
			on, want = true, nil
		case 6:
			if len(want) == 0 {
				err := c.RestoreFromHistory("no such")
				zzsym.Assert(err != nil, "an unknown entry is not restored")
				break
			}
			w := want[zzsym.Choose(len(want))]
			zzsym.Assert(c.RestoreFromHistory(w.id) == nil, "restore")
			got, err := c.Read()
			zzsym.Assert(err == nil && got == w.text, "restoring an entry writes its text")
			add(w.text, w.mime)
		}
		checkHistory(c, want)
		zzsym.Assert(c.RemoveExpiredHistory() == 0, "nothing expires without a maximum age")
	}
	n := zzsym.Int(-2, 5)
	rs := c.GetRecentHistory(n)
	m := len(want)
	if n > 0 && n < m {
		m = n
	}
	zzsym.Assert(rs != nil && len(rs) == m, "as many recent entries as asked for")
	for i := range rs {
		zzsym.Assert(rs[i].ID == want[len(want)-1-i].id, "the most recent first")
	}
	zzsym.Cover("end")
}

// Expiry: an entry is expired exactly when it is older than the maximum age.
func Expiry() {
	age := time.Duration(zzsym.Int(-5, 5)) * time.Second
	max := time.Duration(zzsym.Int(-5, 5)) * time.Second
	// half seconds apart from the limit, as time goes on meanwhile
	e, err := model.NewHistoryEntryWithTime([]byte("x"), value.MIMETypePlainText, time.Now().Add(-age-500*time.Millisecond))
	zzsym.Assert(err == nil, "an entry is made")
	zzsym.Assert(e.IsExpired(max) == (max > 0 && age >= max), "an entry is expired when it is older than the maximum age")
	zzsym.Cover("end")
}

// Aging: expired entries are removed, in every history.
func Aging() {
	p := &fake{name: "A", up: true}
	c := build(p)
	unit := 300 * time.Millisecond
	max := zzsym.Choose(3) // in units, plus a half
	c.EnableHistory(0, time.Duration(max)*unit+unit/2)
	type aged struct {
		item
		born int
	}
	now := 0
	var want []aged
	for k := 0; k < zzsym.Param("n", 4); k++ {
		switch zzsym.Choose(3) {
		case 0:
			text := "t" + string(byte('0'+k))
			zzsym.Assert(c.Write(text) == nil, "write")
			want = append(want, aged{item{text: text, mime: mimes[0]}, now})
		case 1:
			time.Sleep(unit)
			now++
		case 2:
			var left []aged
			for _, w := range want {
				if now-w.born <= max {
					left = append(left, w)
				}
			}
			zzsym.Assert(c.RemoveExpiredHistory() == len(want)-len(left), "the expired entries are removed and counted")
			want = left
		}
		var l []item
		for _, w := range want {
			l = append(l, w.item)
		}
		checkHistory(c, l)
	}
	zzsym.Cover("end")
}

// Concurrent: writers and readers at once.
func Concurrent() {
	h := service.NewClipboardHistory(zzsym.Choose(3), 0)
	zzsym.Assert(h.Add([]byte("a"), value.MIMETypePlainText) == nil, "add")
	done := make(chan bool, 8)
	for i := 0; i < 2; i++ {
		t := string(byte('x' + i))
		go func() {
			zzsym.Assert(h.Add([]byte(t), value.MIMETypePlainText) == nil, "add")
			done <- true
		}()
	}
	which := zzsym.Choose(4)
	go func() {
		switch which {
		case 0:
			es := h.GetAll()
			zzsym.Assert(h.MaxSize() == 0 || len(es) <= h.MaxSize(), "the history is never over its limit")
			for _, e := range es {
				zzsym.Assert(len(e.Content()) == 1, "entries are whole")
			}
		case 1:
			h.Clear()
		case 2:
			h.SetMaxSize(1)
		case 3:
			h.RemoveExpired()
		}
		done <- true
	}()
	for i := 0; i < 3; i++ {
		<-done
	}
	n := 3
	if m := h.MaxSize(); m > 0 && m < n {
		n = m
	}
	es := h.GetAll()
	if which == 1 {
		zzsym.Assert(len(es) <= n, "no more than added")
	} else {
		zzsym.Assert(len(es) == n, "nothing added at the same time is lost")
	}
	for i := range es {
		for j := 0; j < i; j++ {
			zzsym.Assert(es[i].ID() != es[j].ID(), "no entry twice")
		}
	}
	if which == 1 && len(es) == 0 {
		zzsym.Assert(h.IsEmpty() && h.TotalSize() == 0, "empty")
	}
	zzsym.Cover("end")
}

const b64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"

func b64dec(c byte) int {
	switch {
	case c >= 'A' && c <= 'Z':
		return int(c - 'A')
	case c >= 'a' && c <= 'z':
		return int(c-'a') + 26
	case c >= '0' && c <= '9':
		return int(c-'0') + 52
	case c == '+':
		return 62
	case c == '/':
		return 63
	}
	return -1
}

// OSC52: a write is one OSC 52 sequence whose base64 decodes to the text.
func OSC52() {
	r, w, err := os.Pipe()
	zzsym.Assert(err == nil, "pipe")
	p := osc52.NewProvider(10 * time.Second).WithOutput(w)
	text := zzsym.Bytes(1 + zzsym.Choose(zzsym.Param("n", 4)))
	c, err := model.NewTextContent(string(text))
	zzsym.Assert(err == nil, "content")
	zzsym.Assert(p.Write(c) == nil, "an OSC 52 write to a terminal succeeds")
	w.Close()
	var out []byte
	buf := make([]byte, 256)
	for {
		n, err := r.Read(buf)
		out = append(out, buf[:n]...)
		if err != nil {
			break
		}
	}
	const pre, post = "\x1b]52;c;", "\x1b\\"
	zzsym.Assert(len(out) > len(pre)+len(post) && string(out[:len(pre)]) == pre && string(out[len(out)-len(post):]) == post, "one OSC 52 sequence for the clipboard")
	body := out[len(pre) : len(out)-len(post)]
	zzsym.Assert(len(body) == (len(text)+2)/3*4, "base64 with padding")
	pad := (3 - len(text)%3) % 3
	bits, nb := 0, 0
	var got []byte
	for i, ch := range body {
		if i >= len(body)-pad {
			zzsym.Assert(ch == '=', "padded with =")
			continue
		}
		v := b64dec(ch)
		zzsym.Assert(v >= 0, "base64 characters")
		bits = bits<<6 | v
		nb += 6
		if nb >= 8 {
			nb -= 8
			got = append(got, byte(bits>>nb))
			bits &= 1<<nb - 1
		}
	}
	zzsym.Assert(string(got) == string(text), "the sequence carries the text")
	_, err = p.Read()
	zzsym.Assert(err != nil, "OSC 52 cannot be read")
	w2 := osc52.NewProvider(time.Second).WithOutput(w)
	zzsym.Assert(w2.Write(c) != nil, "a write to a closed output is an error")
	zzsym.Cover("end")
}

// ---- rich text ----

// text returns any valid UTF-8 text of up to n bytes without CR, or one of
// some pieces of markup in it.
func text() string {
	var b []byte
	if zzsym.Param("pieces", 0) > 0 {
		ps := []string{"\\", "{", "}", "\n", "<b>", "&amp;", "&", "u1?", "\\b0 ", "a", " ", "é", "\U0001F600", "style=\"color:#112233\"", "'41", ";\\red1\\green2\\blue3;", "-1", "<u>", "\t", "\u00a0"}
		for k := 0; k < zzsym.Param("pieces", 0); k++ {
			b = append(b, ps[zzsym.Choose(len(ps))]...)
		}
		return string(b)
	}
	b = zzsym.Bytes(1 + zzsym.Choose(zzsym.Param("n", 2)))
	for _, x := range b {
		zzsym.Assume(x != '\r')
		if zzsym.Param("ascii", 0) == 1 {
			zzsym.Assume(x < 0x80)
		}
	}
	zzsym.Assume(utf8.Valid(b))
	return string(b)
}

func hex(v int) byte { return "0123456789ABCDEF"[v] }

func styles() (value.TextStyles, string) {
	if zzsym.Param("plain", 0) == 1 {
		return value.NewTextStyles(), ""
	}
	s := value.NewTextStyles().WithBold(zzsym.Bool()).WithItalic(zzsym.Bool()).WithUnderline(zzsym.Bool())
	if zzsym.Bool() {
		return s, ""
	}
	cs := []string{"#12abEF", "#000000", "#FFFFFF", "#090A0a"}
	c := cs[zzsym.Choose(zzsym.Param("colors", len(cs)))]
	s, err := s.WithColor(c)
	zzsym.Assert(err == nil, "a colour is accepted")
	return s, c
}

func low(c byte) byte {
	if c >= 'a' && c <= 'z' {
		return c - 32
	}
	return c
}

func sameColor(a, b string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if low(a[i]) != low(b[i]) {
			return false
		}
	}
	return true
}

func sameStyle(s value.TextStyles, t value.TextStyles, c string) bool {
	return s.Bold == t.Bold && s.Italic == t.Italic && s.Underline == t.Underline && sameColor(s.Color, c)
}

// Colors: every colour #RRGGBB is kept by both formats; anything else is refused.
func Colors() {
	r, g, b := zzsym.Int(0, 255), zzsym.Int(0, 255), zzsym.Int(0, 255)
	switch zzsym.Choose(3) { // one channel at a time is arbitrary
	case 0:
		r, g = 0x1a, 0xb2
	case 1:
		r, b = 0xff, 0
	case 2:
		g, b = 9, 0x10
	}
	col, err := value.FormatColorRGB(r, g, b)
	want := string([]byte{'#', hex(r >> 4), hex(r & 15), hex(g >> 4), hex(g & 15), hex(b >> 4), hex(b & 15)})
	zzsym.Assert(err == nil && col == want, "a colour is written in hexadecimal")
	r2, g2, b2, err := value.ParseColorRGB(want)
	zzsym.Assert(err == nil && r2 == r && g2 == g && b2 == b, "and read back")
	zzsym.Cover("end")
}

func HTML() {
	c := service.NewRichTextCodec()
	t := text()
	s, col := styles()
	h, err := c.EncodeHTML(t, s)
	zzsym.Assert(err == nil, "encoding succeeds")
	got, s2, err := c.DecodeHTML(h)
	zzsym.Assert(err == nil && got == t, "HTML keeps the text")
	zzsym.Assert(sameStyle(s2, s, col), "HTML keeps the styles")
	plain, err := c.StripHTMLTags(h)
	zzsym.Assert(err == nil && plain == t, "without its tags it is the text")
	zzsym.Assert(readHTML(h) == t, "a reader of HTML gets the text")
	zzsym.Cover("end")
}

// readHTML: an independent reader of the few things in generated HTML.
func readHTML(h string) string {
	var out []byte
	for i := 0; i < len(h); {
		switch h[i] {
		case '<':
			for i < len(h) && h[i] != '>' {
				i++
			}
			i++
		case '&':
			j := i
			for j < len(h) && h[j] != ';' {
				j++
			}
			switch h[i+1 : j] {
			case "lt":
				out = append(out, '<')
			case "gt":
				out = append(out, '>')
			case "amp":
				out = append(out, '&')
			case "quot", "#34":
				out = append(out, '"')
			case "apos", "#39":
				out = append(out, '\'')
			default:
				return "unknown entity"
			}
			i = j + 1
		default:
			out = append(out, h[i])
			i++
		}
	}
	return string(out)
}

// readRTF: an independent reader of RTF of one group, following the RTF
// specification: \uN (16 bits) skips one character after it, groups starting
// with a table are not text, line ends are not text.
func readRTF(s string) (string, value.TextStyles, string) {
	var u []uint16
	var st value.TextStyles
	color := ""
	var rgb [3]int
	depth, skip := 0, 0
	put := func(r rune) {
		if skip > 0 {
			skip--
			return
		}
		if depth == 1 {
			if r > 0xffff {
				a, b := utf16.EncodeRune(r)
				u = append(u, uint16(a), uint16(b))
			} else {
				u = append(u, uint16(r))
			}
		}
	}
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == '{':
			depth++
			i++
		case c == '}':
			depth--
			i++
		case c == '\n' || c == '\r':
			i++
		case c == '\\' && i+1 < len(s):
			d := s[i+1]
			if d == '\\' || d == '{' || d == '}' {
				put(rune(d))
				i += 2
				break
			}
			j := i + 1
			for j < len(s) && s[j] >= 'a' && s[j] <= 'z' {
				j++
			}
			w := s[i+1 : j]
			k := j
			if k < len(s) && s[k] == '-' {
				k++
			}
			for k < len(s) && s[k] >= '0' && s[k] <= '9' {
				k++
			}
			arg, has := 0, false
			if k > j {
				arg, _ = strconv.Atoi(s[j:k])
				has = true
			}
			if k < len(s) && s[k] == ' ' {
				k++
			}
			i = k
			on := !has || arg != 0
			seen := len(u) > 0
			switch w {
			case "b":
				if !seen {
					st.Bold = on
				}
			case "i":
				if !seen {
					st.Italic = on
				}
			case "ul":
				if !seen {
					st.Underline = on
				}
			case "red":
				rgb[0] = arg
			case "green":
				rgb[1] = arg
			case "blue":
				rgb[2] = arg
			case "cf":
				if arg == 1 && !seen {
					color = string([]byte{'#', hex(rgb[0] >> 4), hex(rgb[0] & 15), hex(rgb[1] >> 4), hex(rgb[1] & 15), hex(rgb[2] >> 4), hex(rgb[2] & 15)})
				}
			case "line":
				put('\n')
			case "u":
				if depth == 1 {
					u = append(u, uint16(arg))
				}
				skip = 1
			case "":
				return "unknown control symbol", st, ""
			}
		default:
			r, n := utf8.DecodeRuneInString(s[i:])
			put(r)
			i += n
		}
	}
	if depth != 0 {
		return "unbalanced", st, ""
	}
	return string(utf16.Decode(u)), st, color
}

func RTF() {
	c := service.NewRichTextCodec()
	t := text()
	s, col := styles()
	h, err := c.EncodeRTF(t, s)
	zzsym.Assert(err == nil, "encoding succeeds")
	for i := 0; i < len(h); i++ {
		zzsym.Assert(h[i] < 0x80, "RTF is ASCII")
	}
	rt, rs, rc := readRTF(h)
	zzsym.Assert(rt == t, "a reader of RTF gets the text")
	zzsym.Assert(sameStyle(rs, s, "") || sameColor(rc, col) && rs.Bold == s.Bold && rs.Italic == s.Italic && rs.Underline == s.Underline, "a reader of RTF gets the styles")
	zzsym.Assert(sameColor(rc, col), "a reader of RTF gets the colour")
	got, s2, err := c.DecodeRTF(h)
	zzsym.Assert(err == nil && got == t, "RTF keeps the text")
	zzsym.Assert(sameStyle(s2, s, col), "RTF keeps the styles")
	plain, err := c.StripRTFFormatting(h)
	zzsym.Assert(err == nil && plain == t, "without formatting it is the text")
	zzsym.Cover("end")
}

// Convert: HTML to RTF and back.
func Convert() {
	p := &fake{name: "A", up: true}
	cb := build(p)
	c := service.NewRichTextCodec()
	t := text()
	s, col := styles()
	h, err := c.EncodeHTML(t, s)
	zzsym.Assert(err == nil, "encoding succeeds")
	r, err := cb.ConvertHTMLToRTF(h)
	zzsym.Assert(err == nil, "HTML becomes RTF")
	rt, rs, rc := readRTF(r)
	zzsym.Assert(rt == t && rs.Bold == s.Bold && rs.Italic == s.Italic && rs.Underline == s.Underline && sameColor(rc, col), "text and styles are in the RTF")
	h2, err := cb.ConvertRTFToHTML(r)
	zzsym.Assert(err == nil, "RTF becomes HTML")
	got, s2, err := c.DecodeHTML(h2)
	zzsym.Assert(err == nil && got == t && sameStyle(s2, s, col), "text and styles survive both conversions")
	zzsym.Assert(cb.WriteHTML(h) == nil, "write")
	got, err = cb.ReadHTMLAsPlainText()
	zzsym.Assert(err == nil && got == t, "HTML read as plain text")
	zzsym.Assert(cb.WriteRTF(r) == nil, "write")
	got, err = cb.ReadRTFAsPlainText()
	zzsym.Assert(err == nil && got == t, "RTF read as plain text")
	zzsym.Cover("end")
}

func main() {
	zzsym.Main(map[string]func(){"Providers": Providers, "History": History, "Expiry": Expiry, "Aging": Aging, "Concurrent": Concurrent, "OSC52": OSC52,
		"Colors": Colors, "HTML": HTML, "RTF": RTF, "Convert": Convert})
}
