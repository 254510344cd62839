// From terminal bytes to key messages.
package main

import (
	"io"
	"time"

	"ZM/internal/domain/model"
	"ZM/internal/infrastructure/ansi"
	"ZM/internal/infrastructure/input"
	"ZZ/zzsym"
)

type known struct {
	seq string
	typ model.KeyType
}

var table = []known{
	{"\x1b[A", model.KeyUp}, {"\x1b[B", model.KeyDown}, {"\x1b[C", model.KeyRight}, {"\x1b[D", model.KeyLeft},
	{"\x1b[H", model.KeyHome}, {"\x1b[F", model.KeyEnd},
	{"\x1bOP", model.KeyF1}, {"\x1bOQ", model.KeyF2}, {"\x1bOR", model.KeyF3}, {"\x1bOS", model.KeyF4},
	{"\x1b[1~", model.KeyHome}, {"\x1b[2~", model.KeyInsert}, {"\x1b[3~", model.KeyDelete},
	{"\x1b[4~", model.KeyEnd}, {"\x1b[5~", model.KeyPgUp}, {"\x1b[6~", model.KeyPgDown},
	{"\x1b[15~", model.KeyF5}, {"\x1b[17~", model.KeyF6}, {"\x1b[18~", model.KeyF7}, {"\x1b[19~", model.KeyF8},
	{"\x1b[20~", model.KeyF9}, {"\x1b[21~", model.KeyF10}, {"\x1b[23~", model.KeyF11}, {"\x1b[24~", model.KeyF12},
}

// single is the key a single byte below 0x80 stands for.
func single(b byte) (model.KeyMsg, bool) {
	switch {
	case b == '\r' || b == '\n':
		return model.KeyMsg{Type: model.KeyEnter}, true
	case b == 0x7f || b == 0x08:
		return model.KeyMsg{Type: model.KeyBackspace}, true
	case b == '\t':
		return model.KeyMsg{Type: model.KeyTab}, true
	case b == 0x1b:
		return model.KeyMsg{Type: model.KeyEsc}, true
	case b == ' ':
		return model.KeyMsg{Type: model.KeySpace}, true
	case b >= 1 && b <= 26:
		return model.KeyMsg{Type: model.KeyRune, Rune: rune(b) + 'a' - 1, Ctrl: true}, true
	case b > ' ' && b < 0x7f:
		return model.KeyMsg{Type: model.KeyRune, Rune: rune(b)}, true
	}
	return model.KeyMsg{}, false
}

// Parse: the parser on arbitrary bytes.
func Parse() {
	n := zzsym.Choose(zzsym.Param("n", 5) + 1)
	data := zzsym.Bytes(n)
	got, ok := ansi.NewParser().ParseKey(data)
	var exp model.KeyMsg
	eok := false
	if n == 1 {
		exp, eok = single(data[0])
	} else {
		for _, k := range table {
			if string(data) == k.seq {
				exp, eok = model.KeyMsg{Type: k.typ}, true
				break
			}
		}
	}
	zzsym.Assert(ok == eok, "a sequence is recognised that is no key, or a key is not")
	zzsym.Assert(got == exp, "the wrong key")
	if ok && n > 1 {
		zzsym.Cover("sequence")
	}
	zzsym.Cover("end")
}

// chunks delivers one chunk per permission, as a terminal does for one burst
// of typing.
type chunks struct {
	data  [][]byte
	grant chan struct{}
	i     int
	slow  bool
}

func (c *chunks) Read(p []byte) (int, error) {
	<-c.grant
	if c.i >= len(c.data) {
		return 0, io.EOF
	}
	if c.slow {
		// until everybody waits for it
		time.Sleep(2 * time.Millisecond)
	}
	n := copy(p, c.data[c.i])
	c.i++
	return n, nil
}

func contByte() byte { return byte(zzsym.Int(0x80, 0xbf)) }

// item draws one thing a terminal may send; msg is false if it is no key.
// last tells whether it ends its burst.
func item(kinds int, last bool) (s string, k model.KeyMsg, msg bool) {
	switch zzsym.Choose(kinds) {
	case 0:
		b := byte(zzsym.Int(0, 0x7f))
		if b == 0x1b {
			zzsym.Assume(last)
		}
		k, msg = single(b)
		return string([]byte{b}), k, msg
	case 1:
		t := table[zzsym.Choose(len(table))]
		return t.seq, model.KeyMsg{Type: t.typ}, true
	case 2:
		// an unknown control sequence
		m := zzsym.Choose(zzsym.Param("csi", 3) + 1)
		b := []byte("\x1b[<")
		for i := 0; i < m; i++ {
			b = append(b, byte(zzsym.Int('0', ';')))
		}
		if zzsym.Choose(2) == 1 {
			b = append(b, "35;100;200"...)
		}
		b = append(b, byte(zzsym.Int(0x40, 0x7e)))
		return string(b), k, false
	case 3:
		b := []byte{byte(zzsym.Int(0xc2, 0xdf)), contByte()}
		return string(b), model.KeyMsg{Type: model.KeyRune, Rune: rune(b[0]&0x1f)<<6 | rune(b[1]&0x3f)}, true
	case 4:
		b := []byte{byte(zzsym.Int(0xe1, 0xec)), contByte(), contByte()}
		return string(b), model.KeyMsg{Type: model.KeyRune, Rune: rune(b[0]&0x0f)<<12 | rune(b[1]&0x3f)<<6 | rune(b[2]&0x3f)}, true
	}
	b := []byte{byte(zzsym.Int(0xf1, 0xf3)), contByte(), contByte(), contByte()}
	return string(b), model.KeyMsg{Type: model.KeyRune, Rune: rune(b[0]&0x07)<<18 | rune(b[1]&0x3f)<<12 | rune(b[2]&0x3f)<<6 | rune(b[3]&0x3f)}, true
}

// Stream: bursts of keys through the reader.
func Stream() {
	src := &chunks{grant: make(chan struct{}, 100)}
	type burst struct{ keys []model.KeyMsg }
	var bs []burst
	nb := zzsym.Param("bursts", 2)
	kinds := zzsym.Param("kinds", 6)
	for i := 0; i < nb; i++ {
		var b burst
		txt := ""
		n := 1 + zzsym.Choose(zzsym.Param("items", 2))
		for j := 0; j < n; j++ {
			s, k, msg := item(kinds, j == n-1)
			if j == n-1 {
				// something must show that the burst is over
				zzsym.Assume(msg)
			}
			txt += s
			if msg {
				b.keys = append(b.keys, k)
			}
		}
		bs = append(bs, b)
		src.data = append(src.data, []byte(txt))
	}
	rd := input.NewReader(src)
	for _, b := range bs {
		src.grant <- struct{}{}
		for _, want := range b.keys {
			var got model.Msg
			var err error
			for {
				got, err = rd.Read()
				if err != nil || got != nil {
					break
				}
			}
			zzsym.Assert(err == nil, "Read failed")
			k, ok := got.(model.KeyMsg)
			zzsym.Assert(ok && k == want, "the wrong key is read")
		}
	}
	close(src.grant)
	for {
		got, err := rd.Read()
		if err != nil {
			break
		}
		zzsym.Assert(got == nil, "a key is read that was not typed")
	}
	rd.Cancel()
	rd.WaitForShutdown()
	zzsym.Cover("end")
}

// Split: text cut anywhere, also inside a character, arrives as the same text.
func Split() {
	n := zzsym.Param("items", 2)
	txt := ""
	var want []model.KeyMsg
	for i := 0; i < n; i++ {
		s, k, msg := "", model.KeyMsg{}, true
		if zzsym.Choose(4) == 0 {
			b := byte(zzsym.Int(0x20, 0x7f))
			s = string([]byte{b})
			k, _ = single(b)
		} else {
			r := rune([]int{0xe9, 0x4e2d, 0x1f600}[zzsym.Choose(3)])
			s, k = string(r), model.KeyMsg{Type: model.KeyRune, Rune: r}
		}
		if msg {
			want = append(want, k)
		}
		txt += s
	}
	a := zzsym.Choose(len(txt) + 1)
	b := a + zzsym.Choose(len(txt)-a+1)
	src := &chunks{grant: make(chan struct{}, 100), slow: zzsym.Choose(2) == 1}
	for _, c := range []string{txt[:a], txt[a:b], txt[b:]} {
		if c != "" {
			src.data = append(src.data, []byte(c))
		}
	}
	close(src.grant)
	rd := input.NewReader(src)
	for _, w := range want {
		got, err := rd.Read()
		k, ok := got.(model.KeyMsg)
		zzsym.Assert(err == nil && ok && k == w, "split text is read as something else")
	}
	got, err := rd.Read()
	zzsym.Assert(got == nil && err == io.EOF, "a key is read that was not typed")
	rd.Cancel()
	rd.WaitForShutdown()
	zzsym.Cover("end")
}

func main() {
	zzsym.Main(map[string]func(){"Parse": Parse, "Stream": Stream, "Split": Split})
}
