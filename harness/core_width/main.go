package main

import (
	"unicode/utf8"
	"ZM"
	"ZZ/zzsym"
)

var alpha = []rune{0, 7, 0x1b, ' ', 'a', 'Z', '~', 0x7f, 0x80, 0xa0, 0xad, 0xe9, 0x300, 0x301, 0x416, 0x1100, 0x1160, 0x11a8, 0x200b, 0x200d, 0x200e, 0x2013, 0x2500, 0x2600, 0x263a, 0x2764, 0x3000, 0x3042, 0x4e2d, 0xac00, 0xfe0e, 0xfe0f, 0xff01, 0xff61, 0xfffd, 0x1f1e6, 0x1f1f7, 0x1f3fb, 0x1f44d, 0x1f468, 0x1f600, 0x1f680, 0x20000, 0xe0100, 0x10ffff}

func W() {
	n := zzsym.Param("n", 3)
	rs := make([]rune, n)
	for i := range rs {
		rs[i] = alpha[zzsym.Pick(len(alpha))]
	}
	s := string(rs)
	w := core.StringWidth(s)
	zzsym.ObserveInt("w", w)
	zzsym.Assert(w >= 0, "negative width")
	zzsym.Assert(w <= 2*utf8.RuneCountInString(s), "wider than 2 per rune")
}

func main() { zzsym.Main(map[string]func(){"W": W}) }
