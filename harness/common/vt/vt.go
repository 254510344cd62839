// Package vt is the terminal the checks render into: an xterm-like screen
// model (cells, attributes, deferred wrap, scrolling, erase with the current
// background, DEC private modes).  It is the oracle for everything the library
// writes; it is written from the ECMA-48/xterm documents, not from the library.
package vt

// Attr flags.
const (
	Bold = 1 << iota
	Dim
	Italic
	Underline
	Blink
	Reverse
	Hidden
	Strike
)

// Colour: -1 default, 0..255 palette, 1<<24|rgb direct.
type Attr struct {
	Fg, Bg int
	Flags  int
}

var DefaultAttr = Attr{Fg: -1, Bg: -1}

type Cell struct {
	R    rune
	A    Attr
	W    int // 1 or 2; 0 for the right half of a wide character
	Comb int // combining characters attached
}

type Screen struct {
	W, H           int
	Cells          []Cell
	X, Y           int
	Pend           bool // deferred wrap
	Cur            Attr
	Visible        bool
	Alt            bool
	Modes          map[int]bool
	Scrolls        int
	Bells          int
	Strange        int // bytes or sequences no terminal defines for this use
	OSC            []string
	DCS            int
	SavedX, SavedY int
	Main           []Cell
	MainX, MainY   int
	Other          []string // other escape sequences seen
	state          int
	par            []int
	cur            int
	has            bool
	priv           byte
	inter          byte
	osc            []byte
	ubuf           []byte
	RuneW          func(r rune) int
	Top, Bot       int
	CRLF           bool // the tty translates LF to CR LF
	TitleStack     int
	Kitty          int
}

func New(w, h int) *Screen {
	s := &Screen{W: w, H: h, Visible: true, Modes: map[int]bool{}, Cur: DefaultAttr, Bot: h - 1}
	s.Cells = make([]Cell, w*h)
	for i := range s.Cells {
		s.Cells[i] = Cell{' ', DefaultAttr, 1, 0}
	}
	return s
}

// Width is the column count of a rune, for the alphabets the checks use.
func Width(r rune) int {
	switch {
	case r < 0x20 || r >= 0x7f && r < 0xa0:
		return 0
	case r < 0x300:
		return 1
	case r < 0x370, r >= 0x200b && r <= 0x200f, r >= 0xfe00 && r <= 0xfe0f:
		return 0
	case r >= 0x1100 && r <= 0x115f, r >= 0x2e80 && r <= 0xa4cf && r != 0x303f, r >= 0xac00 && r <= 0xd7a3, r >= 0xf900 && r <= 0xfaff,
		r >= 0xfe30 && r <= 0xfe6f, r >= 0xff00 && r <= 0xff60, r >= 0xffe0 && r <= 0xffe6, r >= 0x1f300 && r <= 0x1f64f, r >= 0x1f680 && r <= 0x1f6ff, r >= 0x1f900 && r <= 0x1f9ff, r >= 0x20000 && r <= 0x3fffd:
		return 2
	}
	return 1
}

func (s *Screen) At(x, y int) Cell { return s.Cells[y*s.W+x] }

func (s *Screen) blank() Cell { return Cell{' ', Attr{Fg: -1, Bg: s.Cur.Bg}, 1, 0} }

// breakWide blanks the other half of a wide character about to lose one half.
func (s *Screen) breakWide(x, y int) {
	i := y*s.W + x
	if s.Cells[i].W == 0 && x > 0 {
		s.Cells[i-1].R, s.Cells[i-1].W, s.Cells[i-1].Comb = ' ', 1, 0
		s.Cells[i].W = 1
		s.Cells[i].R = ' '
	}
	if s.Cells[i].W == 2 && x+1 < s.W {
		s.Cells[i+1].R, s.Cells[i+1].W, s.Cells[i+1].Comb = ' ', 1, 0
		s.Cells[i].W = 1
		s.Cells[i].R = ' '
	}
}

// Scribble overwrites one cell without moving anything else.
func (s *Screen) Scribble(x, y int, r rune) {
	s.breakWide(x, y)
	s.Cells[y*s.W+x] = Cell{R: r, A: DefaultAttr, W: 1}
}

func (s *Screen) scrollUp() {
	s.Scrolls++
	copy(s.Cells[s.Top*s.W:], s.Cells[(s.Top+1)*s.W:(s.Bot+1)*s.W])
	for x := 0; x < s.W; x++ {
		s.Cells[s.Bot*s.W+x] = s.blank()
	}
}

func (s *Screen) lf() {
	s.Pend = false
	if s.Y == s.Bot {
		s.scrollUp()
	} else if s.Y < s.H-1 {
		s.Y++
	}
}

func (s *Screen) Put(r rune) {
	w := 0
	if s.RuneW != nil {
		w = s.RuneW(r)
	} else {
		w = Width(r)
	}
	if w == 0 {
		x := s.X
		if !s.Pend {
			x--
		}
		if x >= 0 {
			if s.At(x, s.Y).W == 0 && x > 0 {
				x--
			}
			s.Cells[s.Y*s.W+x].Comb++
		}
		return
	}
	if s.Pend || w == 2 && s.X == s.W-1 {
		if s.W < 2 && w == 2 {
			s.Strange++
			return
		}
		s.X = 0
		s.lf()
	}
	s.breakWide(s.X, s.Y)
	s.Cells[s.Y*s.W+s.X] = Cell{r, s.Cur, w, 0}
	if w == 2 {
		s.breakWide(s.X+1, s.Y)
		s.Cells[s.Y*s.W+s.X] = Cell{r, s.Cur, w, 0}
		s.Cells[s.Y*s.W+s.X+1] = Cell{0, s.Cur, 0, 0}
	}
	if s.X+w >= s.W {
		s.X = s.W - 1
		s.Pend = true
	} else {
		s.X += w
	}
}

func (s *Screen) erase(from, to int) { // [from,to) linear
	if from < 0 {
		from = 0
	}
	if to > len(s.Cells) {
		to = len(s.Cells)
	}
	for i := from; i < to; i++ {
		if s.Cells[i].W != 1 {
			s.breakWide(i%s.W, i/s.W)
		}
		s.Cells[i] = s.blank()
	}
}

// Feed interprets output.
func (s *Screen) Feed(out string) {
	for i := 0; i < len(out); i++ {
		s.byte(out[i])
	}
}

func (s *Screen) byte(b byte) {
	switch s.state {
	case 0:
		if len(s.ubuf) > 0 {
			if b&0xc0 == 0x80 {
				s.ubuf = append(s.ubuf, b)
				n := 2
				if s.ubuf[0] >= 0xf0 {
					n = 4
				} else if s.ubuf[0] >= 0xe0 {
					n = 3
				}
				if len(s.ubuf) == n {
					r := rune(0)
					for _, x := range string(s.ubuf) {
						r = x
						break
					}
					s.ubuf = nil
					s.Put(r)
				}
				return
			}
			s.ubuf = nil
			s.Put(0xfffd)
		}
		switch {
		case b == 0x1b:
			s.state = 1
		case b == '\n', b == 0x0b, b == 0x0c:
			if s.CRLF && b == '\n' {
				s.X = 0
			}
			s.lf()
		case b == '\r':
			s.X, s.Pend = 0, false
		case b == '\b':
			if s.X > 0 {
				s.X--
			}
			s.Pend = false
		case b == 7:
			s.Bells++
		case b == '\t':
			n := (s.X/8 + 1) * 8
			if n > s.W-1 {
				n = s.W - 1
			}
			s.X = n
		case b < 0x20 || b == 0x7f:
			s.Strange++
		case b < 0x80:
			s.Put(rune(b))
		case b >= 0xc2 && b <= 0xf4:
			s.ubuf = []byte{b}
		default:
			s.Put(0xfffd)
		}
	case 1:
		s.state = 0
		switch b {
		case '[':
			s.state = 2
			s.par, s.cur, s.has, s.priv, s.inter = nil, 0, false, 0, 0
		case ']':
			s.state = 3
			s.osc = nil
		case 'P', '_', '^', 'X':
			s.state = 5
		case '7':
			s.SavedX, s.SavedY = s.X, s.Y
		case '8':
			s.X, s.Y, s.Pend = s.SavedX, s.SavedY, false
		case 'M':
			if s.Y > 0 {
				s.Y--
			}
		case 'D':
			s.lf()
		case 'E':
			s.X = 0
			s.lf()
		case 'c':
			s.Cur = DefaultAttr
			s.erase(0, len(s.Cells))
			s.X, s.Y, s.Pend, s.Visible = 0, 0, false, true
		default:
			s.Strange++
		}
	case 2:
		switch {
		case b >= '0' && b <= '9':
			s.cur = s.cur*10 + int(b-'0')
			s.has = true
		case b == ';' || b == ':':
			s.par = append(s.par, s.pv())
			s.cur, s.has = 0, false
		case b >= '<' && b <= '?':
			s.priv = b
		case b >= 0x20 && b <= 0x2f:
			s.inter = b
		case b >= 0x40 && b <= 0x7e:
			if s.has || len(s.par) > 0 {
				s.par = append(s.par, s.pv())
			}
			s.state = 0
			s.csi(b)
		default:
			s.state = 0
			s.Strange++
		}
	case 3:
		switch b {
		case 7:
			s.OSC = append(s.OSC, string(s.osc))
			s.state = 0
		case 0x1b:
			s.state = 4
		default:
			s.osc = append(s.osc, b)
		}
	case 4:
		if b == '\\' {
			s.OSC = append(s.OSC, string(s.osc))
			s.state = 0
		} else {
			s.Strange++
			s.state = 0
		}
	case 5:
		if b == 0x1b {
			s.state = 6
		}
	case 6:
		if b == '\\' {
			s.DCS++
			s.state = 0
		} else if b != 0x1b {
			s.state = 5
		}
	}
}

func (s *Screen) pv() int {
	if !s.has {
		return -1
	}
	return s.cur
}

func (s *Screen) p(i, def int) int {
	if i >= len(s.par) || s.par[i] < 0 {
		return def
	}
	return s.par[i]
}

func (s *Screen) p1(i int) int {
	n := s.p(i, 1)
	if n == 0 {
		n = 1
	}
	return n
}

func (s *Screen) Mid() bool { return s.state != 0 || len(s.ubuf) > 0 }

func clampi(v, lo, hi int) int {
	if v < lo {
		return lo
	}
	if v > hi {
		return hi
	}
	return v
}

func (s *Screen) csi(f byte) {
	if s.inter != 0 {
		s.Other = append(s.Other, string([]byte{s.inter, f}))
		return
	}
	if s.priv != 0 {
		switch {
		case s.priv == '?' && (f == 'h' || f == 'l'):
			for i := range s.par {
				s.mode(s.p(i, 0), f == 'h')
			}
		case f == 'u':
			s.Kitty++
		default:
			s.Other = append(s.Other, string([]byte{s.priv, f}))
		}
		return
	}
	switch f {
	case 'A':
		s.Y, s.Pend = clampi(s.Y-s.p1(0), 0, s.H-1), false
	case 'B':
		s.Y, s.Pend = clampi(s.Y+s.p1(0), 0, s.H-1), false
	case 'C':
		s.X, s.Pend = clampi(s.X+s.p1(0), 0, s.W-1), false
	case 'D':
		s.X, s.Pend = clampi(s.X-s.p1(0), 0, s.W-1), false
	case 'E':
		s.Y, s.X, s.Pend = clampi(s.Y+s.p1(0), 0, s.H-1), 0, false
	case 'F':
		s.Y, s.X, s.Pend = clampi(s.Y-s.p1(0), 0, s.H-1), 0, false
	case 'G':
		s.X, s.Pend = clampi(s.p1(0)-1, 0, s.W-1), false
	case 'd':
		s.Y, s.Pend = clampi(s.p1(0)-1, 0, s.H-1), false
	case 'H', 'f':
		s.Y, s.X, s.Pend = clampi(s.p1(0)-1, 0, s.H-1), clampi(s.p1(1)-1, 0, s.W-1), false
	case 'J':
		at := s.Y*s.W + s.X
		switch s.p(0, 0) {
		case 0:
			s.erase(at, len(s.Cells))
		case 1:
			s.erase(0, at+1)
		case 2:
			s.erase(0, len(s.Cells))
		case 3:
		default:
			s.Strange++
		}
		s.Pend = false
	case 'K':
		l := s.Y * s.W
		switch s.p(0, 0) {
		case 0:
			s.erase(l+s.X, l+s.W)
		case 1:
			s.erase(l, l+s.X+1)
		case 2:
			s.erase(l, l+s.W)
		default:
			s.Strange++
		}
		s.Pend = false
	case 'm':
		s.sgr()
	case 's':
		s.SavedX, s.SavedY = s.X, s.Y
	case 'u':
		s.X, s.Y, s.Pend = s.SavedX, s.SavedY, false
	case 'r':
		s.Top, s.Bot = clampi(s.p1(0)-1, 0, s.H-1), clampi(s.p(1, s.H)-1, 0, s.H-1)
		s.X, s.Y, s.Pend = 0, 0, false
	case 'S':
		for n := s.p1(0); n > 0; n-- {
			s.scrollUp()
		}
	case 't':
		switch s.p(0, 0) {
		case 22:
			s.TitleStack++
		case 23:
			s.TitleStack--
		}
	default:
		s.Other = append(s.Other, string([]byte{f}))
	}
}

func (s *Screen) mode(n int, on bool) {
	s.Modes[n] = on
	switch n {
	case 25:
		s.Visible = on
	case 47, 1047, 1049:
		if on == s.Alt {
			return
		}
		s.Alt = on
		if on {
			s.Main = append([]Cell(nil), s.Cells...)
			s.MainX, s.MainY = s.X, s.Y
			s.erase(0, len(s.Cells))
		} else {
			copy(s.Cells, s.Main)
			if n == 1049 {
				s.X, s.Y = s.MainX, s.MainY
			}
		}
		s.Pend = false
	}
}

func (s *Screen) sgr() {
	if len(s.par) == 0 {
		s.Cur = DefaultAttr
		return
	}
	for i := 0; i < len(s.par); i++ {
		n := s.p(i, 0)
		switch {
		case n == 0:
			s.Cur = DefaultAttr
		case n == 1:
			s.Cur.Flags |= Bold
		case n == 2:
			s.Cur.Flags |= Dim
		case n == 3:
			s.Cur.Flags |= Italic
		case n == 4:
			s.Cur.Flags |= Underline
		case n == 5:
			s.Cur.Flags |= Blink
		case n == 7:
			s.Cur.Flags |= Reverse
		case n == 8:
			s.Cur.Flags |= Hidden
		case n == 9:
			s.Cur.Flags |= Strike
		case n == 22:
			s.Cur.Flags &^= Bold | Dim
		case n == 23:
			s.Cur.Flags &^= Italic
		case n == 24:
			s.Cur.Flags &^= Underline
		case n == 25:
			s.Cur.Flags &^= Blink
		case n == 27:
			s.Cur.Flags &^= Reverse
		case n == 28:
			s.Cur.Flags &^= Hidden
		case n == 29:
			s.Cur.Flags &^= Strike
		case n >= 30 && n <= 37:
			s.Cur.Fg = n - 30
		case n >= 90 && n <= 97:
			s.Cur.Fg = n - 90 + 8
		case n >= 40 && n <= 47:
			s.Cur.Bg = n - 40
		case n >= 100 && n <= 107:
			s.Cur.Bg = n - 100 + 8
		case n == 39:
			s.Cur.Fg = -1
		case n == 49:
			s.Cur.Bg = -1
		case n == 38 || n == 48:
			c := -1
			switch s.p(i+1, 0) {
			case 5:
				c = s.p(i+2, 0)
				i += 2
			case 2:
				c = RGB(s.p(i+2, 0), s.p(i+3, 0), s.p(i+4, 0))
				i += 4
			default:
				s.Strange++
				return
			}
			if n == 38 {
				s.Cur.Fg = c
			} else {
				s.Cur.Bg = c
			}
		default:
			s.Strange++
		}
	}
}

func RGB(r, g, b int) int { return 1<<24 | r<<16 | g<<8 | b }
