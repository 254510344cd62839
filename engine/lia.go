package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
)

// ---------------------------------------------------------------------------
// Sums of many integers are hard for a solver that works on bits.  Where no
// operation of a query can overflow (by the ranges of its parts), the query is
// posed over the integers instead: every bit-vector becomes the integer it
// stands for (signed or unsigned).  Answers of "sat" are checked with the
// bit-vector terms; anything that does not fit is left to the bit-vector
// solver.
// ---------------------------------------------------------------------------

type liaKey struct {
	t      *Term
	signed bool
}

type liaSolver struct {
	cmd     *exec.Cmd
	in      *bufio.Writer
	inRaw   io.WriteCloser
	out     *bufio.Reader
	defs    map[liaKey]string // name or constant; "": cannot be posed
	named   map[*Term]bool
	timeout int
	broken  int
}

var liaQueries, liaFallback int64

// liaWorth tells if a query is one of sums of several variables.
func liaWorth(cs []*Term) bool {
	for _, c := range cs {
		if len(c.vars) >= 3 && c.size >= 7 && hasSum(c, 40) {
			return true
		}
	}
	return false
}

func hasSum(t *Term, depth int) bool {
	if t == nil || depth == 0 || len(t.vars) < 2 {
		return false
	}
	if t.op == OAdd || t.op == OSub {
		return t.w == 64
	}
	return hasSum(t.a, depth-1) || hasSum(t.b, depth-1) || hasSum(t.c, depth-1)
}

func (s *liaSolver) start() error {
	s.cmd = exec.Command("z3-new", "-in", "-smt2", fmt.Sprintf("-t:%d", s.timeout), "-memory:2000")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.inRaw = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.defs = map[liaKey]string{}
	s.named = map[*Term]bool{}
	s.in.WriteString("(set-option :produce-models true)\n(set-logic QF_LIA)\n")
	return nil
}

func (s *liaSolver) close() {
	if s.cmd != nil {
		s.inRaw.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func num(v int64) string {
	if v < 0 {
		return fmt.Sprintf("(- %s)", strings.TrimPrefix(strconv.FormatInt(v, 10), "-"))
	}
	return strconv.FormatInt(v, 10)
}

const liaLim = int64(1) << 52

// term poses an integer (signed or as a natural number).
func (s *liaSolver) term(t *Term, signed bool) string {
	k := liaKey{t, signed}
	if n, ok := s.defs[k]; ok {
		return n
	}
	n := s.term1(t, signed)
	if n != "" && n[0] == '(' && t.op != OConst {
		name := fmt.Sprintf("n%d", t.id)
		if signed {
			name = fmt.Sprintf("s%d", t.id)
		}
		fmt.Fprintf(s.in, "(define-fun %s () Int %s)\n", name, n)
		n = name
	}
	s.defs[k] = n
	return n
}

func (s *liaSolver) term1(t *Term, signed bool) string {
	if t.w == 0 || t.w > 64 {
		return ""
	}
	if t.op == OConst {
		if signed {
			return num(sext64(t.val, t.w))
		}
		if t.val > uint64(liaLim) {
			return ""
		}
		return num(int64(t.val))
	}
	if t.op == OVar {
		if !signed {
			if t.w > 40 {
				return ""
			}
			n := "v" + t.smtName()
			fmt.Fprintf(s.in, "(declare-const %s Int)\n(assert (and (<= 0 %s) (<= %s %d)))\n", n, n, n, mask(t.w))
			return n
		}
		n := s.term(t, false)
		if n == "" {
			return ""
		}
		return fmt.Sprintf("(ite (< %s %d) %s (- %s %d))", n, uint64(1)<<(t.w-1), n, n, uint64(1)<<t.w)
	}
	if !signed {
		switch t.op {
		case OZext:
			return s.term(t.a, false)
		case OIte:
			return s.ite(t, false)
		case OAdd:
			_, h1 := t.a.urange()
			_, h2 := t.b.urange()
			if h1 > uint64(liaLim) || h2 > uint64(liaLim) || h1+h2 > mask(t.w) {
				break
			}
			return s.op("+", t, false)
		}
		if lo, _ := t.srange(); lo >= 0 {
			return s.term(t, true)
		}
		return ""
	}
	switch t.op {
	case OSext:
		return s.term(t.a, true)
	case OZext:
		if t.a.w < t.w {
			return s.term(t.a, false)
		}
	case OIte:
		return s.ite(t, true)
	case OAdd, OSub, OMul:
		l1, h1 := t.a.srange()
		l2, h2 := t.b.srange()
		if l1 < -liaLim || l2 < -liaLim || h1 > liaLim || h2 > liaLim {
			return ""
		}
		lo, hi := sext64(uint64(1)<<(t.w-1), t.w), int64(mask(t.w)>>1)
		var l, h int64
		o := "+"
		switch t.op {
		case OAdd:
			l, h = l1+l2, h1+h2
		case OSub:
			l, h, o = l1-h2, h1-l2, "-"
		case OMul:
			const lim = int64(1) << 30
			if !t.b.isConst() || l1 < -lim || l2 < -lim || h1 > lim || h2 > lim {
				return ""
			}
			l, h = min(l1*l2, l1*h2, h1*l2, h1*h2), max(l1*l2, l1*h2, h1*l2, h1*h2)
			o = "*"
		}
		if l < lo || h > hi {
			return ""
		}
		return s.op(o, t, true)
	case OSDiv, OSRem, OUDiv, OURem:
		l, h := t.a.srange()
		if !t.b.isConst() || l < -liaLim || h > liaLim {
			return ""
		}
		d := sext64(t.b.val, t.w)
		if d <= 0 || d > 1<<30 || l < 0 && (t.op == OUDiv || t.op == OURem) {
			return ""
		}
		x := s.term(t.a, true)
		if x == "" {
			return ""
		}
		o := "div"
		if t.op == OSRem || t.op == OURem {
			o = "mod"
		}
		if l >= 0 {
			return fmt.Sprintf("(%s %s %d)", o, x, d)
		}
		return fmt.Sprintf("(ite (<= 0 %s) (%s %s %d) (- (%s (- %s) %d)))", x, o, x, d, o, x, d)
	}
	return ""
}

func (s *liaSolver) op(o string, t *Term, signed bool) string {
	x := s.term(t.a, signed)
	if x == "" {
		return ""
	}
	y := s.term(t.b, signed)
	if y == "" {
		return ""
	}
	return "(" + o + " " + x + " " + y + ")"
}

func (s *liaSolver) ite(t *Term, signed bool) string {
	c := s.form(t.a)
	if c == "" {
		return ""
	}
	x := s.term(t.b, signed)
	if x == "" {
		return ""
	}
	y := s.term(t.c, signed)
	if y == "" {
		return ""
	}
	return "(ite " + c + " " + x + " " + y + ")"
}

// form poses a Boolean.
func (s *liaSolver) form(t *Term) string {
	k := liaKey{t, false}
	if n, ok := s.defs[k]; ok {
		return n
	}
	n := s.form1(t)
	if n != "" && n[0] == '(' {
		name := fmt.Sprintf("b%d", t.id)
		fmt.Fprintf(s.in, "(define-fun %s () Bool %s)\n", name, n)
		n = name
	}
	s.defs[k] = n
	return n
}

func (s *liaSolver) form1(t *Term) string {
	two := func(o string) string {
		x := s.form(t.a)
		if x == "" {
			return ""
		}
		y := s.form(t.b)
		if y == "" {
			return ""
		}
		return "(" + o + " " + x + " " + y + ")"
	}
	cmp := func(o string, signed bool) string {
		return s.op(o, t, signed)
	}
	switch t.op {
	case OConst:
		if t.val == 1 {
			return "true"
		}
		return "false"
	case OVar:
		n := "v" + t.smtName()
		fmt.Fprintf(s.in, "(declare-const %s Bool)\n", n)
		return n
	case ONot:
		x := s.form(t.a)
		if x == "" {
			return ""
		}
		return "(not " + x + ")"
	case OAnd:
		return two("and")
	case OOr:
		return two("or")
	case OXorB:
		return two("xor")
	case OIte:
		if t.w != 0 {
			return ""
		}
		x, y, z := s.form(t.a), s.form(t.b), s.form(t.c)
		if x == "" || y == "" || z == "" {
			return ""
		}
		return "(ite " + x + " " + y + " " + z + ")"
	case OEq:
		if t.a.w == 0 {
			return two("=")
		}
		if t.a.w > 64 {
			return ""
		}
		if n := cmp("=", true); n != "" {
			return n
		}
		return cmp("=", false)
	case OSlt:
		return cmp("<", true)
	case OSle:
		return cmp("<=", true)
	case OUlt:
		return cmp("<", false)
	case OUle:
		return cmp("<=", false)
	}
	return ""
}

// check decides a query over the integers; ok is false if it has to be left to
// the bit-vector solver.
func (s *liaSolver) check(cs []*Term, wantModel bool) (res Res, m Model, ok bool) {
	if s.broken > 3 {
		return Unknown, nil, false
	}
	if s.cmd != nil && len(s.defs) > maxDefs {
		s.close()
	}
	if s.cmd == nil {
		if s.start() != nil {
			s.broken = 100
			return Unknown, nil, false
		}
	}
	forms := make([]string, len(cs))
	for i, c := range cs {
		if forms[i] = s.form(c); forms[i] == "" {
			return Unknown, nil, false
		}
	}
	var vars []*Term
	for i, c := range cs {
		vars = unionVars(vars, c.vars)
		if c.isConst() {
			continue
		}
		a := fmt.Sprintf("a%d", c.id)
		if !s.named[c] {
			s.named[c] = true
			fmt.Fprintf(s.in, "(declare-const %s Bool)\n(assert (= %s %s))\n", a, a, forms[i])
		}
		forms[i] = a
	}
	sort.Strings(forms)
	fmt.Fprintf(s.in, "(check-sat-assuming (%s))\n", strings.Join(forms, " "))
	s.in.Flush()
	l, err := s.out.ReadString('\n')
	l = strings.TrimSpace(l)
	if err != nil || l != "sat" && l != "unsat" {
		if l != "unknown" {
			s.broken++
			if s.broken == 1 {
				fmt.Println("gosym: integer solver said:", l)
			}
		}
		s.close()
		return Unknown, nil, false
	}
	if l == "unsat" {
		return Unsat, nil, true
	}
	if len(vars) == 0 {
		return Sat, Model{}, true
	}
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for _, v := range vars {
		sb.WriteString("v" + v.smtName() + " ")
	}
	sb.WriteString("))\n")
	s.in.WriteString(sb.String())
	s.in.Flush()
	depth, started := 0, false
	sb.Reset()
	for !started || depth > 0 {
		c, err := s.out.ReadByte()
		if err != nil {
			s.close()
			return Unknown, nil, false
		}
		sb.WriteByte(c)
		switch c {
		case '(':
			depth++
			started = true
		case ')':
			depth--
		}
	}
	s.out.ReadString('\n')
	toks := tokenize(sb.String())
	byName := make(map[string]*Term, len(vars))
	for _, v := range vars {
		byName["v"+v.smtName()] = v
	}
	m = Model{}
	for i := 1; i+2 < len(toks); i++ {
		v := byName[toks[i]]
		if v == nil || toks[i-1] != "(" {
			continue
		}
		switch x := toks[i+1]; x {
		case "true":
			m[v] = 1
		case "false":
			m[v] = 0
		default:
			n, err := strconv.ParseUint(x, 10, 64)
			if err != nil {
				s.broken++
				return Unknown, nil, false
			}
			m[v] = n
		}
	}
	if len(m) != len(vars) {
		s.broken++
		return Unknown, nil, false
	}
	for _, c := range cs {
		if m.eval(c) != 1 {
			fmt.Println("gosym: integer model does not hold for", sexpr(c, 12))
			s.broken = 100
			return Unknown, nil, false
		}
	}
	if !wantModel {
		m = nil
	}
	atomic.AddInt64(&liaQueries, 1)
	return Sat, m, true
}
