package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Res int

const (
	Unsat Res = iota
	Sat
	Unknown
)

// Stats is shared by all workers.
type Stats struct {
	queries, sat, unsat, unknown, cacheHits int64
	solverNS                                int64
	assertQueries, assertUnsat, assertSat   int64
	assertConcrete                          int64
	maxQueryNS                              int64
}

var slowLog = os.Getenv("GOSYM_SLOW") != ""

// sexpr prints a term for people, some levels deep.
func sexpr(t *Term, depth int) string {
	switch {
	case t.op == OConst:
		if t.w == 0 || t.w > 64 {
			return fmt.Sprint(t.val)
		}
		return fmt.Sprint(sext64(t.val, t.w))
	case t.op == OVar:
		return t.smtName()
	case depth == 0:
		return "…"
	case t.op == OZext || t.op == OSext:
		return sexpr(t.a, depth)
	}
	b := t.smtBody()
	if i := strings.IndexByte(b, ' '); i > 0 {
		b = b[:i]
	}
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			b += " " + sexpr(x, depth-1)
		}
	}
	return b + ")"
}

var noLIA = os.Getenv("GOSYM_NOLIA") != ""

var stats Stats
var bvLogic = func() string {
	if s := os.Getenv("GOSYM_LOGIC"); s != "" {
		return s
	}
	return "QF_BV"
}()
var solverCtr int64
var maxDefs = func() int {
	n := 20000
	if s := os.Getenv("GOSYM_DEFS"); s != "" {
		fmt.Sscan(s, &n)
	}
	return n
}()

type Solver struct {
	bin     string
	cmd     *exec.Cmd
	in      *bufio.Writer
	inRaw   io.WriteCloser
	out     *bufio.Reader
	defined map[*Term]bool
	named   map[*Term]bool
	ndef    int
	timeout int // ms
	fp      bool
	logw    io.Writer
	lia     *liaSolver
}

func newSolver(timeoutMS int, fp bool) *Solver {
	return &Solver{timeout: timeoutMS, fp: fp, bin: solverBin}
}

var solverBin = func() string {
	if s := os.Getenv("GOSYM_SOLVER"); s != "" {
		return s
	}
	return "z3-new"
}()

func (s *Solver) start() error {
	var args []string
	if strings.Contains(s.bin, "cvc5") {
		args = []string{"--incremental", "--produce-models", "--lang=smt2", fmt.Sprintf("--tlimit-per=%d", s.timeout)}
	} else {
		args = []string{"-in", "-smt2", fmt.Sprintf("-t:%d", s.timeout), "-memory:4000"}
	}
	s.cmd = exec.Command(s.bin, args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.inRaw = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.defined = map[*Term]bool{}
	s.named = map[*Term]bool{}
	s.ndef = 0
	if l := os.Getenv("GOSYM_SMTLOG"); l != "" && s.logw == nil {
		s.logw, _ = os.Create(fmt.Sprintf("%s.%d", l, atomic.AddInt64(&solverCtr, 1)))
	}
	s.send("(set-option :produce-models true)\n")
	if s.fp {
		s.send("(set-logic QF_BVFP)\n")
	} else {
		s.send("(set-logic "+bvLogic+")\n")
	}
	return nil
}

func (s *Solver) close() {
	if s.lia != nil {
		s.lia.close()
	}
	if s.cmd != nil {
		s.inRaw.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) send(x string) {
	s.in.WriteString(x)
	if s.logw != nil {
		io.WriteString(s.logw, x)
	}
}

func (s *Solver) define(t *Term) {
	if t == nil || t.op == OConst || s.defined[t] {
		return
	}
	if n := narrowed(t); n != nil {
		s.define(n)
		s.defined[t] = true
		s.ndef++
		s.send(fmt.Sprintf("(define-fun %s () %s %s)\n", t.smtName(), sortName(t.w), n.smtName()))
		return
	}
	s.define(t.a)
	s.define(t.b)
	s.define(t.c)
	s.defined[t] = true
	s.ndef++
	if t.op == OVar {
		s.send(fmt.Sprintf("(declare-const %s %s)\n", t.smtName(), sortName(t.w)))
		return
	}
	s.send(fmt.Sprintf("(define-fun %s () %s %s)\n", t.smtName(), sortName(t.w), t.smtBody()))
}

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

// check decides the conjunction; on Sat it returns values for all variables.
func (s *Solver) check(cs []*Term, wantModel bool) (Res, Model) {
	t0 := time.Now()
	r, m := s.check1(cs, wantModel)
	d := time.Since(t0).Nanoseconds()
	if slowLog && d > 1e9 {
		var sb strings.Builder
		for _, c := range cs {
			sb.WriteString("\n   " + sexpr(c, 12))
		}
		fmt.Fprintf(os.Stderr, "gosym: slow query %.1fs res=%d:%s\n", float64(d)/1e9, r, sb.String())
	}
	atomic.AddInt64(&stats.queries, 1)
	atomic.AddInt64(&stats.solverNS, d)
	for {
		o := atomic.LoadInt64(&stats.maxQueryNS)
		if d <= o || atomic.CompareAndSwapInt64(&stats.maxQueryNS, o, d) {
			break
		}
	}
	switch r {
	case Sat:
		atomic.AddInt64(&stats.sat, 1)
	case Unsat:
		atomic.AddInt64(&stats.unsat, 1)
	default:
		atomic.AddInt64(&stats.unknown, 1)
	}
	return r, m
}

func (s *Solver) check1(cs []*Term, wantModel bool) (Res, Model) {
	if !noLIA && !s.fp && liaWorth(cs) {
		if s.lia == nil {
			s.lia = &liaSolver{timeout: s.timeout}
		}
		if r, m, ok := s.lia.check(cs, wantModel); ok {
			return r, m
		}
		atomic.AddInt64(&liaFallback, 1)
	}
	if s.cmd != nil && s.ndef > maxDefs {
		s.close()
	}
	if s.cmd == nil {
		if err := s.start(); err != nil {
			fatal("cannot start solver %s: %v", s.bin, err)
		}
	}
	for _, c := range cs {
		if c == tFalse {
			return Unsat, nil
		}
		s.define(c)
	}
	// each constraint gets a persistent Boolean name and the query is posed
	// under assumptions, so bit-blasted terms and lemmas are reused
	var vars []*Term
	for _, c := range cs {
		vars = unionVars(vars, c.vars)
		if !c.isConst() && c.op != OVar && !s.named[c] {
			s.named[c] = true
			s.send("(declare-const a" + c.smtName() + " Bool)\n(assert (= a" + c.smtName() + " " + c.smtName() + "))\n")
		}
	}
	s.send("(check-sat-assuming (")
	for _, c := range cs {
		switch {
		case c == tTrue:
		case c.op == OVar:
			s.send(c.smtName() + " ")
		default:
			s.send("a" + c.smtName() + " ")
		}
	}
	s.send("))\n")
	s.in.Flush()
	l, err := s.readLine()
	if err != nil {
		s.close()
		return Unknown, nil
	}
	var res Res
	var m Model
	switch {
	case l == "sat":
		res = Sat
		if wantModel && len(vars) > 0 {
			var sb strings.Builder
			sb.WriteString("(get-value (")
			for _, v := range vars {
				sb.WriteString(v.smtName())
				sb.WriteByte(' ')
			}
			sb.WriteString("))\n")
			s.send(sb.String())
			s.in.Flush()
			m, err = s.readModel(vars)
			if err != nil {
				fmt.Fprintln(os.Stderr, "gosym: model error:", err)
				s.close()
				return Unknown, nil
			}
		}
	case l == "unsat":
		res = Unsat
	case l == "unknown":
		res = Unknown
	default:
		fmt.Fprintln(os.Stderr, "gosym: solver said:", l)
		s.close()
		return Unknown, nil
	}
	return res, m
}

func (s *Solver) readModel(vars []*Term) (Model, error) {
	// read a balanced s-expression
	var sb strings.Builder
	depth := 0
	started := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return nil, err
		}
		sb.WriteByte(c)
		if c == '(' {
			depth++
			started = true
		} else if c == ')' {
			depth--
		}
		if started && depth == 0 {
			break
		}
	}
	s.out.ReadString('\n')
	txt := sb.String()
	if strings.HasPrefix(strings.TrimSpace(txt), "(error") {
		return nil, fmt.Errorf("%s", txt)
	}
	toks := tokenize(txt)
	m := Model{}
	byName := make(map[string]*Term, len(vars))
	for _, v := range vars {
		byName[v.smtName()] = v
	}
	i := 1
	for i < len(toks) && toks[i] == "(" {
		v := byName[toks[i+1]]
		j := i + 2
		val, k, err := parseVal(toks, j)
		if err != nil || v == nil {
			return nil, fmt.Errorf("bad model near %v: %v", toks[i:min(len(toks), i+12)], err)
		}
		m[v] = val & maskF(v.w)
		i = k + 1
	}
	return m, nil
}

func tokenize(s string) []string {
	var out []string
	i := 0
	for i < len(s) {
		switch c := s[i]; {
		case c == '(' || c == ')':
			out = append(out, s[i:i+1])
			i++
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		default:
			j := i
			for j < len(s) && !strings.ContainsRune("() \n\t\r", rune(s[j])) {
				j++
			}
			out = append(out, s[i:j])
			i = j
		}
	}
	return out
}

func parseBits(t string) (uint64, int, error) {
	switch {
	case strings.HasPrefix(t, "#b"):
		v, e := strconv.ParseUint(t[2:], 2, 64)
		return v, len(t) - 2, e
	case strings.HasPrefix(t, "#x"):
		v, e := strconv.ParseUint(t[2:], 16, 64)
		return v, 4 * (len(t) - 2), e
	}
	return 0, 0, fmt.Errorf("bad bits %q", t)
}

func parseVal(toks []string, i int) (uint64, int, error) {
	switch t := toks[i]; {
	case t == "true":
		return 1, i + 1, nil
	case t == "false":
		return 0, i + 1, nil
	case strings.HasPrefix(t, "#"):
		v, _, e := parseBits(t)
		return v, i + 1, e
	case t == "(":
		if toks[i+1] == "fp" {
			a, _, e1 := parseBits(toks[i+2])
			b, _, e2 := parseBits(toks[i+3])
			c, _, e3 := parseBits(toks[i+4])
			if e1 != nil || e2 != nil || e3 != nil {
				return 0, 0, fmt.Errorf("bad fp")
			}
			return a<<63 | b<<52 | c, i + 6, nil
		}
		if toks[i+1] == "_" {
			switch toks[i+2] {
			case "+zero":
				return 0, i + 6, nil
			case "-zero":
				return 1 << 63, i + 6, nil
			case "+oo":
				return 0x7FF << 52, i + 6, nil
			case "-oo":
				return 0xFFF << 52, i + 6, nil
			case "NaN":
				return 0x7FF8 << 48, i + 6, nil
			}
			if strings.HasPrefix(toks[i+2], "bv") {
				v, e := strconv.ParseUint(toks[i+2][2:], 10, 64)
				return v, i + 5, e
			}
		}
	}
	return 0, 0, fmt.Errorf("bad value at %v", toks[i])
}

// ---------------------------------------------------------------------------
// shared query cache
// ---------------------------------------------------------------------------

type cacheEntry struct {
	r Res
	m Model
}

var qcache struct {
	sync.Mutex
	m map[string]cacheEntry
}

func init() { qcache.m = map[string]cacheEntry{} }

func cacheKey(cs []*Term) string {
	b := make([]byte, 0, len(cs)*4)
	for _, c := range cs {
		b = append(b, byte(c.id), byte(c.id>>8), byte(c.id>>16), byte(c.id>>24))
	}
	return string(b)
}

// slice keeps the constraints transitively sharing variables with seed.
func sliceConstraints(pc []*Term, seed []*Term) []*Term {
	vars := map[*Term]bool{}
	for _, s := range seed {
		for _, v := range s.vars {
			vars[v] = true
		}
	}
	used := make([]bool, len(pc))
	out := append([]*Term(nil), seed...)
	for {
		changed := false
		for i, c := range pc {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range c.vars {
				if vars[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				out = append(out, c)
				for _, v := range c.vars {
					if !vars[v] {
						vars[v] = true
						changed = true
					}
				}
				changed = true
			}
		}
		if !changed {
			break
		}
	}
	sortTerms(out)
	// dedupe
	j := 0
	for i := range out {
		if i == 0 || out[i] != out[i-1] {
			out[j] = out[i]
			j++
		}
	}
	return out[:j]
}
