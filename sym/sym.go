// Package zzsym is the harness interface of gosym.  Under the symbolic
// executor the functions marked "engine" are intercepted; compiled natively
// they replay the values of a counterexample.
package zzsym

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"runtime"
	"strconv"
	"sync/atomic"
	"time"
	"unicode/utf8"
)

type inputVal struct {
	Kind  string `json:"kind"`
	Label string `json:"label"`
	Val   int64  `json:"val"`
}

var inputs []inputVal
var pos int
var params map[string]int
var obs []string

func next(kind string) int64 {
	for pos < len(inputs) && inputs[pos].Kind == "choice" {
		pos++
	}
	if pos >= len(inputs) {
		return 0
	}
	v := inputs[pos]
	pos++
	if v.Kind != kind {
		finish(9, "SYM-MISMATCH: input "+kind+" but recorded "+v.Kind)
	}
	return v.Val
}

func finish(code int, msg string) {
	fmt.Fprintln(os.Stderr, msg)
	for _, o := range obs {
		fmt.Fprintln(os.Stderr, "SYM-OBS:"+o)
	}
	os.Exit(code)
}

// Main runs the harness named by SYM_HARNESS on the inputs in SYM_INPUTS.
func Main(hs map[string]func()) {
	b, _ := os.ReadFile(os.Getenv("SYM_INPUTS"))
	json.Unmarshal(b, &inputs)
	json.Unmarshal([]byte(os.Getenv("SYM_PARAMS")), &params)
	h := hs[os.Getenv("SYM_HARNESS")]
	if h == nil {
		finish(8, "SYM-NOHARNESS")
	}
	h()
	finish(0, "SYM-OK")
}

var noise atomic.Uint64

// Noise delays the caller at random in replays of schedule-dependent
// counterexamples.
func Noise() { // engine: not called
	if noise.Load() == 0 {
		seed, _ := strconv.Atoi(os.Getenv("SYM_NOISE"))
		noise.Store(uint64(seed)*0x9e3779b97f4a7c15 + 1)
	}
	x := noise.Add(0x9e3779b97f4a7c15)
	x = (x ^ x>>30) * 0xbf58476d1ce4e5b9
	x = (x ^ x>>27) * 0x94d049bb133111eb
	k := (x ^ x>>31) % 24
	switch k {
	case 0, 1:
		runtime.Gosched()
	case 2, 3:
		time.Sleep(100 * time.Microsecond)
	case 4:
		time.Sleep(time.Millisecond)
	case 5:
		time.Sleep(5 * time.Millisecond)
	}
}

func Int(lo, hi int) int   { return int(next("int")) }    // engine
func Byte() byte           { return byte(next("byte")) }  // engine
func Bool() bool           { return next("bool") == 1 }   // engine
func Choose(n int) int     { return int(next("choose")) } // engine
func Concrete(x int) int   { return x }                   // engine
func ConcreteStr(s string) string { return s }            // engine
func IsSymbolic() bool     { return false }               // engine
func Assume(b bool) { // engine
	if !b {
		finish(7, "SYM-ASSUME")
	}
}
func Assert(b bool, msg string) { // engine
	if !b {
		finish(3, "SYM-VIOLATION: "+msg)
	}
}
func Cover(l string) {} // engine
func Param(name string, def int) int { // engine
	if v, ok := params[name]; ok {
		return v
	}
	return def
}
func ObserveInt(l string, v int)     { obs = append(obs, fmt.Sprintf("%s=%d", l, v)) } // engine
func ObserveStr(l string, v string)  { obs = append(obs, fmt.Sprintf("%s=%q", l, v)) } // engine
func ObserveBool(l string, v bool)   { obs = append(obs, fmt.Sprintf("%s=%v", l, v)) } // engine
func Advance(ns int64)               { time.Sleep(time.Duration(ns)) }                 // engine
func Quiesce()                       { time.Sleep(30 * time.Millisecond) }             // engine

// Bytes returns n arbitrary bytes.
func Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = Byte()
	}
	return b
}

// Str returns a string of n arbitrary bytes.
func Str(n int) string { return string(Bytes(n)) }

// Rune picks one rune of the given list through a symbolic index.
func Pick(n int) int { return Int(0, n-1) }

var capDone chan string
var capOld, capW *os.File

func captureStart() { // engine
	r, w, _ := os.Pipe()
	capOld, capW = os.Stdout, w
	os.Stdout = w
	capDone = make(chan string, 1)
	go func() {
		b, _ := io.ReadAll(r)
		capDone <- string(b)
	}()
}

func captureStop() string { // engine
	os.Stdout = capOld
	capW.Close()
	return <-capDone
}

// Capture runs f and returns what it wrote to os.Stdout.
func Capture(f func()) string {
	captureStart()
	f()
	return captureStop()
}

// ---- models used by the engine (ordinary Go, executed symbolically) ----

type RuntimeErr string

func (e RuntimeErr) Error() string { return "runtime error: " + string(e) }
func (e RuntimeErr) RuntimeError() {}

func DecodeRune(s string) (rune, int) { return utf8.DecodeRuneInString(s) }

func EncodeRune(r rune) string {
	var b []byte
	b = utf8.AppendRune(b, r)
	return string(b)
}

func RunesToString(rs []rune) string {
	var b []byte
	for _, r := range rs {
		b = utf8.AppendRune(b, r)
	}
	return string(b)
}

func StringToRunes(s string) []rune {
	var out []rune
	for _, r := range s {
		out = append(out, r)
	}
	return out
}

func ModelIndexByte(s string, c byte) int {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return i
		}
	}
	return -1
}

func ModelCountByte(s string, c byte) int {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			n++
		}
	}
	return n
}

func ModelIndex(s, t string) int {
	n := len(t)
	for i := 0; i+n <= len(s); i++ {
		if s[i:i+n] == t {
			return i
		}
	}
	return -1
}

// the two SWAR loops of uniwidth (unsafe word loads), byte by byte
func ModelASCIIOnly(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

func ModelASCIIWidth(s string) int {
	w := 0
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x20 && s[i] != 0x7f {
			w++
		}
	}
	return w
}

// pipes: os.Pipe, with the blocking, closing and deadline behaviour readers see
type pipe struct {
	data         chan []byte
	left         []byte
	wdone, rdone chan struct{}
	wclosed      bool
	rclosed      bool
	dl           chan struct{}
	dlOn         bool
}

type pipeEnd struct {
	p *pipe
	w bool
}

var pipes = map[*os.File]*pipeEnd{}

func fileRaw(f *os.File, p []byte) {} // engine

func OSPipe() (*os.File, *os.File, error) {
	p := &pipe{data: make(chan []byte, 4096), wdone: make(chan struct{}), rdone: make(chan struct{}), dl: make(chan struct{})}
	r, w := new(os.File), new(os.File)
	pipes[r] = &pipeEnd{p, false}
	pipes[w] = &pipeEnd{p, true}
	return r, w, nil
}

func FileRead(f *os.File, b []byte) (int, error) {
	e := pipes[f]
	if e == nil {
		return 0, io.EOF
	}
	p := e.p
	if p.rclosed {
		return 0, os.ErrClosed
	}
	if len(b) == 0 {
		return 0, nil
	}
	if len(p.left) == 0 {
		var d []byte
		select {
		case d = <-p.data:
		default:
			select {
			case d = <-p.data:
			case <-p.wdone:
				select {
				case d = <-p.data:
				default:
					return 0, io.EOF
				}
			case <-p.rdone:
				return 0, os.ErrClosed
			case <-p.dl:
				return 0, os.ErrDeadlineExceeded
			}
		}
		p.left = d
	}
	n := copy(b, p.left)
	p.left = p.left[n:]
	return n, nil
}

func FileWrite(f *os.File, b []byte) (int, error) {
	e := pipes[f]
	if e == nil {
		fileRaw(f, b)
		return len(b), nil
	}
	if e.p.wclosed || e.p.rclosed {
		return 0, os.ErrClosed
	}
	if len(b) > 0 {
		e.p.data <- append([]byte(nil), b...)
	}
	return len(b), nil
}

func FileWriteString(f *os.File, s string) (int, error) { return FileWrite(f, []byte(s)) }

// FileSync: as for a pipe or a terminal, which cannot be synced
func FileSync(f *os.File) error { return &os.PathError{Op: "sync", Path: "|1", Err: os.ErrInvalid} }

func FileClose(f *os.File) error {
	e := pipes[f]
	if e == nil {
		return nil
	}
	if e.w {
		if e.p.wclosed {
			return os.ErrClosed
		}
		e.p.wclosed = true
		close(e.p.wdone)
		return nil
	}
	if e.p.rclosed {
		return os.ErrClosed
	}
	e.p.rclosed = true
	close(e.p.rdone)
	return nil
}

func FileSetReadDeadline(f *os.File, t time.Time) error {
	e := pipes[f]
	if e == nil {
		return os.ErrNoDeadline
	}
	if t.IsZero() {
		if e.p.dlOn {
			e.p.dl = make(chan struct{})
			e.p.dlOn = false
		}
	} else if !e.p.dlOn {
		e.p.dlOn = true
		close(e.p.dl)
	}
	return nil
}

func ErrorsIs(err, target error) bool {
	for err != nil {
		if err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if ErrorsIs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return target == nil
}

func sliceLen(x any) int        { return 0 } // engine
func sliceSwap(x any, i, j int) {}           // engine

// SortSlice / SortSliceStable: insertion sort (what the library itself uses for
// up to 12 elements; any sort algorithm yields an order the comparator admits).
func SortSlice(x any, less func(i, j int) bool) { SortSliceStable(x, less) }

func SortSliceStable(x any, less func(i, j int) bool) {
	n := sliceLen(x)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			sliceSwap(x, j, j-1)
		}
	}
}
