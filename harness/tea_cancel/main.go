// The cancelable reader under every schedule.
package main

import (
	"errors"
	"io"
	"os"

	"ZM/internal/infrastructure/input"
	"ZZ/zzsym"
)

type source struct {
	data [][]byte
	i    int
	err  error
	late bool          // the error comes with the last data
	hold chan struct{} // nil: end after the data; otherwise block until closed
	done chan struct{}
}

func (s *source) Read(p []byte) (int, error) {
	if s.i < len(s.data) {
		n := copy(p, s.data[s.i])
		s.i++
		if s.late && s.i == len(s.data) {
			return n, s.err
		}
		return n, nil
	}
	if s.hold != nil {
		<-s.hold
	}
	if s.err != nil {
		return 0, s.err
	}
	return 0, io.EOF
}

func draw(chunks, size int) ([][]byte, []byte) {
	var data [][]byte
	var all []byte
	n := zzsym.Choose(chunks + 1)
	for i := 0; i < n; i++ {
		b := zzsym.Bytes(1 + zzsym.Choose(size))
		data = append(data, b)
		all = append(all, b...)
	}
	return data, all
}

// Whole: every byte arrives once and in order whatever the buffers.
func Whole() {
	data, all := draw(zzsym.Param("chunks", 2), zzsym.Param("size", 3))
	src := &source{data: data, err: io.EOF}
	if zzsym.Param("errs", 1) == 1 {
		switch zzsym.Choose(3) {
		case 1:
			src.err = errors.New("broken")
		case 2:
			src.late = true
		}
	}
	cr := input.NewCancelableReader(src)
	var got []byte
	for i := 0; ; i++ {
		buf := make([]byte, 1+zzsym.Choose(zzsym.Param("buf", 3)))
		n, err := cr.Read(buf)
		zzsym.Assert(n >= 0 && n <= len(buf), "Read returns an impossible count")
		got = append(got, buf[:n]...)
		if err != nil {
			break
		}
		zzsym.Assert(n > 0, "Read returns nothing")
		zzsym.Assert(i <= len(all), "Read does not end")
	}
	zzsym.Assert(string(got) == string(all), "bytes are lost, repeated or reordered")
	n, err := cr.Read(make([]byte, 2))
	zzsym.Assert(n == 0 && err != nil, "Read after the end")
	cr.Cancel()
	cr.WaitForShutdown()
	zzsym.Cover("end")
}

// Cancel at any moment: a blocked or later Read ends with EOF, nothing is
// invented, and the goroutines go away.
func Cancel() {
	data, all := draw(zzsym.Param("chunks", 2), 1)
	src := &source{data: data, hold: make(chan struct{})}
	cr := input.NewCancelableReader(src)
	var got []byte
	var last error
	fin := make(chan struct{})
	go func() {
		for {
			buf := make([]byte, 2)
			n, err := cr.Read(buf)
			got = append(got, buf[:n]...)
			if err != nil {
				last = err
				break
			}
		}
		close(fin)
	}()
	k := zzsym.Choose(3)
	both := make(chan struct{})
	if k == 1 {
		go func() {
			cr.Cancel()
			close(both)
		}()
	} else {
		close(both)
	}
	cr.Cancel()
	zzsym.Assert(cr.IsCanceled(), "IsCanceled after Cancel")
	n, err := cr.Read(make([]byte, 2))
	zzsym.Assert(n == 0 && err == io.EOF, "Read after Cancel")
	<-fin
	<-both
	zzsym.Assert(last == io.EOF, "a cancelled Read does not report EOF")
	zzsym.Assert(len(got) <= len(all) && string(got) == string(all[:len(got)]), "bytes are lost, repeated or reordered")
	if k == 2 {
		close(src.hold)
		src.hold = nil
	}
	cr.WaitForShutdown()
	zzsym.Cover("end")
}

// Handover: after Cancel and WaitForShutdown a file's next bytes go to the
// next reader.
func Handover() {
	r, w, err := os.Pipe()
	zzsym.Assert(err == nil, "pipe")
	a := zzsym.Bytes(zzsym.Choose(2))
	b := zzsym.Bytes(1 + zzsym.Choose(2))
	cr := input.NewCancelableReader(r)
	if len(a) > 0 {
		w.Write(a)
		buf := make([]byte, 4)
		n, err := cr.Read(buf)
		zzsym.Assert(err == nil && string(buf[:n]) == string(a), "first read")
	}
	if zzsym.Choose(2) == 1 {
		done := make(chan struct{})
		go func() {
			n, err := cr.Read(make([]byte, 4))
			zzsym.Assert(n == 0 && err == io.EOF, "a blocked Read")
			close(done)
		}()
		cr.Cancel()
		<-done
	} else {
		cr.Cancel()
	}
	cr.WaitForShutdown()
	w.Write(b)
	var got []byte
	next := input.NewCancelableReader(r)
	for len(got) < len(b) {
		buf := make([]byte, 4)
		n, err := next.Read(buf)
		zzsym.Assert(err == nil && n > 0, "the next reader cannot read")
		got = append(got, buf[:n]...)
	}
	zzsym.Assert(string(got) == string(b), "the next reader reads something else")
	next.Cancel()
	next.WaitForShutdown()
	zzsym.Cover("end")
}

func main() {
	zzsym.Main(map[string]func(){"Whole": Whole, "Cancel": Cancel, "Handover": Handover})
}
