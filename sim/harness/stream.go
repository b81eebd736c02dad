//go:build go1.21

package main

import (
	"context"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"os"
	"runtime"
	"syscall"

	"VERIFMOD/verifsim"
)

var errSource = errors.New("simulated source failure")

// timeoutError is what network connections fail with.
type timeoutError struct{}

func (*timeoutError) Error() string   { return "simulated source: i/o timeout" }
func (*timeoutError) Timeout() bool   { return true }
func (*timeoutError) Temporary() bool { return true }

// the errors sources fail with
var sourceErrors = []error{
	errSource,
	&timeoutError{},
	fmt.Errorf("simulated source: connection reset: %w", io.EOF),
	fmt.Errorf("simulated source: checksum: %w", io.ErrUnexpectedEOF),
	io.ErrClosedPipe,
	context.Canceled,
	context.DeadlineExceeded,
	&os.PathError{Op: "read", Path: "model.pmml", Err: syscall.EIO},
	&os.PathError{Op: "read", Path: "model.pmml", Err: os.ErrDeadlineExceeded},
	syscall.EINTR,
	syscall.EAGAIN,
	os.ErrClosed,
	io.ErrShortBuffer,
	io.ErrNoProgress,
	errors.New("EOF"),
	errors.New("unexpected EOF"),
	&xml.SyntaxError{Msg: "unexpected EOF", Line: 3},
	errors.New(""),
}

type srcPanic struct{}

// ownError is the error the planned source fails with, if it is one of its own.
func (p *Plan) ownError() error {
	switch p.Fault {
	case "err", "dataerr":
		return sourceErrors[p.Err%len(sourceErrors)]
	case "unexpected":
		return io.ErrUnexpectedEOF
	}
	return nil
}

// source delivers a document the way a plan says.
type source struct {
	data  string
	at    int
	p     Plan
	r     *R
	zeros int
	fired bool
	stuck bool
}

func newSource(data string, p *Plan) *source {
	s := &source{data: data, r: NewR(0)}
	if p != nil {
		s.p = *p
		s.r = NewR(p.Seed)
	}
	if s.p.Max <= 0 {
		s.p.Max = 1 << 20
	}
	if s.p.Min <= 0 {
		s.p.Min = 1
	}
	if s.p.Min > s.p.Max {
		s.p.Min = s.p.Max
	}
	return s
}

// fault fires the planned fault; ok says that delivery goes on.
func (s *source) fault() (error, bool) {
	first := !s.fired
	s.fired = true
	if !first && s.p.Seed&1 == 1 {
		return nil, true // the source recovers after one failure
	}
	if first {
		bump("source:" + s.p.Fault)
	}
	if first && s.p.Err > 0 {
		bump(fmt.Sprintf("source:error:%T", s.p.ownError()))
	}
	switch s.p.Fault {
	case "panic":
		panic(srcPanic{})
	case "goexit":
		runtime.Goexit()
	case "eof":
		return io.EOF, false
	}
	return s.p.ownError(), false
}

func (s *source) limit() int {
	if s.p.Fault != "" && !s.fired && s.p.At < len(s.data) {
		return s.p.At
	}
	if s.p.Fault != "" && s.fired && s.p.Seed&1 == 0 && s.p.At < len(s.data) {
		return s.p.At
	}
	return len(s.data)
}

func (s *source) Read(b []byte) (int, error) {
	verifsim.Y(-1)
	if s.p.Stall > 0 && s.r.P(s.p.Stall) {
		bump("source:stall")
		verifsim.Sleep(int64(s.r.N(5_000_000_000)))
	}
	if len(b) == 0 {
		return 0, nil
	}
	lim := s.limit()
	if s.at >= lim {
		if s.p.Fault != "" && s.p.At < len(s.data) && s.at <= s.p.At {
			if s.p.Fault == "stuck" {
				if !s.stuck {
					s.stuck = true
					bump("source:stuck")
				}
				return 0, nil
			}
			err, ok := s.fault()
			if !ok {
				return 0, err
			}
			lim = len(s.data)
		}
		if s.at >= len(s.data) {
			return 0, io.EOF
		}
	}
	if s.p.Zero > 0 && s.zeros < 3 && s.r.P(s.p.Zero) {
		s.zeros++
		bump("source:empty-read")
		return 0, nil
	}
	s.zeros = 0
	n := s.r.Range(s.p.Min, s.p.Max)
	if n > len(b) {
		n = len(b)
	}
	if n > lim-s.at {
		n = lim - s.at
	}
	if n < len(b) {
		bump("source:short-read")
	}
	copy(b, s.data[s.at:s.at+n])
	s.at += n
	if s.p.Fault == "dataerr" && !s.fired && s.at == s.p.At && s.at < len(s.data) {
		err, _ := s.fault()
		return n, err
	}
	if s.p.DataEOF && s.at == len(s.data) {
		bump("source:data+eof")
		return n, io.EOF
	}
	return n, nil
}

// byteSource also implements io.ByteReader, so the decoder reads it directly.
type byteSource struct{ *source }

func (s byteSource) ReadByte() (byte, error) {
	var b [1]byte
	for i := 0; i < 200; i++ {
		n, err := s.Read(b[:])
		if n == 1 {
			// an error that came with the byte comes again on the next call
			return b[0], nil
		}
		if err != nil {
			return 0, err
		}
	}
	return 0, io.ErrNoProgress
}
