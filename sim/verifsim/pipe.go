//go:build go1.21

package verifsim

import "io"

// The synchronous pipe of package io, on simulated channels.
type pipe struct {
	turn       chan struct{} // held by the writer
	wr         chan []byte
	rd         chan int
	done       chan struct{}
	guard      chan struct{}
	closed     bool
	rerr, werr error
}

func (p *pipe) shut(to *error, err error) {
	Recv[struct{}](p.guard)
	if *to == nil {
		*to = err
	}
	if !p.closed {
		p.closed = true
		Close[struct{}](p.done)
	}
	SendTo[struct{}](p.guard)(struct{}{})
}

func (p *pipe) errs() (r, w error) {
	Recv[struct{}](p.guard)
	r, w = p.rerr, p.werr
	SendTo[struct{}](p.guard)(struct{}{})
	return
}

func (p *pipe) readErr() error {
	r, w := p.errs()
	if r == nil && w != nil {
		return w
	}
	return io.ErrClosedPipe
}

func (p *pipe) writeErr() error {
	r, w := p.errs()
	if w == nil && r != nil {
		return r
	}
	return io.ErrClosedPipe
}

func (p *pipe) isDone() bool {
	return Select(true, RecvCase[struct{}](p.done)) == 0
}

type PipeReader struct{ p *pipe }
type PipeWriter struct{ p *pipe }

func Pipe() (*PipeReader, *PipeWriter) {
	p := &pipe{turn: make(chan struct{}, 1), guard: make(chan struct{}, 1), wr: make(chan []byte), rd: make(chan int), done: make(chan struct{})}
	p.turn <- struct{}{}
	p.guard <- struct{}{}
	return &PipeReader{p}, &PipeWriter{p}
}

func (r *PipeReader) Read(b []byte) (int, error) {
	p := r.p
	if p.isDone() {
		return 0, p.readErr()
	}
	in := RecvCase[[]byte](p.wr)
	if Select(false, in, RecvCase[struct{}](p.done)) == 1 {
		return 0, p.readErr()
	}
	n := copy(b, in.V)
	SendTo[int](p.rd)(n)
	return n, nil
}

func (r *PipeReader) Close() error { return r.CloseWithError(nil) }
func (r *PipeReader) CloseWithError(err error) error {
	if err == nil {
		err = io.ErrClosedPipe
	}
	r.p.shut(&r.p.rerr, err)
	return nil
}

func (w *PipeWriter) Write(b []byte) (n int, err error) {
	p := w.p
	if p.isDone() {
		return 0, p.writeErr()
	}
	Recv[struct{}](p.turn)
	defer func() { SendTo[struct{}](p.turn)(struct{}{}) }()
	for once := true; once || len(b) > 0; once = false {
		if Select(false, SendCase[[]byte](p.wr)(b), RecvCase[struct{}](p.done)) == 1 {
			return n, p.writeErr()
		}
		k := Recv[int](p.rd)
		b = b[k:]
		n += k
	}
	return n, nil
}

func (w *PipeWriter) Close() error { return w.CloseWithError(nil) }
func (w *PipeWriter) CloseWithError(err error) error {
	if err == nil {
		err = io.EOF
	}
	w.p.shut(&w.p.werr, err)
	return nil
}
