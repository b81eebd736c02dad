//go:build go1.21

// Package simcontext replaces package context in the code under test: deadlines
// and timeouts pass on the simulated clock.
package simcontext

import (
	"context"
	"time"

	"VERIFMOD/verifsim"
	simtime "VERIFMOD/verifsim/simtime"
)

type (
	Context         = context.Context
	CancelFunc      = context.CancelFunc
	CancelCauseFunc = context.CancelCauseFunc
)

var (
	Canceled         = context.Canceled
	DeadlineExceeded = context.DeadlineExceeded
)

func Background() Context { return context.Background() }
func TODO() Context       { return context.TODO() }

func progress(f func()) func() {
	return func() { verifsim.Y(-1); f(); verifsim.Progress() }
}

func WithCancel(p Context) (Context, CancelFunc) {
	c, f := context.WithCancel(p)
	return c, progress(f)
}

func WithCancelCause(p Context) (Context, CancelCauseFunc) {
	c, f := context.WithCancelCause(p)
	return c, func(err error) { verifsim.Y(-1); f(err); verifsim.Progress() }
}

func WithoutCancel(p Context) Context       { return context.WithoutCancel(p) }
func WithValue(p Context, k, v any) Context { return context.WithValue(p, k, v) }
func Cause(c Context) error                 { return context.Cause(c) }
func AfterFunc(c Context, f func()) func() bool {
	stop := make(chan struct{})
	var done, stopped int32
	verifsim.Go(func() {
		verifsim.Select(false, verifsim.RecvCase(c.Done()), verifsim.RecvCase(stop))
		verifsim.Y(-1)
		if set(&done, &stopped) {
			f()
		}
	})
	return func() bool {
		verifsim.Y(-1)
		if !set(&stopped, &done) {
			return false
		}
		verifsim.Close(stop)
		return true
	}
}

// set raises mine unless it or the other is up already.
//
//go:norace
func set(mine, other *int32) bool {
	if *mine != 0 || *other != 0 {
		return false
	}
	*mine = 1
	return true
}

type deadline struct {
	Context
	at time.Time
}

func (d *deadline) Deadline() (time.Time, bool) { return d.at, true }

func (d *deadline) Err() error {
	err := d.Context.Err()
	if err != nil && context.Cause(d.Context) == context.DeadlineExceeded {
		return context.DeadlineExceeded
	}
	return err
}

func WithDeadline(p Context, at time.Time) (Context, CancelFunc) {
	if cur, ok := p.Deadline(); ok && cur.Before(at) {
		return WithCancel(p)
	}
	c, cancel := context.WithCancelCause(p)
	d := &deadline{c, at}
	left := at.Sub(simtime.Now())
	if left <= 0 {
		cancel(context.DeadlineExceeded)
		return d, func() {}
	}
	t := simtime.AfterFunc(left, func() { cancel(context.DeadlineExceeded) })
	return d, progress(func() { t.Stop(); cancel(context.Canceled) })
}

func WithTimeout(p Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadline(p, simtime.Now().Add(d))
}
