//go:build go1.21

package verifsim

import (
	"reflect"
	"runtime"
	"unsafe"
)

// Channel operations of the code under test come here. The channels stay real
// ones: a buffered operation, and one on a closed channel, is the real operation
// performed when it cannot block, so the race detector sees its edges. An
// unbuffered exchange is arranged between two tasks by the list of waiters.

type waiter struct {
	next *waiter
	ch   unsafe.Pointer
	slot unsafe.Pointer
	send bool
	g    *group
	idx  int
}

// group is one select statement, or one single operation, that waits.
type group struct {
	done bool
	idx  int
}

var waiters *waiter

//go:norace
func enlist(w *waiter) {
	// the one that has waited longest is served first
	p := &waiters
	for *p != nil {
		p = &(*p).next
	}
	*p = w
}

//go:norace
func delist(g *group) {
	p := &waiters
	for *p != nil {
		if (*p).g == g {
			*p = (*p).next
			continue
		}
		p = &(*p).next
	}
}

//go:norace
func match(ch unsafe.Pointer, send bool, g *group) *waiter {
	for w := waiters; w != nil; w = w.next {
		if w.ch == ch && w.send == send && w.g != g && !w.g.done {
			return w
		}
	}
	return nil
}

//go:norace
func fulfil(w *waiter) {
	w.g.done = true
	w.g.idx = w.idx
	progress++
}

//go:norace
func outcome(g *group) (bool, int) { return g.done, g.idx }

//go:norace
func forgetWaiters() { waiters = nil }

// Case is one communication of a select statement.
type Case interface {
	try(g *group) bool
	enter(g *group, idx int) // waits for a counterpart
	leave()                  // a counterpart has come
	real() reflect.SelectCase
	got(v reflect.Value, ok bool)
}

type SCase[T any] struct {
	ch chan<- T
	v  T
	w  *waiter
}

type RCase[T any] struct {
	ch <-chan T
	V  T
	Ok bool
	w  *waiter
}

func SendCase[T any](ch chan<- T) func(T) *SCase[T] {
	return func(v T) *SCase[T] { return &SCase[T]{ch: ch, v: v} }
}

func RecvCase[T any](ch <-chan T) *RCase[T] { return &RCase[T]{ch: ch} }

func sptr[T any](ch chan<- T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }
func rptr[T any](ch <-chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

func (c *SCase[T]) try(g *group) bool {
	if c.ch == nil {
		return false
	}
	select {
	case c.ch <- c.v:
		Progress()
		return true
	default:
	}
	if cap(c.ch) == 0 {
		if w := match(sptr(c.ch), false, g); w != nil {
			Acquire(unsafe.Pointer(w))
			*(*T)(w.slot) = c.v
			ReleaseMerge(unsafe.Pointer(w))
			fulfil(w)
			return true
		}
	}
	return false
}

func (c *RCase[T]) try(g *group) bool {
	if c.ch == nil {
		return false
	}
	select {
	case c.V, c.Ok = <-c.ch:
		Progress()
		return true
	default:
	}
	if cap(c.ch) == 0 {
		if w := match(rptr(c.ch), true, g); w != nil {
			Acquire(unsafe.Pointer(w))
			c.V, c.Ok = *(*T)(w.slot), true
			ReleaseMerge(unsafe.Pointer(w))
			fulfil(w)
			return true
		}
	}
	return false
}

func (c *SCase[T]) enter(g *group, idx int) {
	if c.ch != nil && cap(c.ch) == 0 {
		c.w = &waiter{ch: sptr(c.ch), slot: unsafe.Pointer(&c.v), send: true, g: g, idx: idx}
		ReleaseMerge(unsafe.Pointer(c.w))
		enlist(c.w)
	}
}

func (c *RCase[T]) enter(g *group, idx int) {
	if c.ch != nil && cap(c.ch) == 0 {
		c.w = &waiter{ch: rptr(c.ch), slot: unsafe.Pointer(&c.V), g: g, idx: idx}
		ReleaseMerge(unsafe.Pointer(c.w))
		enlist(c.w)
	}
}

func (c *SCase[T]) leave() { Acquire(unsafe.Pointer(c.w)) }
func (c *RCase[T]) leave() { Acquire(unsafe.Pointer(c.w)); c.Ok = true }

func (c *SCase[T]) real() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(c.ch), Send: reflect.ValueOf(&c.v).Elem()}
}
func (c *RCase[T]) real() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(c.ch)}
}
func (c *SCase[T]) got(reflect.Value, bool) {}
func (c *RCase[T]) got(v reflect.Value, ok bool) {
	c.Ok = ok
	if ok {
		reflect.ValueOf(&c.V).Elem().Set(v)
	}
}

// Select performs one of the communications and returns its number; -1 is the
// default case.
func Select(hasDefault bool, cases ...Case) int {
	n := len(cases)
	if !running() {
		return outside(hasDefault, cases)
	}
	Y(-1)
	k := 0
	if n > 1 {
		k = int(Rand() % uint64(n))
	}
	var g *group
	for {
		for i := 0; i < n; i++ {
			if c := (i + k) % n; cases[c].try(g) {
				if g != nil {
					delist(g)
				}
				Y(-1)
				return c
			}
		}
		if hasDefault {
			return -1
		}
		if g == nil {
			g = &group{}
			for i := range cases {
				cases[i].enter(g, i)
			}
		}
		if ending() {
			runtime.Goexit()
		}
		if !Block() {
			delist(g)
			return outside(hasDefault, cases)
		}
		if done, idx := outcome(g); done {
			delist(g)
			cases[idx].leave()
			return idx
		}
	}
}

// outside is a select when no simulated run is in progress.
func outside(hasDefault bool, cases []Case) int {
	var rc []reflect.SelectCase
	for _, c := range cases {
		rc = append(rc, c.real())
	}
	if hasDefault {
		rc = append(rc, reflect.SelectCase{Dir: reflect.SelectDefault})
	}
	if len(rc) == 0 {
		select {}
	}
	i, v, ok := reflect.Select(rc)
	if i == len(cases) {
		return -1
	}
	cases[i].got(v, ok)
	return i
}

//go:norace
func running() bool { return active }

//go:norace
func ending() bool { return aborting }

// SendTo is ch <- v.
func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) {
		if !running() {
			ch <- v
			return
		}
		Select(false, &SCase[T]{ch: ch, v: v})
	}
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	if !running() {
		v, ok := <-ch
		return v, ok
	}
	c := &RCase[T]{ch: ch}
	Select(false, c)
	return c.V, c.Ok
}

// Close is close(ch).
func Close[T any](ch chan<- T) {
	Y(-1)
	close(ch)
	Progress()
	Y(-1)
}

// RChan and RNext are a range over a channel that declares its variable.
func RChan[T any](ch <-chan T) (<-chan T, T) {
	var zero T
	return ch, zero
}

func RNext[T any](ch <-chan T, p *T) bool {
	v, ok := Recv2(ch)
	if ok {
		*p = v
	}
	return ok
}

// ChanIter is a range over a channel that assigns to something, or to nothing.
type ChanIter[T any] struct {
	ch <-chan T
	V  T
}

func RIter[T any](ch <-chan T) *ChanIter[T] { return &ChanIter[T]{ch: ch} }

func (i *ChanIter[T]) Next() bool {
	v, ok := Recv2(i.ch)
	if ok {
		i.V = v
	}
	return ok
}
