//go:build go1.21

// Package simsync replaces package sync in the code under test. The real
// primitives do the synchronisation (so the race detector sees it); blocking
// goes through the simulator.
package simsync

import (
	"sync"
	"unsafe"

	"VERIFMOD/verifsim"
)

type Locker = sync.Locker

type Mutex struct{ mu sync.Mutex }

func (m *Mutex) Lock() {
	verifsim.Y(-1)
	for !m.mu.TryLock() {
		if !verifsim.Block() {
			m.mu.Lock()
			return
		}
	}
}
func (m *Mutex) TryLock() bool { verifsim.Y(-1); return m.mu.TryLock() }
func (m *Mutex) Unlock()       { m.mu.Unlock(); verifsim.Progress(); verifsim.Y(-1) }

// RWMutex has the writer preference of the real one: a writer that waits keeps
// new readers out, and readers that waited go before the next writer.
type RWMutex struct {
	mu      sync.RWMutex
	readers int32 // readers in, or let in by the last writer
	waiting int32 // readers that wait for a writer
	ticket  int64 // of the last writer that left
	writer  bool
	owner   bool // a pending writer has announced itself
}

//go:norace
func (m *RWMutex) announce() bool {
	if m.owner {
		return false
	}
	m.owner = true
	return true
}

//go:norace
func (m *RWMutex) enter() bool {
	if m.readers > 0 || m.writer {
		return false
	}
	m.writer = true
	return true
}

//go:norace
func (m *RWMutex) leave() {
	m.writer, m.owner = false, false
	m.readers += m.waiting
	m.waiting = 0
	m.ticket++
}

//go:norace
func (m *RWMutex) renter() (ok bool, ticket int64) {
	if !m.owner {
		m.readers++
		return true, 0
	}
	m.waiting++
	return false, m.ticket
}

//go:norace
func (m *RWMutex) granted(t int64) bool { return m.ticket != t }

//go:norace
func (m *RWMutex) rleave() { m.readers-- }

//go:norace
func (m *RWMutex) rheld() bool { return m.readers > 0 }

//go:norace
func (m *RWMutex) busy() bool { return m.owner || m.readers > 0 }

func (m *RWMutex) Lock() {
	verifsim.Y(-1)
	for !m.announce() {
		if !verifsim.Block() {
			break
		}
	}
	verifsim.Y(-1) // a reader may come between the announcement and the entry
	for !m.enter() {
		if !verifsim.Block() {
			break
		}
	}
	m.mu.Lock()
}
func (m *RWMutex) RLock() {
	verifsim.Y(-1)
	if ok, t := m.renter(); !ok {
		for !m.granted(t) {
			if !verifsim.Block() {
				break
			}
		}
	}
	m.mu.RLock()
}
func (m *RWMutex) TryLock() bool {
	verifsim.Y(-1)
	if m.busy() || !m.announce() || !m.enter() {
		return false
	}
	m.mu.Lock()
	return true
}
func (m *RWMutex) TryRLock() bool {
	verifsim.Y(-1)
	ok, _ := m.tryr()
	if ok {
		m.mu.RLock()
	}
	return ok
}

//go:norace
func (m *RWMutex) tryr() (bool, int64) {
	if m.owner {
		return false, 0
	}
	m.readers++
	return true, 0
}

func (m *RWMutex) Unlock() {
	m.mu.Unlock()
	m.leave()
	verifsim.Progress()
	verifsim.Y(-1)
}
func (m *RWMutex) RUnlock() {
	if !m.rheld() {
		panic("sync: RUnlock of unlocked RWMutex") // a fatal error in the real one
	}
	m.mu.RUnlock()
	m.rleave()
	verifsim.Progress()
	verifsim.Y(-1)
}
func (m *RWMutex) RLocker() Locker {
	return (*rlocker)(m)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	var valid bool
	var p any
	g := func() {
		defer func() {
			p = recover()
			if !valid {
				panic(p)
			}
		}()
		f()
		f = nil
		valid = true
	}
	return func() {
		o.Do(g)
		if !valid {
			panic(p)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var r T
	g := OnceFunc(func() { r = f() })
	return func() T { g(); return r }
}

func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var a A
	var b B
	g := OnceFunc(func() { a, b = f() })
	return func() (A, B) { g(); return a, b }
}

type WaitGroup struct {
	wg sync.WaitGroup
	n  int32
}

//go:norace
func (w *WaitGroup) count(d int32) int32 { w.n += d; return w.n }

func (w *WaitGroup) Add(d int) {
	verifsim.Y(-1)
	w.count(int32(d))
	w.wg.Add(d)
	verifsim.Progress()
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	verifsim.Y(-1)
	for w.count(0) > 0 {
		if !verifsim.Block() {
			break
		}
	}
	w.wg.Wait()
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	verifsim.Go(func() {
		defer w.Done()
		f()
	})
}

type Cond struct {
	L    Locker
	wait int64
	wake int64
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) ticket() int64 { c.wait++; return c.wait }

//go:norace
func (c *Cond) woken(t int64) bool { return c.wake >= t }

//go:norace
func (c *Cond) sig(all bool) {
	if all {
		c.wake = c.wait
	} else if c.wake < c.wait {
		c.wake++
	}
}

func (c *Cond) Wait() {
	t := c.ticket()
	c.L.Unlock()
	for !c.woken(t) {
		if !verifsim.Block() {
			break
		}
	}
	verifsim.Acquire(unsafe.Pointer(c))
	c.L.Lock()
}
func (c *Cond) Signal() {
	verifsim.ReleaseMerge(unsafe.Pointer(c))
	c.sig(false)
	verifsim.Progress()
	verifsim.Y(-1)
}
func (c *Cond) Broadcast() {
	verifsim.ReleaseMerge(unsafe.Pointer(c))
	c.sig(true)
	verifsim.Progress()
	verifsim.Y(-1)
}

// Pool is last-in first-out; the simulator may drop objects, as the garbage
// collector does.
type Pool struct {
	New   func() any
	n     int
	items [64]any
	tok   [64]byte
}

//go:norace
func (p *Pool) pop() (any, int) {
	if p.n == 0 {
		return nil, 0
	}
	p.n--
	x := p.items[p.n]
	p.items[p.n] = nil
	return x, p.n
}

//go:norace
func (p *Pool) push(x any) {
	if p.n < len(p.items) {
		p.items[p.n] = x
		p.n++
	}
}

//go:norace
func (p *Pool) top() int {
	if p.n < len(p.items) {
		return p.n
	}
	return len(p.items) - 1
}

func (p *Pool) Get() any {
	verifsim.Y(-1)
	x, i := p.pop()
	if x != nil {
		verifsim.Acquire(unsafe.Pointer(&p.tok[i]))
		if !verifsim.PoolDrop() {
			return x
		}
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	verifsim.Y(-1)
	verifsim.ReleaseMerge(unsafe.Pointer(&p.tok[p.top()]))
	p.push(x)
}

// Map is sync.Map with a seeded Range order.
type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool) { verifsim.Y(-1); return m.m.Load(k) }
func (m *Map) Store(k, v any)         { verifsim.Y(-1); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	verifsim.Y(-1)
	return m.m.LoadOrStore(k, v)
}
func (m *Map) LoadAndDelete(k any) (any, bool) { verifsim.Y(-1); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                    { verifsim.Y(-1); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)       { verifsim.Y(-1); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool { verifsim.Y(-1); return m.m.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o any) bool  { verifsim.Y(-1); return m.m.CompareAndDelete(k, o) }
func (m *Map) Clear()                          { verifsim.Y(-1); m.m.Clear() }
func (m *Map) Range(f func(k, v any) bool) {
	verifsim.Y(-1)
	snap := map[any]any{}
	m.m.Range(func(k, v any) bool { snap[k] = v; return true })
	it, k := verifsim.R1(snap)
	for it.NextK(&k) {
		v, ok := m.m.Load(k)
		if ok && !f(k, v) {
			return
		}
	}
}
