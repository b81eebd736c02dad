//go:build go1.21

// Package verifsim is the deterministic scheduler every instrumented statement
// of the code under test reports to. Exactly one task runs at a time; which one
// is decided here, from one seed. All functions that touch scheduler state are
// go:norace and avoid maps, append and locks, so that the hand-off from one task
// to the next is invisible to the race detector: only synchronisation the code
// under test performs itself orders its memory accesses.
package verifsim

import (
	"fmt"
	"runtime"
	"sync"
	"unsafe"
)

const (
	MaxTasks = 1024
	fewTasks = 48 // finished slots are used again from here on
	maxLog   = 1 << 15
	MaxSites = 1 << 16
)

const (
	stFree = iota
	stReady
	stWaiting  // polling for a lock or condition
	stSleeping // simulated sleep
	stBlocked  // blocked in a real channel operation
	stDone
)

type Preempt struct {
	Task int32 // task that had the turn
	Step int64 // its local step count
	To   int32 // task that got the turn
	Kind int32 // 0 preemption, 1 blocked, 2 ended, 3 start
	Site int32 // statement at which it happened
}

type task struct {
	state  int32
	root   bool
	exit   bool
	stamp  int64
	wakeAt int64
	local  int64
	prio   uint64
	goid   int64
	gen    int64
	gate   bool
	cursor int // replay cursor
	lastS  int32
}

// Config of one simulated run.
type Config struct {
	Seed      uint64
	Mode      string // "canonical", "walk", "pct", "sites", "rr", "sync", "replay"
	P         float64
	Depth     int
	Horizon   int64
	StepLimit int64
	Grace     int64 // simulated time timers get after the last call has returned; 0 = no limit
	Pre       []Preempt
	MapMode   int // 0 sorted, 1 reverse, 2 seeded
	MapSeed   uint64
	PoolDrop  float64
	ClockJump float64
	RandSeed  uint64
	ClockBase int64
}

// Result of one simulated run.
type Result struct {
	Steps     int64
	MaxGap    int64 // most steps between two completed calls
	Switches  int64
	Log       []Preempt
	Truncated bool
	Verdict   string // "", "deadlock", "no-progress"
	Elapsed   int64  // simulated time
	LogHash   uint64
	ChanBlock int64
	Waits     int64
	Leaked    int // tasks the code under test started and that never ended
	Spawned   int
	MapIters  int64
	PoolDrops int64
	Jumps     int64
	RandDraws int64
	Crash     string
}

var (
	tasks    [MaxTasks]task
	ntasks   int32
	cur      int32 = -1
	active   bool
	aborting bool
	verdict  int32
	needPick bool
	pickFrom int32
	pickKind int32

	steps, switches, progress, now, stepLimit, chanBlocks, waits int64
	began, mark, maxGap, grace, endAt                            int64
	nBlocked, rootsLeft, spawned                                 int32
	lost                                                         int32 // goroutines given up on: they never came back
	overtime                                                     bool
	endSteps                                                     int64
	rng                                                          uint64
	mode                                                         int32
	pThresh                                                      uint64
	changes                                                      [64]int64
	nchanges                                                     int
	sitemask                                                     [MaxSites / 64]uint64
	rrQuantum                                                    int64

	logBuf  [maxLog]Preempt
	nlog    int
	logHash uint64
	preBuf  [maxLog]Preempt
	npre    int

	Covered [MaxSites]bool

	mapMode   int
	mapRng    uint64
	mapIters  int64
	poolP     uint64
	poolRng   uint64
	poolDrops int64
	jumpP     uint64
	jumpRng   uint64
	jumps     int64

	wg sync.WaitGroup
)

const (
	mCanon = iota
	mWalk
	mPct
	mSites
	mRR
	mReplay
	mSync
)

//go:norace
func splitmix(s *uint64) uint64 {
	*s += 0x9e3779b97f4a7c15
	z := *s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Active reports whether a simulated run is in progress.
//
//go:norace
func Active() bool { return active && !aborting }

// Steps returns the number of yields so far in this run.
//
//go:norace
func Steps() int64 { return steps }

// Now is the simulated clock in nanoseconds.
//
//go:norace
func Now() int64 { return now }

// Mark notes that a call of the workload has completed: the step limit bounds
// the steps taken since.
//
//go:norace
func Mark() {
	if steps-mark > maxGap {
		maxGap = steps - mark
	}
	mark = steps
}

// Seq returns a strictly increasing event number.
//
//go:norace
func Seq() int64 { steps++; return steps }

//go:norace
func whoami() int32 {
	if nBlocked == 0 && lost == 0 {
		return cur
	}
	if i := self(); i >= 0 || lost == 0 {
		return i
	}
	// a goroutine of an earlier execution, back from where it was stuck
	runtime.Goexit()
	return -1
}

//go:norace
func self() int32 {
	id := goid()
	for i := int32(0); i < ntasks; i++ {
		if tasks[i].state != stDone && tasks[i].goid == id {
			return i
		}
	}
	return -1
}

// parked keeps a goroutine that comes back from a real blocking operation
// between two runs until the next one.
//
//go:norace
func parked() {
	me := self()
	if me >= 0 && tasks[me].state == stBlocked {
		tasks[me].state = stReady
		nBlocked--
		waitTurn(me)
	}
}

//go:norace
func goid() int64 {
	var b [40]byte
	n := runtime.Stack(b[:], false)
	// "goroutine 123 ["
	var v int64
	for i := 10; i < n && b[i] >= '0' && b[i] <= '9'; i++ {
		v = v*10 + int64(b[i]-'0')
	}
	return v
}

// Y is called before every statement of the code under test.
//
//go:norace
func Y(site int32) {
	if !active {
		if site >= 0 {
			Covered[site] = true
		}
		if nBlocked == 0 {
			return
		}
		parked()
		if !active {
			return
		}
	}
	yield(site)
}

//go:norace
func yield(site int32) {
	me := whoami()
	if me < 0 {
		return
	}
	t := &tasks[me]
	if aborting {
		if !t.exit {
			t.exit = true
			runtime.Goexit()
		}
		return
	}
	if t.state == stBlocked {
		// back from a real channel operation: wait for the turn
		t.state = stReady
		nBlocked--
		waitTurn(me)
	}
	if site >= 0 {
		Covered[site] = true
	}
	t.lastS = site
	t.local++
	steps++
	progress++
	now += 100
	if jumpP != 0 && splitmix(&jumpRng) < jumpP {
		now += int64(splitmix(&jumpRng) % 3600_000_000_000)
		jumps++
	}
	limits(me, t)
	to := decide(me, t, site)
	if to == me || to < 0 {
		return
	}
	record(me, t.local, to, 0, site)
	hand(me, to)
}

// limits ends a run that takes too long, and the time background tasks have
// after the last call has returned.
//
//go:norace
func limits(me int32, t *task) {
	if rootsLeft <= 0 {
		if steps-endSteps > 20000 {
			overtime = true
			cur = -1
			waitTurn(me)
		}
		return
	}
	if steps-mark > stepLimit {
		verdict = 2
		abort()
		t.exit = true
		runtime.Goexit()
	}
}

//go:norace
func hand(me, to int32) {
	switches++
	if nBlocked > 0 {
		// the monitor settles blocked tasks first, then gives the turn
		pickFrom, pickKind = to, -1
		cur = -1
		needPick = true
	} else {
		cur = to
	}
	waitTurn(me)
}

//go:norace
func waitTurn(me int32) {
	for cur != me {
		if aborting {
			t := &tasks[me]
			if !t.exit {
				t.exit = true
				runtime.Goexit()
			}
			return
		}
		runtime.Gosched()
	}
	if tasks[me].state != stReady && tasks[me].state != stDone {
		tasks[me].state = stReady
	}
}

//go:norace
func record(me int32, local int64, to int32, kind int32, site int32) {
	logHash = (logHash^uint64(me+1))*0x100000001b3 ^ uint64(site+2)
	logHash = (logHash^uint64(to+1))*0x100000001b3 ^ uint64(local)
	if nlog < maxLog {
		logBuf[nlog] = Preempt{me, local, to, kind, site}
	}
	nlog++
}

//go:norace
func eligible(i int32) bool {
	t := &tasks[i]
	switch t.state {
	case stReady:
		return true
	case stWaiting:
		return t.stamp < progress
	case stSleeping:
		return t.wakeAt <= now
	}
	return false
}

// decide returns the task that runs next at a voluntary yield.
//
//go:norace
func decide(me int32, t *task, site int32) int32 {
	switch mode {
	case mCanon:
		return me
	case mReplay:
		return replayNext(me, t, 0)
	case mWalk:
		if splitmix(&rng) >= pThresh {
			return me
		}
	case mSites:
		s := site
		if s < 0 {
			s = 0
		}
		if sitemask[s/64]&(1<<(uint(s)%64)) == 0 {
			return me
		}
		if splitmix(&rng) >= pThresh {
			return me
		}
	case mSync:
		// mostly at synchronisation operations, rarely elsewhere
		if site < 0 {
			if splitmix(&rng) >= pThresh {
				return me
			}
		} else if splitmix(&rng) >= pThresh>>7 {
			return me
		}
	case mRR:
		if t.local%rrQuantum != 0 {
			return me
		}
	case mPct:
		for i := 0; i < nchanges; i++ {
			if changes[i] == steps {
				t.prio = uint64(nchanges - i) // below every initial priority
			}
		}
		return highest()
	}
	return randomOther(me)
}

//go:norace
func highest() int32 {
	best := int32(-1)
	var bp uint64
	for i := int32(0); i < ntasks; i++ {
		if eligible(i) && (best < 0 || tasks[i].prio > bp) {
			best, bp = i, tasks[i].prio
		}
	}
	return best
}

//go:norace
func randomOther(me int32) int32 {
	n := uint64(0)
	for i := int32(0); i < ntasks; i++ {
		if i != me && eligible(i) {
			n++
		}
	}
	if n == 0 {
		return me
	}
	k := splitmix(&rng) % n
	for i := int32(0); i < ntasks; i++ {
		if i != me && eligible(i) {
			if k == 0 {
				return i
			}
			k--
		}
	}
	return me
}

//go:norace
func replayNext(me int32, t *task, kind int32) int32 {
	for i := t.cursor; i < npre; i++ {
		p := &preBuf[i]
		if p.Task != me {
			continue
		}
		if p.Step < t.local {
			t.cursor = i + 1
			continue
		}
		if p.Step == t.local && (p.Kind == 0) == (kind == 0) {
			t.cursor = i + 1
			if p.To >= 0 && p.To < ntasks && eligible(p.To) {
				return p.To
			}
			return -1
		}
		break
	}
	if kind == 0 {
		return me
	}
	return -1
}

// pick chooses the next task at a forced switch. Runs on whichever goroutine
// currently owns the scheduler state.
//
//go:norace
func pick(from int32, kind int32) int32 {
	var to int32 = -1
	if mode == mReplay && from >= 0 {
		to = replayNext(from, &tasks[from], kind)
	}
	if to < 0 {
		switch mode {
		case mPct:
			to = highest()
		case mCanon, mReplay, mRR:
			for i := int32(1); i <= ntasks; i++ {
				j := (from + i) % ntasks
				if j < 0 {
					j += ntasks
				}
				if mode != mRR {
					j = i - 1
				}
				if j != from && eligible(j) {
					to = j
					break
				}
			}
			if to < 0 && from >= 0 && eligible(from) {
				to = from
			}
		default:
			to = randomOther(from)
			if to == from && (from < 0 || !eligible(from)) {
				to = -1
			}
		}
	}
	if to < 0 {
		// nothing runnable: jump the clock to the next sleeper
		for i := int32(0); i < ntasks; i++ {
			if tasks[i].state == stSleeping && (to < 0 || tasks[i].wakeAt < tasks[to].wakeAt) {
				to = i
			}
		}
		if to >= 0 && tasks[to].wakeAt > now {
			if rootsLeft <= 0 && grace > 0 {
				// the calls have returned: how long are their timers waited for?
				if endAt < 0 {
					endAt = now
				}
				if tasks[to].wakeAt-endAt > grace {
					return -1
				}
			}
			now = tasks[to].wakeAt
		}
	}
	return to
}

// Block parks the current task until some other task has made progress. It
// returns false when no simulated run is in progress.
//
//go:norace
func Block() bool {
	if !active {
		return false
	}
	if aborting {
		runtime.Goexit()
	}
	me := whoami()
	if me < 0 {
		return false
	}
	t := &tasks[me]
	if t.state == stBlocked {
		t.state = stReady
		nBlocked--
		waitTurn(me)
	}
	t.local++
	steps++
	waits++
	limits(me, t)
	t.state = stWaiting
	t.stamp = progress
	forced(me, 1)
	return true
}

// Sleep parks the current task for d simulated nanoseconds.
//
//go:norace
func Sleep(d int64) bool {
	if !active {
		return false
	}
	me := whoami()
	if me < 0 || aborting {
		return false
	}
	t := &tasks[me]
	t.local++
	steps++
	progress++
	limits(me, t)
	t.state = stSleeping
	t.wakeAt = now + d
	forced(me, 1)
	return true
}

// Wake ends the sleep of a task the simulator started.
//
//go:norace
func (t T) Wake() {
	if t.id >= 0 && t.gen == tasks[t.id].gen && tasks[t.id].state == stSleeping && tasks[t.id].wakeAt > now {
		tasks[t.id].wakeAt = now
		progress++
	}
}

//go:norace
func forced(me int32, kind int32) {
	t := &tasks[me]
	if nBlocked > 0 {
		pickFrom, pickKind = me, kind
		cur = -1
		needPick = true
		waitTurn(me)
		return
	}
	to := pick(me, kind)
	if to == me {
		t.state = stReady
		return
	}
	if to < 0 {
		if rootsLeft <= 0 {
			// every call has returned and nothing is left that can run
			cur = -1
			waitTurn(me)
			return
		}
		verdict = 1
		abort()
		t.exit = true
		runtime.Goexit()
	}
	record(me, t.local, to, kind, t.lastS)
	switches++
	cur = to
	waitTurn(me)
}

//go:norace
func abort() {
	aborting = true
}

// Progress tells waiting tasks to look again.
//
//go:norace
func Progress() { progress++ }

//go:norace
func taskEnd(me int32) {
	t := &tasks[me]
	if t.state == stBlocked {
		nBlocked--
		t.state = stReady
		if !aborting {
			waitTurn(me)
		}
	}
	t.state = stDone
	progress++
	if t.root {
		rootsLeft--
		endSteps = steps
	}
	if aborting {
		return
	}
	if nBlocked > 0 {
		pickFrom, pickKind = me, 2
		cur = -1
		needPick = true
		return
	}
	to := pick(me, 2)
	if to >= 0 && to != me {
		record(me, t.local, to, 2, t.lastS)
		switches++
		cur = to
		return
	}
	cur = -1
}

//go:norace
func newTask(root bool) int32 {
	gens++
	if ntasks >= fewTasks {
		// reuse a finished slot
		for i := int32(0); i < ntasks; i++ {
			if tasks[i].state == stDone && !tasks[i].root {
				p := tasks[i].prio
				tasks[i] = task{state: stReady, root: root, prio: p, cursor: tasks[i].cursor, gen: gens}
				return i
			}
		}
	}
	if ntasks >= MaxTasks {
		panic("verifsim: too many tasks")
	}
	id := ntasks
	tasks[id] = task{state: stReady, root: root, prio: 1000 + splitmix(&rng)%1_000_000, lastS: -1, gen: gens}
	ntasks++
	return id
}

// T is a handle for a goroutine started by the code under test.
type T struct {
	id  int32
	gen int64
}

var gens int64

// NewT registers a task for a goroutine about to be started.
//
//go:norace
func NewT() T {
	if !active || aborting {
		lost++
		return T{-1, 0}
	}
	spawned++
	id := newTask(false)
	return T{id, gens}
}

// Start is the first call in a goroutine started by the code under test.
//
//go:norace
func (t T) Start() {
	if t.id < 0 {
		return
	}
	tasks[t.id].goid = goid()
	tasks[t.id].gate = true
	waitTurn(t.id)
}

// End is deferred in a goroutine started by the code under test. A panic that
// reaches it would have killed the process.
//
//go:norace
func (t T) End() {
	if t.id < 0 || tasks[t.id].gen != t.gen {
		lost--
		return
	}
	if r := recover(); r != nil {
		if crashVal == nil {
			crashVal = r
		}
		abort()
	}
	ReleaseMerge(unsafe.Pointer(&ended))
	taskEnd(t.id)
}

// ended orders whatever the tasks of a process did before the next process.
var ended int64

var crashVal any
var leaked int

// Go runs f as a new task.
func Go(f func()) T {
	t := NewT()
	go func() {
		t.Start()
		defer t.End()
		f()
	}()
	return t
}

func Bind0(f func()) func()                                    { return f }
func Bind1[A any](f func(A), a A) func()                       { return func() { f(a) } }
func Bind2[A, B any](f func(A, B), a A, b B) func()            { return func() { f(a, b) } }
func Bind3[A, B, C any](f func(A, B, C), a A, b B, c C) func() { return func() { f(a, b, c) } }
func Bind4[A, B, C, D any](f func(A, B, C, D), a A, b B, c C, d D) func() {
	return func() { f(a, b, c, d) }
}

//go:norace
func setup(c *Config, n int) {
	keep()
	cur = -1
	aborting = false
	verdict = 0
	crashVal = nil
	needPick = false
	steps, switches, progress, chanBlocks, waits = 0, 0, 0, 0, 0
	mark, maxGap = 0, 0
	grace, endAt = c.Grace, -1
	stuck = false
	rootsLeft, spawned, overtime, endSteps = 0, 0, false, 0
	nlog, logHash = 0, 0xcbf29ce484222325
	rng = c.Seed*2654435761 + 12345
	stepLimit = c.StepLimit
	if stepLimit == 0 {
		stepLimit = 2_000_000
	}
	pThresh = frac(c.P)
	switch c.Mode {
	case "walk":
		mode = mWalk
	case "pct":
		mode = mPct
	case "sites":
		mode = mSites
	case "sync":
		mode = mSync
	case "rr":
		mode = mRR
	case "replay":
		mode = mReplay
	default:
		mode = mCanon
	}
	nchanges = 0
	if mode == mPct {
		h := uint64(c.Horizon)
		if h == 0 {
			h = 1000
		}
		for i := 0; i < c.Depth && i < len(changes); i++ {
			changes[i] = int64(splitmix(&rng)%h) + 1
			nchanges++
		}
	}
	if mode == mSites {
		for i := range sitemask {
			v := splitmix(&rng)
			for k := 0; k < c.Depth; k++ {
				v &= splitmix(&rng)
			}
			sitemask[i] = v
		}
	}
	rrQuantum = int64(c.Depth) + 1
	npre = 0
	for i := range c.Pre {
		if npre >= maxLog {
			break
		}
		preBuf[npre] = c.Pre[i]
		npre++
	}
	SetEnv(c)
	began = now
	for i := int32(0); i < ntasks; i++ {
		tasks[i].prio = 1000 + splitmix(&rng)%1_000_000
	}
	for i := 0; i < n; i++ {
		roots[i] = newTask(true)
		rootsLeft++
	}
}

var roots [MaxTasks]int32

// keep prepares the tasks an earlier run of the same process left behind, such as
// the workers of a pool, for the next run.
//
//go:norace
func keep() {
	left := false
	for i := int32(0); i < ntasks; i++ {
		t := &tasks[i]
		t.root = false
		t.cursor = 0
		t.local = 0
		t.stamp = -1
		left = left || t.state != stDone
	}
	if !left {
		ntasks = 0
	}
}

// SetEnv installs the sources of nondeterminism other than the schedule.
//
//go:norace
func SetEnv(c *Config) {
	mapMode = c.MapMode
	mapRng = c.MapSeed ^ 0x5bd1e995
	mapIters = 0
	poolP = frac(c.PoolDrop)
	poolRng = c.RandSeed ^ 0x1234567
	poolDrops = 0
	jumpP = frac(c.ClockJump)
	jumpRng = c.RandSeed ^ 0x777
	jumps = 0
	if now < c.ClockBase {
		now = c.ClockBase
	}
	randRng = c.RandSeed ^ 0x9d2c5680
	hostSeed = c.RandSeed
	randDraws = 0
}

var randRng uint64
var randDraws int64

// Rand is the simulated source of random numbers.
//
//go:norace
func Rand() uint64 { randDraws++; return splitmix(&randRng) }

//go:norace
func frac(p float64) uint64 {
	if p <= 0 {
		return 0
	}
	if p >= 1 {
		return ^uint64(0)
	}
	return uint64(p * float64(1<<63) * 2)
}

//go:norace
func begin() {
	active = true
	t := pick(-1, 3)
	record(-1, 0, t, 3, -1)
	cur = t
}

// Run executes the given tasks under the scheduler until all have ended.
func Run(c Config, fns []func()) Result {
	setup(&c, len(fns))
	wg.Add(len(fns))
	for i, f := range fns {
		i, f := roots[i], f
		go func() {
			defer wg.Done()
			defer taskEnd(i)
			rootStart(i)
			f()
		}()
	}
	for !allGated(len(fns)) {
		runtime.Gosched()
	}
	begin()
	monitor()
	leaked = 0
	for i := int32(0); i < ntasks; i++ {
		if !tasks[i].root && tasks[i].state != stDone {
			leaked++
		}
	}
	// end of run: every root task has ended or is being aborted
	finish()
	if !stuckRoots() {
		wg.Wait()
	} else {
		wg = sync.WaitGroup{}
	}
	return result()
}

//go:norace
func rootStart(i int32) {
	tasks[i].goid = goid()
	tasks[i].gate = true
	waitTurn(i)
}

//go:norace
func allGated(n int) bool {
	for i := 0; i < n; i++ {
		if !tasks[roots[i]].gate {
			return false
		}
	}
	return true
}

//go:norace
func stuckRoots() bool { return stuck }

var stuck bool // a root never came back

//go:norace
func result() Result {
	var crash string
	if crashVal != nil {
		crash = fmt.Sprint(crashVal)
	}
	r := Result{Crash: crash, Steps: steps, MaxGap: maxGap, Switches: switches, Elapsed: now - began, LogHash: logHash, ChanBlock: chanBlocks, Waits: waits,
		Spawned: int(spawned), MapIters: mapIters, PoolDrops: poolDrops, Jumps: jumps, RandDraws: randDraws}
	n := nlog
	if n > maxLog {
		n = maxLog
		r.Truncated = true
	}
	r.Log = make([]Preempt, n)
	for i := 0; i < n; i++ {
		r.Log[i] = logBuf[i]
	}
	switch verdict {
	case 1:
		r.Verdict = "deadlock"
	case 2:
		r.Verdict = "no-progress"
	}
	r.Leaked = leaked
	return r
}

// monitor runs on the simulator's own goroutine. It settles tasks blocked in
// real channel operations and detects the end of the run.
//
//go:norace
func monitor() {
	var lastSteps int64 = -1
	var lastCur int32 = -2
	same := 0
	for {
		runtime.Gosched()
		if aborting {
			return
		}
		if cur == -1 {
			if overtime {
				return
			}
			if needPick {
				needPick = false
				if !settle() {
					continue
				}
				var to int32
				if pickKind == -1 {
					to = pickFrom
					if to >= 0 && eligible(to) {
						cur = to
						continue
					}
					to = pick(-1, 1)
				} else {
					to = pick(pickFrom, pickKind)
					if to >= 0 && pickFrom >= 0 && to != pickFrom {
						record(pickFrom, tasks[pickFrom].local, to, pickKind, tasks[pickFrom].lastS)
						switches++
					}
				}
				if to >= 0 {
					cur = to
					continue
				}
			}
			if rootsLeft <= 0 {
				return
			}
			// nothing runnable
			if nBlocked > 0 {
				if !settle() {
					continue
				}
			}
			to := pick(-1, 1)
			if to >= 0 {
				cur = to
				continue
			}
			verdict = 1
			abort()
			return
		}
		if steps == lastSteps && cur == lastCur {
			same++
			if same > 200 {
				same = 0
				c := cur
				if c >= 0 && steps == lastSteps && blockedState(tasks[c].goid) && cur == c {
					tasks[c].state = stBlocked
					nBlocked++
					chanBlocks++
					pickFrom, pickKind = c, 1
					needPick = true
					cur = -1
				}
			}
		} else {
			same = 0
			lastSteps, lastCur = steps, cur
		}
	}
}

// settle waits until every task marked blocked really is parked in the runtime
// or has come back to a yield.
//
//go:norace
func settle() bool {
	for round := 0; ; round++ {
		if aborting {
			return false
		}
		again := false
		for i := int32(0); i < ntasks; i++ {
			if tasks[i].state == stBlocked && !blockedState(tasks[i].goid) {
				again = true
			}
		}
		if !again {
			return true
		}
		runtime.Gosched()
	}
}

// blockedState looks the goroutine up in a stack dump and says whether it is
// parked.
//
//go:norace
func blockedState(id int64) bool {
	n := runtime.Stack(stackBuf[:], true)
	i := 0
	for i < n {
		// at the start of a goroutine header
		if n-i > 10 && stackBuf[i] == 'g' && stackBuf[i+9] == ' ' {
			j := i + 10
			var v int64
			for j < n && stackBuf[j] >= '0' && stackBuf[j] <= '9' {
				v = v*10 + int64(stackBuf[j]-'0')
				j++
			}
			if v == id && j+2 < n {
				// " [state"
				c := stackBuf[j+2]
				d := stackBuf[j+3]
				if c == 'r' && d == 'u' { // running, runnable
					return false
				}
				return true
			}
		}
		// skip to next blank line
		for i+1 < n && !(stackBuf[i] == '\n' && stackBuf[i+1] == '\n') {
			i++
		}
		i += 2
	}
	return false
}

var stackBuf [1 << 22]byte

// finish ends a run. Tasks the code under test started and that have not ended
// stay for the next run of the same process, unless this one went wrong.
//
//go:norace
func finish() {
	if aborting {
		kill()
	}
	active = false
}

// kill makes every task end.
//
//go:norace
func kill() {
	aborting = true
	for r := 0; r < 2000; r++ {
		left := false
		for i := int32(0); i < ntasks; i++ {
			if tasks[i].state != stDone && tasks[i].state != stBlocked {
				left = true
			}
		}
		if !left {
			break
		}
		runtime.Gosched()
	}
	for i := int32(0); i < ntasks; i++ {
		if tasks[i].state != stDone {
			lost++
			stuck = stuck || tasks[i].root
		}
	}
	ntasks, nBlocked = 0, 0
	forgetWaiters()
}

// EndProcess ends whatever the last runs left behind.
//
//go:norace
func EndProcess() {
	active = true
	kill()
	active, aborting = false, false
	Acquire(unsafe.Pointer(&ended))
	now = 0
}
