//go:build go1.21

// Package simtime replaces package time in the code under test: the clock and
// every timer are simulated.
package simtime

import (
	"time"

	"VERIFMOD/verifsim"
)

type (
	Duration   = time.Duration
	Time       = time.Time
	Month      = time.Month
	Weekday    = time.Weekday
	Location   = time.Location
	ParseError = time.ParseError
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour

	Layout      = time.Layout
	ANSIC       = time.ANSIC
	UnixDate    = time.UnixDate
	RubyDate    = time.RubyDate
	RFC822      = time.RFC822
	RFC822Z     = time.RFC822Z
	RFC850      = time.RFC850
	RFC1123     = time.RFC1123
	RFC1123Z    = time.RFC1123Z
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	Kitchen     = time.Kitchen
	Stamp       = time.Stamp
	StampMilli  = time.StampMilli
	StampMicro  = time.StampMicro
	StampNano   = time.StampNano
	DateTime    = time.DateTime
	DateOnly    = time.DateOnly
	TimeOnly    = time.TimeOnly

	January   = time.January
	February  = time.February
	March     = time.March
	April     = time.April
	May       = time.May
	June      = time.June
	July      = time.July
	August    = time.August
	September = time.September
	October   = time.October
	November  = time.November
	December  = time.December

	Sunday    = time.Sunday
	Monday    = time.Monday
	Tuesday   = time.Tuesday
	Wednesday = time.Wednesday
	Thursday  = time.Thursday
	Friday    = time.Friday
	Saturday  = time.Saturday
)

var (
	UTC   = time.UTC
	Local = time.UTC
)

var epoch = time.Unix(1_700_000_000, 0).UTC()

func Now() Time              { verifsim.Y(-1); return epoch.Add(Duration(verifsim.Now())) }
func Since(t Time) Duration  { return Now().Sub(t) }
func Until(t Time) Duration  { return t.Sub(Now()) }
func Sleep(d Duration)       { verifsim.Sleep(int64(d)) }
func Unix(s, n int64) Time   { return time.Unix(s, n) }
func UnixMilli(m int64) Time { return time.UnixMilli(m) }
func UnixMicro(m int64) Time { return time.UnixMicro(m) }
func Parse(l, v string) (Time, error) {
	return time.Parse(l, v)
}
func ParseInLocation(l, v string, loc *Location) (Time, error) {
	return time.ParseInLocation(l, v, loc)
}
func ParseDuration(s string) (Duration, error)    { return time.ParseDuration(s) }
func FixedZone(name string, off int) *Location    { return time.FixedZone(name, off) }
func LoadLocation(name string) (*Location, error) { return time.LoadLocation(name) }
func Date(y int, m Month, d, h, mi, s, n int, l *Location) Time {
	return time.Date(y, m, d, h, mi, s, n, l)
}

// alarm is what the task of a timer shares with the callers; every start of the
// timer is a new task, and only the one of the last start may fire.
type alarm struct {
	gen    int64
	live   bool
	period Duration // of a ticker
	task   verifsim.T
}

//go:norace
func (a *alarm) bump(live bool) (gen int64, was bool) {
	was = a.live
	a.gen++
	a.live = live
	if was {
		a.task.Wake()
	}
	return a.gen, was
}

//go:norace
func (a *alarm) fire(g int64) bool {
	if a.gen != g || !a.live {
		return false
	}
	a.live = a.period > 0
	return true
}

//go:norace
func (a *alarm) by(t verifsim.T) { a.task = t }

//go:norace
func (a *alarm) every(d Duration) { a.period = d }

func (a *alarm) start(d Duration, f func()) bool {
	g, was := a.bump(true)
	a.by(verifsim.Go(func() {
		for {
			if !verifsim.Sleep(int64(d)) || !a.fire(g) {
				return
			}
			f()
			if d = a.again(); d <= 0 {
				return
			}
		}
	}))
	return was
}

//go:norace
func (a *alarm) again() Duration { return a.period }

func tell(c chan Time) func() {
	return func() { verifsim.Select(true, verifsim.SendCase[Time](c)(Now())) }
}

type Timer struct {
	C <-chan Time
	a *alarm
	f func()
}

func newTimer(d Duration, c chan Time, f func()) *Timer {
	t := &Timer{C: c, a: new(alarm), f: f}
	t.a.start(d, f)
	return t
}

func (t *Timer) Stop() bool {
	verifsim.Y(-1)
	_, was := t.a.bump(false)
	return was
}

func (t *Timer) Reset(d Duration) bool {
	verifsim.Y(-1)
	return t.a.start(d, t.f)
}

func NewTimer(d Duration) *Timer {
	c := make(chan Time, 1)
	return newTimer(d, c, tell(c))
}
func AfterFunc(d Duration, f func()) *Timer { return newTimer(d, nil, f) }
func After(d Duration) <-chan Time          { return NewTimer(d).C }

type Ticker struct {
	C <-chan Time
	a *alarm
	f func()
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan Time, 1)
	t := &Ticker{C: c, a: new(alarm), f: tell(c)}
	t.a.every(d)
	t.a.start(d, t.f)
	return t
}

func (t *Ticker) Stop() { verifsim.Y(-1); t.a.bump(false) }
func (t *Ticker) Reset(d Duration) {
	if d <= 0 {
		panic("non-positive interval for Ticker.Reset")
	}
	verifsim.Y(-1)
	t.a.every(d)
	t.a.start(d, t.f)
}

func Tick(d Duration) <-chan Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
