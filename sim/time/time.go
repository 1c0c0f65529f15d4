// Package time is the simulated counterpart of the standard package: the clock
// and all timers belong to the simulator.
package time

import (
	"time"
	"unsafe"

	"trcsim/rt"
)

type (
	Time       = time.Time
	Duration   = time.Duration
	Location   = time.Location
	Month      = time.Month
	Weekday    = time.Weekday
	ParseError = time.ParseError
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour

	Layout      = time.Layout
	ANSIC       = time.ANSIC
	UnixDate    = time.UnixDate
	RubyDate    = time.RubyDate
	RFC822      = time.RFC822
	RFC822Z     = time.RFC822Z
	RFC850      = time.RFC850
	RFC1123     = time.RFC1123
	RFC1123Z    = time.RFC1123Z
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	Kitchen     = time.Kitchen
	Stamp       = time.Stamp
	StampMilli  = time.StampMilli
	StampMicro  = time.StampMicro
	StampNano   = time.StampNano
	DateTime    = time.DateTime
	DateOnly    = time.DateOnly
	TimeOnly    = time.TimeOnly

	January   = time.January
	February  = time.February
	March     = time.March
	April     = time.April
	May       = time.May
	June      = time.June
	July      = time.July
	August    = time.August
	September = time.September
	October   = time.October
	November  = time.November
	December  = time.December

	Sunday    = time.Sunday
	Monday    = time.Monday
	Tuesday   = time.Tuesday
	Wednesday = time.Wednesday
	Thursday  = time.Thursday
	Friday    = time.Friday
	Saturday  = time.Saturday
)

var (
	UTC   = time.UTC
	Local = time.Local
)

func Date(year int, month Month, day, hour, min, sec, nsec int, loc *Location) Time {
	return time.Date(year, month, day, hour, min, sec, nsec, loc)
}
func Unix(sec, nsec int64) Time                   { return time.Unix(sec, nsec) }
func UnixMilli(ms int64) Time                     { return time.UnixMilli(ms) }
func UnixMicro(us int64) Time                     { return time.UnixMicro(us) }
func Parse(layout, value string) (Time, error)    { return time.Parse(layout, value) }
func ParseDuration(s string) (Duration, error)    { return time.ParseDuration(s) }
func FixedZone(name string, off int) *Location    { return time.FixedZone(name, off) }
func LoadLocation(name string) (*Location, error) { return time.LoadLocation(name) }
func ParseInLocation(l, v string, loc *Location) (Time, error) {
	return time.ParseInLocation(l, v, loc)
}

// layout of time.Time, verified by init.
type rawTime struct {
	wall uint64
	ext  int64
	loc  *time.Location
}

const (
	hasMonotonic   = 1 << 63
	nsecShift      = 30
	wallToInternal = (1884*365 + 1884/4 - 1884/100 + 1884/400) * 86400
	unixToInternal = (1969*365 + 1969/4 - 1969/100 + 1969/400) * 86400
)

func make_(wallNs, mono int64) Time {
	var t Time
	r := (*rawTime)(unsafe.Pointer(&t))
	sec := wallNs / 1e9
	nsec := wallNs % 1e9
	if nsec < 0 {
		nsec += 1e9
		sec--
	}
	s := sec + unixToInternal - wallToInternal
	if s < 0 || s>>33 != 0 {
		return time.Unix(sec, nsec)
	}
	r.wall = hasMonotonic | uint64(s)<<nsecShift | uint64(nsec)
	r.ext = mono
	r.loc = time.Local
	return t
}

func init() {
	time.Local = time.UTC
	a, b := make_(1704164645123456789, 5), make_(1704164000000000000, 1005)
	if a.UnixNano() != 1704164645123456789 || b.Sub(a) != 1000 || unsafe.Sizeof(rawTime{}) != unsafe.Sizeof(Time{}) {
		panic("sim: unexpected layout of time.Time")
	}
}

// Now reads the simulated clock.
func Now() Time {
	rt.SyncPoint(40)
	w, m := rt.ReadClock()
	return make_(w, m)
}

// Peek reads the simulated clock without disturbing it.
func Peek() Time { return make_(rt.Wall(), rt.Mono()+1) }

func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }

func Sleep(d Duration) {
	if d <= 0 {
		rt.SyncPoint(41)
		return
	}
	rt.Sleep(int64(d))
}

func tick(c chan Time) {
	select {
	case c <- Peek():
	default:
	}
}

// Timer is a simulated timer.
type Timer struct {
	C <-chan Time
	c chan Time
	f func()
	t *rt.Timer
}

func (t *Timer) start(d Duration) {
	if t.f != nil {
		f := t.f
		t.t = rt.AddTimer(int64(d), func() { rt.Spawn("timer", false, f).Sys = true })
		return
	}
	c := t.c
	t.t = rt.AddTimer(int64(d), func() {
		rt.RaceIgnore(func() { tick(c) })
	})
}

func NewTimer(d Duration) *Timer {
	c := rt.Reg(make(chan Time, 1))
	t := &Timer{C: c, c: c}
	t.start(d)
	return t
}

func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}

func After(d Duration) <-chan Time { return NewTimer(d).C }

func (t *Timer) Stop() bool {
	if t.t == nil {
		panic("time: Stop called on uninitialized Timer")
	}
	r := t.t.Stop()
	rt.SyncPoint(42)
	if t.c != nil { // go1.23 semantics: no stale value after Stop
		select {
		case <-t.c:
			r = true
		default:
		}
	}
	return r
}

func (t *Timer) Reset(d Duration) bool {
	r := t.Stop()
	t.start(d)
	return r
}

// Ticker is a simulated ticker.
type Ticker struct {
	C <-chan Time
	c chan Time
	d Duration
	t *rt.Timer
	x bool
}

func (t *Ticker) arm() {
	t.t = rt.AddTimer(int64(t.d), func() {
		rt.RaceIgnore(func() { tick(t.c) })
		if !t.x {
			t.arm()
		}
	})
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := rt.Reg(make(chan Time, 1))
	t := &Ticker{C: c, c: c, d: d}
	t.arm()
	rt.Count("tickers.started", 1)
	return t
}

func (t *Ticker) Stop() {
	t.x = true
	t.t.Stop()
	rt.SyncPoint(43)
	select {
	case <-t.c:
	default:
	}
}

func (t *Ticker) Reset(d Duration) {
	if d <= 0 {
		panic("non-positive interval for Ticker.Reset")
	}
	t.t.Stop()
	t.d = d
	t.x = false
	t.arm()
}

func Tick(d Duration) <-chan Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
