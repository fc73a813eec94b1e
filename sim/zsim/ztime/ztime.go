// Package time is the simulator's stand-in: the clock is the simulated one
// and timers are simulated events.
package time

import (
	r "time"

	"JXLMOD/zsim/rt"
)

type (
	Duration   = r.Duration
	Time       = r.Time
	Month      = r.Month
	Weekday    = r.Weekday
	Location   = r.Location
	ParseError = r.ParseError
)

const (
	Nanosecond  = r.Nanosecond
	Microsecond = r.Microsecond
	Millisecond = r.Millisecond
	Second      = r.Second
	Minute      = r.Minute
	Hour        = r.Hour
	RFC3339     = r.RFC3339
	RFC3339Nano = r.RFC3339Nano
	RFC1123     = r.RFC1123
	Kitchen     = r.Kitchen
	DateTime    = r.DateTime
	DateOnly    = r.DateOnly
	TimeOnly    = r.TimeOnly
)

var (
	UTC   = r.UTC
	Local = r.UTC
)

func Now() Time {
	if !rt.Active() {
		return r.Unix(1700000000, 0).UTC()
	}
	return r.Unix(1700000000, rt.Now()).UTC()
}
func Since(t Time) Duration                    { return Now().Sub(t) }
func Until(t Time) Duration                    { return t.Sub(Now()) }
func Sleep(d Duration)                         { rt.Sleep(int64(d)) }
func Unix(s, n int64) Time                     { return r.Unix(s, n) }
func UnixMilli(m int64) Time                   { return r.UnixMilli(m) }
func ParseDuration(s string) (Duration, error) { return r.ParseDuration(s) }
func Parse(l, v string) (Time, error)          { return r.Parse(l, v) }
func Date(y int, m Month, d, h, mi, s, n int, loc *Location) Time {
	return r.Date(y, m, d, h, mi, s, n, loc)
}

type Timer struct {
	C    <-chan Time
	c    chan Time
	f    func()
	gen  int
	live bool
}

//go:norace
func (t *Timer) start(d Duration) {
	t.gen++
	g := t.gen
	t.live = true
	rt.GoClient(func() { t.wait(g, d) })
}

//go:norace
func (t *Timer) wait(g int, d Duration) {
	rt.SetOp(-1)
	rt.Sleep(int64(d))
	if t.gen != g || !t.live {
		return
	}
	t.live = false
	if t.f != nil {
		rt.Go(t.f)
		return
	}
	rt.Select(true, rt.SendCase(t.c)(Now()))
}

func NewTimer(d Duration) *Timer {
	t := &Timer{c: make(chan Time, 1)}
	t.C = t.c
	t.start(d)
	return t
}
func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}
func After(d Duration) <-chan Time { return NewTimer(d).C }

//go:norace
func (t *Timer) Stop() bool { o := t.live; t.live = false; return o }

//go:norace
func (t *Timer) Reset(d Duration) bool { o := t.live; t.start(d); return o }

type Ticker struct {
	C  <-chan Time
	on bool
}

func NewTicker(d Duration) *Ticker {
	c := make(chan Time, 1)
	t := &Ticker{C: c, on: true}
	rt.GoClient(func() {
		rt.SetOp(-1)
		for t.isOn() {
			rt.Sleep(int64(d))
			if t.isOn() {
				rt.Select(true, rt.SendCase(c)(Now()))
			}
		}
	})
	return t
}

//go:norace
func (t *Ticker) isOn() bool { return t.on }

//go:norace
func (t *Ticker) Stop()           { t.on = false }
func Tick(d Duration) <-chan Time { return NewTicker(d).C }
