// Package vtime replaces package time's clock by a virtual one.
package vtime

import (
	"runtime"
	"time"
)

type (
	Duration = time.Duration
	Time     = time.Time
	Month    = time.Month
	Weekday  = time.Weekday
	Location = time.Location
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	January     = time.January
)

var UTC = time.UTC

var (
	now  int64 = 1600000000 * 1000000000
	step int64 = 1000
)

// Set fixes the clock (nanoseconds since the Unix epoch).
func Set(ns int64) { now = ns }

// SetStep sets how much each reading advances the clock.
func SetStep(ns int64) { step = ns }

// Advance moves the clock.
func Advance(d Duration) { now += int64(d) }

// NowNs reads without advancing.
func NowNs() int64 { return now }

var symSec int64
var symOn bool

// SetSec fixes whole seconds (may be symbolic); readings do not advance.
func SetSec(s int64) { symSec, symOn = s, true }

// ClearSec returns to the counting clock.
func ClearSec() { symOn = false }

func Now() Time {
	if symOn {
		return time.Unix(symSec, 0)
	}
	now += step
	return time.Unix(now/1000000000, now%1000000000)
}

func Since(t Time) Duration                    { return Now().Sub(t) }
func Until(t Time) Duration                    { return t.Sub(Now()) }
func Unix(sec, nsec int64) Time                { return time.Unix(sec, nsec) }
func ParseDuration(s string) (Duration, error) { return time.ParseDuration(s) }
func Date(y int, m Month, d, h, mi, s, ns int, l *Location) Time {
	return time.Date(y, m, d, h, mi, s, ns, l)
}
func Parse(layout, v string) (Time, error) { return time.Parse(layout, v) }

func Sleep(d Duration) {
	now += int64(d)
	runtime.Gosched()
}

// Ticker never fires by itself.
type Ticker struct {
	C <-chan Time
	c chan Time
	d Duration

	stopped bool
}

// Tickers lists every live ticker.
var Tickers []*Ticker

func NewTicker(d Duration) *Ticker {
	c := make(chan Time)
	t := &Ticker{C: c, c: c, d: d}
	Tickers = append(Tickers, t)
	return t
}

// Fire lets every ticker of at most the given period tick once and waits until its owner took the tick.
func Fire(d Duration) {
	for _, t := range Tickers {
		if t.d <= d && !t.stopped {
			t.c <- Now()
		}
	}
}

// Clear forgets all tickers.
func Clear() { Tickers = nil }

func (t *Ticker) Stop()            { t.stopped = true }
func (t *Ticker) Reset(d Duration) {}

// Tick never fires.
func Tick(d Duration) <-chan Time { return make(chan Time) }

// Timer never fires by itself.
type Timer struct {
	C <-chan Time
	f func()
}

func NewTimer(d Duration) *Timer            { return &Timer{C: make(chan Time)} }
func AfterFunc(d Duration, f func()) *Timer { return &Timer{f: f} }
func After(d Duration) <-chan Time          { return make(chan Time) }
func (t *Timer) Stop() bool                 { return true }
func (t *Timer) Reset(d Duration) bool      { return true }
