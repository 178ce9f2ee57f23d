// Package vtime stands in for package time in pkg/hnsw during explorations:
// periodic background work (every index starts watchers of its vector cache
// that are never stopped) does not run. Everything else is package time.
package vtime

import (
	"sync"
	"time"
)

type (
	Duration   = time.Duration
	Location   = time.Location
	Month      = time.Month
	ParseError = time.ParseError
	Ticker     = time.Ticker
	Time       = time.Time
	Timer      = time.Timer
	Weekday    = time.Weekday
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour

	Layout      = time.Layout
	ANSIC       = time.ANSIC
	UnixDate    = time.UnixDate
	RubyDate    = time.RubyDate
	RFC822      = time.RFC822
	RFC822Z     = time.RFC822Z
	RFC850      = time.RFC850
	RFC1123     = time.RFC1123
	RFC1123Z    = time.RFC1123Z
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	Kitchen     = time.Kitchen
	Stamp       = time.Stamp
	StampMilli  = time.StampMilli
	StampMicro  = time.StampMicro
	StampNano   = time.StampNano
	DateTime    = time.DateTime
	DateOnly    = time.DateOnly
	TimeOnly    = time.TimeOnly

	January   = time.January
	February  = time.February
	March     = time.March
	April     = time.April
	May       = time.May
	June      = time.June
	July      = time.July
	August    = time.August
	September = time.September
	October   = time.October
	November  = time.November
	December  = time.December

	Sunday    = time.Sunday
	Monday    = time.Monday
	Tuesday   = time.Tuesday
	Wednesday = time.Wednesday
	Thursday  = time.Thursday
	Friday    = time.Friday
	Saturday  = time.Saturday
)

var (
	UTC   = time.UTC
	Local = time.Local
)

// Clock, if set, is the clock.
var Clock func() Time

func Now() Time {
	if Clock != nil {
		return Clock()
	}
	return time.Now()
}

func Since(t Time) Duration                    { return time.Since(t) }
func Until(t Time) Duration                    { return time.Until(t) }
func Sleep(d Duration)                         { time.Sleep(d) }
func After(d Duration) <-chan Time             { return time.After(d) }
func AfterFunc(d Duration, f func()) *Timer    { return time.AfterFunc(d, f) }
func NewTimer(d Duration) *Timer               { return time.NewTimer(d) }
func Unix(s, n int64) Time                     { return time.Unix(s, n) }
func UnixMilli(m int64) Time                   { return time.UnixMilli(m) }
func UnixMicro(m int64) Time                   { return time.UnixMicro(m) }
func Parse(l, v string) (Time, error)          { return time.Parse(l, v) }
func ParseDuration(s string) (Duration, error) { return time.ParseDuration(s) }
func LoadLocation(n string) (*Location, error) { return time.LoadLocation(n) }
func FixedZone(n string, o int) *Location      { return time.FixedZone(n, o) }
func ParseInLocation(l, v string, z *Location) (Time, error) {
	return time.ParseInLocation(l, v, z)
}
func Date(y int, m Month, d, h, mi, s, n int, l *Location) Time {
	return time.Date(y, m, d, h, mi, s, n, l)
}

var (
	mu      sync.Mutex
	tickers []chan Time
)

// NewTicker returns a ticker that only ticks when Fire is called.
func NewTicker(d Duration) *Ticker {
	ch := make(chan Time)
	mu.Lock()
	tickers = append(tickers, ch)
	mu.Unlock()
	t := time.NewTicker(time.Hour)
	t.Stop()
	t.C = ch
	return t
}

// Tick returns a channel on which nothing arrives.
func Tick(d Duration) <-chan Time { return make(chan Time) }

// Reset forgets all tickers (of indexes of earlier executions).
func Reset() {
	mu.Lock()
	tickers = nil
	mu.Unlock()
}

// Fire makes all tickers tick, and returns when what they started is done: a
// loop that takes the second tick has finished the work of the first. A ticker
// whose loop has ended is given up after a while.
func Fire() {
	mu.Lock()
	l := append([]chan Time{}, tickers...)
	mu.Unlock()
	for _, ch := range l {
		for i := 0; i < 2; i++ {
			select {
			case ch <- time.Now():
			case <-time.After(2 * time.Second):
				i = 2
			}
		}
	}
}
