// Package time replaces the standard package in the simulated copies: the
// clock and the timers are the simulator's.
package time

import (
	real "time"

	"verif.local/simhook"
)

type (
	Time       = real.Time
	Duration   = real.Duration
	Month      = real.Month
	Weekday    = real.Weekday
	Location   = real.Location
	ParseError = real.ParseError
)

const (
	Nanosecond  = real.Nanosecond
	Microsecond = real.Microsecond
	Millisecond = real.Millisecond
	Second      = real.Second
	Minute      = real.Minute
	Hour        = real.Hour

	ANSIC       = real.ANSIC
	UnixDate    = real.UnixDate
	RFC822      = real.RFC822
	RFC850      = real.RFC850
	RFC1123     = real.RFC1123
	RFC3339     = real.RFC3339
	RFC3339Nano = real.RFC3339Nano
	Kitchen     = real.Kitchen
	Stamp       = real.Stamp
	DateTime    = real.DateTime
	DateOnly    = real.DateOnly
	TimeOnly    = real.TimeOnly

	January   = real.January
	February  = real.February
	March     = real.March
	April     = real.April
	May       = real.May
	June      = real.June
	July      = real.July
	August    = real.August
	September = real.September
	October   = real.October
	November  = real.November
	December  = real.December
)

var (
	UTC   = real.UTC
	Local = real.UTC
)

func Unix(s, ns int64) Time                    { return real.Unix(s, ns) }
func UnixMilli(ms int64) Time                  { return real.UnixMilli(ms) }
func UnixMicro(us int64) Time                  { return real.UnixMicro(us) }
func Parse(l, v string) (Time, error)          { return real.Parse(l, v) }
func ParseDuration(s string) (Duration, error) { return real.ParseDuration(s) }
func FixedZone(n string, o int) *Location      { return real.FixedZone(n, o) }
func LoadLocation(n string) (*Location, error) { return real.LoadLocation(n) }
func Date(y int, m Month, d, h, mi, s, ns int, l *Location) Time {
	return real.Date(y, m, d, h, mi, s, ns, l)
}

var (
	epoch = real.Date(2026, 1, 1, 0, 0, 0, 0, real.UTC)
	now   Duration
	due   []*Timer // pending, earliest first
)

func init() {
	simhook.OnAdvance = func() bool {
		if len(due) == 0 {
			return false
		}
		if due[0].at > now {
			now = due[0].at
		}
		fire()
		return true
	}
	simhook.OnJump = func(d int64) {
		now += Duration(d)
		fire()
	}
}

func Now() Time {
	now += Microsecond
	fire()
	return epoch.Add(now)
}

func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }

func Sleep(d Duration) {
	done := false
	schedule(&Timer{f: func() { done = true }}, d)
	simhook.Block(func() bool { return done })
	simhook.Timers.Acquire()
}

// Timer is time.Timer.
type Timer struct {
	C      <-chan Time
	c      chan Time
	at     Duration
	period Duration
	f      func()
	on     bool
}

func schedule(t *Timer, d Duration) {
	if d < 0 {
		d = 0
	}
	simhook.Timers.Release()
	t.at, t.on = now+d, true
	i := len(due)
	due = append(due, t)
	for i > 0 && due[i-1].at > t.at {
		due[i] = due[i-1]
		i--
	}
	due[i] = t
}

func (t *Timer) remove() bool {
	was := t.on
	t.on = false
	for i, x := range due {
		if x == t {
			due = append(due[:i:i], due[i+1:]...)
			break
		}
	}
	return was
}

func fire() {
	for len(due) > 0 && due[0].at <= now {
		t := due[0]
		t.remove()
		simhook.Timers.Acquire()
		if t.f != nil {
			t.f()
		}
		if t.c != nil {
			select {
			case t.c <- epoch.Add(now):
			default:
			}
			simhook.Ver++
		}
		if t.period > 0 {
			schedule(t, t.period)
			if t.at <= now {
				t.at = now + t.period
			}
		}
	}
}

func newTimer(d, period Duration) *Timer {
	t := &Timer{c: make(chan Time, 1), period: period}
	t.C = t.c
	schedule(t, d)
	return t
}

func NewTimer(d Duration) *Timer   { return newTimer(d, 0) }
func After(d Duration) <-chan Time { return newTimer(d, 0).C }
func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: func() { simhook.Go(f) }}
	schedule(t, d)
	return t
}

func (t *Timer) Stop() bool { return t.remove() }
func (t *Timer) Reset(d Duration) bool {
	was := t.remove()
	schedule(t, d)
	return was
}

// Ticker is time.Ticker.
type Ticker struct {
	C <-chan Time
	t *Timer
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	t := newTimer(d, d)
	return &Ticker{C: t.C, t: t}
}

func Tick(d Duration) <-chan Time {
	if d <= 0 {
		return nil
	}
	return newTimer(d, d).C
}

func (t *Ticker) Stop() { t.t.remove() }
func (t *Ticker) Reset(d Duration) {
	t.t.remove()
	t.t.period = d
	schedule(t.t, d)
}
