// Package vtime stands in for time in instrumented code: a tick or a timer may
// come at any moment (a scheduling decision), a ticker ticks at most Ticks times
// in an execution.
package vtime

import (
	"time"
	"unsafe"

	"zz.local/zz/zzs"
)

type (
	Duration   = time.Duration
	Time       = time.Time
	Location   = time.Location
	Month      = time.Month
	Weekday    = time.Weekday
	ParseError = time.ParseError
)

const (
	Layout      = time.Layout
	ANSIC       = time.ANSIC
	UnixDate    = time.UnixDate
	RubyDate    = time.RubyDate
	RFC822      = time.RFC822
	RFC822Z     = time.RFC822Z
	RFC850      = time.RFC850
	RFC1123     = time.RFC1123
	RFC1123Z    = time.RFC1123Z
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	Kitchen     = time.Kitchen
	Stamp       = time.Stamp
	StampMilli  = time.StampMilli
	StampMicro  = time.StampMicro
	StampNano   = time.StampNano
	DateTime    = time.DateTime
	DateOnly    = time.DateOnly
	TimeOnly    = time.TimeOnly

	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour

	January   = time.January
	February  = time.February
	March     = time.March
	April     = time.April
	May       = time.May
	June      = time.June
	July      = time.July
	August    = time.August
	September = time.September
	October   = time.October
	November  = time.November
	December  = time.December

	Sunday    = time.Sunday
	Monday    = time.Monday
	Tuesday   = time.Tuesday
	Wednesday = time.Wednesday
	Thursday  = time.Thursday
	Friday    = time.Friday
	Saturday  = time.Saturday
)

var (
	Local = time.Local
	UTC   = time.UTC
)

func ParseDuration(s string) (Duration, error)               { return time.ParseDuration(s) }
func Since(t Time) Duration                                  { return time.Since(t) }
func Until(t Time) Duration                                  { return time.Until(t) }
func FixedZone(n string, o int) *Location                    { return time.FixedZone(n, o) }
func LoadLocation(n string) (*Location, error)               { return time.LoadLocation(n) }
func Now() Time                                              { return time.Now() }
func Parse(l, v string) (Time, error)                        { return time.Parse(l, v) }
func Unix(s, n int64) Time                                   { return time.Unix(s, n) }
func UnixMicro(u int64) Time                                 { return time.UnixMicro(u) }
func UnixMilli(u int64) Time                                 { return time.UnixMilli(u) }
func ParseInLocation(l, v string, p *Location) (Time, error) { return time.ParseInLocation(l, v, p) }
func Date(y int, m Month, d, h, mi, s, n int, l *Location) Time {
	return time.Date(y, m, d, h, mi, s, n, l)
}

// Ticks bounds the ticks of each ticker in an execution.
var Ticks = 2

// timers run a goroutine that sends or calls at any moment; gen ends older ones.
type source struct {
	gen int
	c   chan Time
	f   func()
}

func (s *source) start(n int) {
	s.gen++
	gen := s.gen
	zzs.GoEnv("clock", func() {
		for i := 0; i < n; i++ {
			zzs.PO(0, unsafe.Pointer(s))
			if s.gen != gen {
				return
			}
			if s.f != nil {
				s.f()
				continue
			}
			k := zzs.Sel(0, zzs.CS(s.c), zzs.CD())
			select {
			case zzs.M(k, 0, s.c) <- time.Now():
				zzs.Q(0)
			default:
				zzs.Q(0)
			}
		}
	})
}

func (s *source) stop() {
	zzs.PO(0, unsafe.Pointer(s))
	s.gen++
}

type Ticker struct {
	C <-chan Time
	s *source
	t *time.Ticker
}

func NewTicker(d Duration) *Ticker {
	if !zzs.Active() {
		t := time.NewTicker(d)
		return &Ticker{C: t.C, t: t}
	}
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	s := &source{c: make(chan Time, 1)}
	s.start(Ticks)
	return &Ticker{C: s.c, s: s}
}

func (t *Ticker) Stop() {
	if t.t != nil {
		t.t.Stop()
		return
	}
	t.s.stop()
}

func (t *Ticker) Reset(d Duration) {
	if t.t != nil {
		t.t.Reset(d)
		return
	}
	if d <= 0 {
		panic("non-positive interval for Ticker.Reset")
	}
	t.s.stop()
	t.s.start(Ticks)
}

func Tick(d Duration) <-chan Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

var (
	afterEpoch uint64
	afters     int
)

// once says whether one more timer goes off in this execution.
func once() int {
	if e := zzs.Epoch(); e != afterEpoch {
		afterEpoch, afters = e, 0
	}
	if afters++; afters > Ticks {
		return 0
	}
	return 1
}

type Timer struct {
	C <-chan Time
	s *source
	t *time.Timer
}

func NewTimer(d Duration) *Timer {
	if !zzs.Active() {
		t := time.NewTimer(d)
		return &Timer{C: t.C, t: t}
	}
	s := &source{c: make(chan Time, 1)}
	s.start(once())
	return &Timer{C: s.c, s: s}
}

func AfterFunc(d Duration, f func()) *Timer {
	if !zzs.Active() {
		return &Timer{t: time.AfterFunc(d, f)}
	}
	s := &source{f: f}
	s.start(once())
	return &Timer{s: s}
}

func After(d Duration) <-chan Time { return NewTimer(d).C }

func (t *Timer) Stop() bool {
	if t.t != nil {
		return t.t.Stop()
	}
	t.s.stop()
	select { // as since Go 1.23
	case <-t.s.c:
	default:
	}
	return true
}

func (t *Timer) Reset(d Duration) bool {
	if t.t != nil {
		return t.t.Reset(d)
	}
	t.Stop()
	t.s.start(once())
	return true
}

func Sleep(d Duration) {
	if !zzs.Active() {
		time.Sleep(d)
		return
	}
	var x byte
	zzs.PO(0, unsafe.Pointer(&x))
}
