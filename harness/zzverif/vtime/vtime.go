// Package vtime mirrors package time with a virtual clock during an
// exploration: time passes only when no managed goroutine can run.
package vtime

import (
	"time"

	"github.com/hyp3rd/hypercache/internal/zzverif/vsched"
)

type (
	Time       = time.Time
	Duration   = time.Duration
	Month      = time.Month
	Weekday    = time.Weekday
	Location   = time.Location
	ParseError = time.ParseError
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour

	Layout      = time.Layout
	ANSIC       = time.ANSIC
	UnixDate    = time.UnixDate
	RubyDate    = time.RubyDate
	RFC822      = time.RFC822
	RFC822Z     = time.RFC822Z
	RFC850      = time.RFC850
	RFC1123     = time.RFC1123
	RFC1123Z    = time.RFC1123Z
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	Kitchen     = time.Kitchen
	Stamp       = time.Stamp
	StampMilli  = time.StampMilli
	StampMicro  = time.StampMicro
	StampNano   = time.StampNano
	DateTime    = time.DateTime
	DateOnly    = time.DateOnly
	TimeOnly    = time.TimeOnly

	January   = time.January
	February  = time.February
	March     = time.March
	April     = time.April
	May       = time.May
	June      = time.June
	July      = time.July
	August    = time.August
	September = time.September
	October   = time.October
	November  = time.November
	December  = time.December

	Sunday    = time.Sunday
	Monday    = time.Monday
	Tuesday   = time.Tuesday
	Wednesday = time.Wednesday
	Thursday  = time.Thursday
	Friday    = time.Friday
	Saturday  = time.Saturday
)

var (
	UTC   = time.UTC
	Local = time.Local
)

var (
	Parse           = time.Parse
	ParseInLocation = time.ParseInLocation
	ParseDuration   = time.ParseDuration
	Unix            = time.Unix
	UnixMilli       = time.UnixMilli
	UnixMicro       = time.UnixMicro
	Date            = time.Date
	FixedZone       = time.FixedZone
	LoadLocation    = time.LoadLocation
)

var epoch = time.Date(2030, 1, 1, 0, 0, 0, 0, time.UTC)

func Now() Time {
	if !vsched.Active() {
		return time.Now()
	}
	return epoch.Add(time.Duration(vsched.Now()))
}

func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }

func Sleep(d Duration) {
	if !vsched.Active() {
		time.Sleep(d)
		return
	}
	vsched.Sleep(d)
}

type Timer struct {
	C    <-chan Time
	c    chan Time
	f    func()
	id   int
	real *time.Timer
}

func (t *Timer) fire() {
	if t.f != nil {
		vsched.SpawnFromTimer(t.f)
		return
	}
	select {
	case t.c <- Now():
	default:
	}
}

func NewTimer(d Duration) *Timer {
	if !vsched.Active() {
		rt := time.NewTimer(d)
		return &Timer{C: rt.C, real: rt}
	}
	t := &Timer{c: make(chan Time, 1)}
	t.C = t.c
	t.id = vsched.AddTimer(d, 0, t.fire)
	return t
}

func AfterFunc(d Duration, f func()) *Timer {
	if !vsched.Active() {
		return &Timer{real: time.AfterFunc(d, f)}
	}
	t := &Timer{f: f}
	t.id = vsched.AddTimer(d, 0, t.fire)
	return t
}

func After(d Duration) <-chan Time { return NewTimer(d).C }

func (t *Timer) Stop() bool {
	if t.real != nil {
		return t.real.Stop()
	}
	if vsched.Killed() {
		return false
	}
	vsched.Point()
	was := vsched.StopTimer(t.id)
	if t.c != nil {
		select {
		case <-t.c:
			was = true
		default:
		}
	}
	return was
}

func (t *Timer) Reset(d Duration) bool {
	if t.real != nil {
		return t.real.Reset(d)
	}
	was := t.Stop()
	t.id = vsched.AddTimer(d, 0, t.fire)
	return was
}

type Ticker struct {
	C    <-chan Time
	c    chan Time
	id   int
	real *time.Ticker
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	if !vsched.Active() {
		rt := time.NewTicker(d)
		return &Ticker{C: rt.C, real: rt}
	}
	t := &Ticker{c: make(chan Time, 1)}
	t.C = t.c
	t.id = vsched.AddTimer(d, d, t.fire)
	return t
}

func (t *Ticker) fire() {
	select {
	case t.c <- Now():
	default:
	}
}

func (t *Ticker) Stop() {
	if t.real != nil {
		t.real.Stop()
		return
	}
	if vsched.Killed() {
		return
	}
	vsched.StopTimer(t.id)
	select {
	case <-t.c:
	default:
	}
}

func (t *Ticker) Reset(d Duration) {
	if t.real != nil {
		t.real.Reset(d)
		return
	}
	t.Stop()
	t.id = vsched.AddTimer(d, d, t.fire)
}

func Tick(d Duration) <-chan Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
