// Package faketime stands in for time when gost is analysed: sleeping advances
// a virtual clock and is recorded. The harness build replaces gost's import of
// time by this package.
package faketime

import (
	"time"

	"gostverif/nd"
)

type (
	Duration = time.Duration
	Time     = time.Time
	Month    = time.Month
	Weekday  = time.Weekday
	Location = time.Location
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour
)

var UTC = time.UTC

// Slept lists the durations waited for, in order.
var Slept []time.Duration

func Reset() { Slept = nil }

func wait(d Duration) {
	if d > 0 {
		Slept = append(Slept, d)
	}
}

// Sleep, and every other wait, takes no real time.
func Sleep(d Duration) {
	wait(d)
	nd.Yield()
}

func Now() Time {
	t := time.Unix(1_000_000_000, 0)
	for _, d := range Slept {
		t = t.Add(d)
	}
	return t
}
func Since(t Time) Duration           { return Now().Sub(t) }
func Until(t Time) Duration           { return t.Sub(Now()) }
func Unix(sec int64, nsec int64) Time { return time.Unix(sec, nsec) }

type Timer struct {
	C    <-chan Time
	done bool
}

func NewTimer(d Duration) *Timer {
	wait(d)
	c := make(chan Time, 1)
	c <- Now()
	return &Timer{C: c}
}
func (t *Timer) Stop() bool {
	r := !t.done
	t.done = true
	return r
}
func After(d Duration) <-chan Time { return NewTimer(d).C }
