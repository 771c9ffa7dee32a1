// Package zztime replaces package time in native replays of code that reads
// the clock: time passes only when the harness says so.
package zztime

import (
	"time"

	vnd "github.com/yangl1996/rateless-set-reconcile/zzvnd"
)

type (
	Time     = time.Time
	Duration = time.Duration
	Ticker   = time.Ticker
	Month    = time.Month
	Location = time.Location
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour
)

// Timer never fires.
type Timer struct{ C <-chan Time }

func (t *Timer) Reset(Duration) bool { return true }
func (t *Timer) Stop() bool          { return true }

func Now() Time                    { return time.Unix(0, int64(vnd.Now())) }
func Since(t Time) Duration        { return Now().Sub(t) }
func Until(t Time) Duration        { return t.Sub(Now()) }
func Unix(s, ns int64) Time        { return time.Unix(s, ns) }
func UnixMicro(us int64) Time      { return time.UnixMicro(us) }
func UnixMilli(ms int64) Time      { return time.UnixMilli(ms) }
func Sleep(Duration)               { select {} }
func NewTimer(Duration) *Timer     { return &Timer{make(chan Time)} }
func Tick(d Duration) <-chan Time  { return NewTicker(d).C }
func After(d Duration) <-chan Time { return NewTicker(d).C }
func NewTicker(d Duration) *Ticker {
	ch := make(chan Time, 1)
	vnd.Ticker(uint64(d), func() {
		select {
		case ch <- Now():
		default:
		}
	})
	return &Ticker{C: ch}
}
