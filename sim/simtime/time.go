// Package simtime stands in for package time over the simulated clock.
package simtime

import (
	"time"

	"github.com/go-air/dupi/zz/rt"
)

var epoch = time.Date(2021, 9, 1, 0, 0, 0, 0, time.UTC)

func Now() time.Time {
	if rt.W == nil {
		return epoch
	}
	return epoch.Add(time.Duration(rt.W.Clock))
}
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }
func Sleep(d time.Duration)           { rt.Sleep(int64(d)) }

type Timer struct {
	C    <-chan time.Time
	ch   chan time.Time
	f    func()
	stop func() bool
}

func (t *Timer) start(d time.Duration) {
	x := rt.W.After(int64(d), func() {
		if t.f != nil {
			rt.W.GoDetached(t.f)
			return
		}
		rt.TimerSend(t.ch, Now())
	})
	t.stop = x.Stop
}

func NewTimer(d time.Duration) *Timer {
	ch := make(chan time.Time, 1)
	t := &Timer{C: ch, ch: ch}
	t.start(d)
	return t
}

func AfterFunc(d time.Duration, f func()) *Timer {
	p := rt.W.Cur()
	_ = p
	t := &Timer{f: f}
	t.start(d)
	return t
}

func (t *Timer) Stop() bool { return t.stop() }
func (t *Timer) Reset(d time.Duration) bool {
	was := t.stop()
	t.start(d)
	return was
}

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

type Ticker struct {
	C    <-chan time.Time
	ch   chan time.Time
	d    time.Duration
	stop func() bool
	off  bool
}

func (t *Ticker) arm() {
	x := rt.W.After(int64(t.d), func() {
		if t.off {
			return
		}
		rt.TimerSend(t.ch, Now())
		t.arm()
	})
	t.stop = x.Stop
}

func NewTicker(d time.Duration) *Ticker {
	ch := make(chan time.Time, 1)
	t := &Ticker{C: ch, ch: ch, d: d}
	t.arm()
	return t
}
func (t *Ticker) Stop()                     { t.off = true; t.stop() }
func (t *Ticker) Reset(d time.Duration)     { t.stop(); t.off = false; t.d = d; t.arm() }
func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }
