// Package vtime is a drop-in for time on the virtual clock.
package vtime

import (
	"time"

	"vsched"
)

var base = time.Date(2030, 1, 2, 3, 4, 5, 0, time.UTC)

// Now is the virtual time.
func Now() time.Time {
	if !vsched.Active() {
		return time.Now()
	}
	return base.Add(time.Duration(vsched.ReadClock()))
}

// Since is Now().Sub(t).
func Since(t time.Time) time.Duration { return Now().Sub(t) }

// Until is t.Sub(Now()).
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Sleep sleeps in virtual time.
func Sleep(d time.Duration) { vsched.Sleep(int64(d)) }

// Timer is a virtual time.Timer.
type Timer struct {
	C  <-chan time.Time
	c  chan time.Time
	f  func()
	t  *vsched.Timer
	ep uint64
}

func (t *Timer) start(d time.Duration) {
	if !vsched.Active() {
		return
	}
	t.ep = vsched.Epoch()
	vc := vsched.CurVC()
	t.t = vsched.AddTimer(int64(d), func() {
		t.t = nil
		if t.f != nil {
			vsched.SpawnFromTimer("timer", t.f)
			return
		}
		vsched.TrySendNoPoint(t.c, base.Add(time.Duration(vsched.NowNano())), vc)
	})
}

// NewTimer makes a timer.
func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	t.start(d)
	return t
}

// AfterFunc runs f in its own goroutine after d.
func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}

// After is NewTimer(d).C.
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

// Stop stops the timer.
func (t *Timer) Stop() bool {
	vsched.Point("Timer.Stop")
	return t.stop()
}

func (t *Timer) stop() bool {
	was := false
	if t.t != nil && t.ep == vsched.Epoch() {
		was = vsched.DelTimer(t.t)
	}
	t.t = nil
	if t.c != nil {
		select {
		case <-t.c: // since Go 1.23 no stale value is left behind
		default:
		}
	}
	return was
}

// Reset restarts the timer.
func (t *Timer) Reset(d time.Duration) bool {
	vsched.Point("Timer.Reset")
	was := t.stop()
	t.start(d)
	return was
}

// Ticker is a virtual time.Ticker.
type Ticker struct {
	C  <-chan time.Time
	c  chan time.Time
	t  *vsched.Timer
	d  time.Duration
	ep uint64
}

func (t *Ticker) arm() {
	if !vsched.Active() {
		return
	}
	t.ep = vsched.Epoch()
	t.t = vsched.AddTimer(int64(t.d), func() {
		vsched.TrySendNoPoint(t.c, base.Add(time.Duration(vsched.NowNano())), nil)
		t.arm()
	})
}

// NewTicker makes a ticker.
func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, c: c, d: d}
	t.arm()
	return t
}

// Stop stops the ticker.
func (t *Ticker) Stop() {
	if t.t != nil && t.ep == vsched.Epoch() {
		vsched.DelTimer(t.t)
	}
	t.t = nil
}

// Reset changes the period.
func (t *Ticker) Reset(d time.Duration) {
	t.Stop()
	t.d = d
	t.arm()
}

// Tick is NewTicker(d).C.
func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
