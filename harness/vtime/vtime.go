package vtime

import (
	x "time"

	"github.com/yusank/godis/zzverif/vsched"
)

func Now() x.Time               { return vsched.Base.Add(x.Duration(vsched.NowNs())) }
func Since(t x.Time) x.Duration { return Now().Sub(t) }
func Until(t x.Time) x.Duration { return t.Sub(Now()) }

// Timer is a virtual time.Timer.
type Timer struct {
	C      <-chan x.Time
	c      chan x.Time
	f      func()
	cancel func() bool
}

func (t *Timer) arm(d x.Duration) {
	t.cancel = vsched.AddTimer(d, "timer", func() {
		if t.f != nil {
			vsched.Spawn(t.f)
			return
		}
		vsched.RawSend(t.c, Now())
	})
}

func NewTimer(d x.Duration) *Timer {
	c := make(chan x.Time, 1)
	t := &Timer{C: c, c: c}
	t.arm(d)
	return t
}
func AfterFunc(d x.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.arm(d)
	return t
}
func After(d x.Duration) <-chan x.Time { return NewTimer(d).C }
func (t *Timer) Stop() bool {
	vsched.Point("timer.Stop")
	return t.cancel()
}
func (t *Timer) Reset(d x.Duration) bool {
	vsched.Point("timer.Reset")
	p := t.cancel()
	t.arm(d)
	return p
}
func Sleep(d x.Duration) {
	if d <= 0 {
		vsched.Yield()
		return
	}
	if !vsched.Active() {
		return
	}
	woken := false
	vsched.AddTimer(d, "sleep", func() { woken = true })
	vsched.Await("sleep", func() bool { return woken })
}

// Ticker is a virtual time.Ticker.
type Ticker struct {
	C      <-chan x.Time
	c      chan x.Time
	d      x.Duration
	cancel func() bool
	n      int
}

func (t *Ticker) arm() {
	t.cancel = vsched.AddTimer(t.d, "ticker", func() {
		vsched.RawSend(t.c, Now())
		if t.n++; t.n < 50 { // bounded so that quiescence exists
			t.arm()
		}
	})
}
func NewTicker(d x.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan x.Time, 1)
	t := &Ticker{C: c, c: c, d: d}
	t.arm()
	return t
}
func Tick(d x.Duration) <-chan x.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
func (t *Ticker) Stop()              { vsched.Point("ticker.Stop"); t.cancel() }
func (t *Ticker) Reset(d x.Duration) { t.Stop(); t.d = d; t.arm() }
