//go:build go1.22

package simrt

import (
	"container/heap"
	"context"
	"runtime"
	"time"
)

var epoch = time.Date(2023, 1, 1, 0, 0, 0, 0, time.UTC)

// Now is the virtual time in ns.
func Now() int64 { return S.now }

func (s *Sim) addTimer(d time.Duration, back bool, fn func()) *timer {
	if d < 0 {
		d = 0
	}
	s.tseq++
	t := &timer{at: s.now + int64(d), seq: s.tseq, fn: fn, back: back}
	heap.Push(&s.timers, t)
	return t
}
func (s *Sim) stopTimer(t *timer) bool {
	if t == nil || t.idx < 0 || t.idx >= len(s.timers) || s.timers[t.idx] != t {
		return false
	}
	heap.Remove(&s.timers, t.idx)
	t.idx = -1
	return true
}

// After runs fn at now+d in scheduler context; fn must not block.
func After(d time.Duration, fn func()) { S.addTimer(d, false, fn) }

func TimeNow() time.Time                  { return epoch.Add(time.Duration(S.now + S.skew)) }
func TimeSince(t time.Time) time.Duration { return TimeNow().Sub(t) }
func TimeUntil(t time.Time) time.Duration { return t.Sub(TimeNow()) }

// Skew sets how far the wall clock is from the time that timers go by, in ns.
func Skew(d int64)   { S.skew = d }
func SkewNow() int64 { return S.skew }
func TimeSleep(d time.Duration) {
	s := S
	if s.aborting {
		runtime.Goexit()
	}
	if !s.active {
		return
	}
	fired := false
	s.addTimer(d, false, func() { fired = true })
	Block("sleep", func() bool { return fired })
}

// Timer replaces time.Timer.
type Timer struct {
	C  <-chan time.Time
	c  chan time.Time
	fn func()
	t  *timer
}

func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	t.arm(d)
	return t
}
func (t *Timer) arm(d time.Duration) {
	t.t = S.addTimer(d, false, func() {
		if t.fn != nil {
			f := t.fn
			S.spawn("timer", f)
			return
		}
		select {
		case t.c <- TimeNow():
		default:
		}
	})
}
func (t *Timer) Stop() bool { gate(); return S.stopTimer(t.t) }
func (t *Timer) Reset(d time.Duration) bool {
	gate()
	ok := S.stopTimer(t.t)
	if t.c != nil {
		select {
		case <-t.c:
		default:
		}
	}
	t.arm(d)
	return ok
}
func TimeAfter(d time.Duration) <-chan time.Time { return NewTimer(d).C }
func TimeAfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{fn: f}
	t.arm(d)
	return t
}

// Ticker replaces time.Ticker; its ticks never keep a run alive.
type Ticker struct {
	C <-chan time.Time
	c chan time.Time
	d time.Duration
	t *timer
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, c: c, d: d}
	t.arm()
	return t
}
func (t *Ticker) arm() {
	t.t = S.addTimer(t.d, true, func() {
		select {
		case t.c <- TimeNow():
		default:
		}
		t.arm()
	})
}
func (t *Ticker) Stop()                         { gate(); S.stopTimer(t.t) }
func (t *Ticker) Reset(d time.Duration)         { gate(); S.stopTimer(t.t); t.d = d; t.arm() }
func TimeTick(d time.Duration) <-chan time.Time { return NewTicker(d).C }

// Contexts with deadlines run on virtual time.
func CtxWithTimeout(p context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return CtxWithTimeoutCause(p, d, nil)
}
func CtxWithDeadline(p context.Context, t time.Time) (context.Context, context.CancelFunc) {
	return CtxWithTimeoutCause(p, TimeUntil(t), nil)
}
func CtxWithDeadlineCause(p context.Context, t time.Time, cause error) (context.Context, context.CancelFunc) {
	return CtxWithTimeoutCause(p, TimeUntil(t), cause)
}

type dctx struct {
	context.Context
	dl      time.Time
	expired *bool
}

func (d dctx) Deadline() (time.Time, bool) { return d.dl, true }
func (d dctx) Err() error {
	if e := d.Context.Err(); e != nil {
		if *d.expired {
			return context.DeadlineExceeded
		}
		return e
	}
	return nil
}
func CtxWithTimeoutCause(p context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	c, cancel := context.WithCancelCause(p)
	exp := new(bool)
	if cause == nil {
		cause = context.DeadlineExceeded
	}
	var t *timer
	if d <= 0 {
		*exp = true
		cancel(cause)
	} else if S.active {
		t = S.addTimer(d, true, func() {
			if c.Err() == nil {
				*exp = true
				cancel(cause)
			}
		})
	}
	return dctx{c, TimeNow().Add(d), exp}, func() {
		if t != nil {
			S.stopTimer(t)
		}
		cancel(context.Canceled)
	}
}

// CtxAfterFunc replaces context.AfterFunc.
func CtxAfterFunc(ctx context.Context, f func()) (stop func() bool) {
	state := 0
	Go(0, func() {
		Block("context.AfterFunc", func() bool { return ctx.Err() != nil || state == 2 })
		if state == 0 {
			state = 1
			f()
		}
	})
	return func() bool {
		gate()
		if state == 0 && ctx.Err() == nil {
			state = 2
			return true
		}
		if state == 0 {
			state = 2
			return true
		}
		return false
	}
}
