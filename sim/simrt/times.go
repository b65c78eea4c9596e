package simrt

import (
	"context"
	"time"
)

// Now is time.Now on the current node's clock.
func Now() time.Time {
	s := S
	if s == nil {
		return time.Now()
	}
	if s.cur != nil && s.cur.Node != nil {
		return s.TimeOn(s.cur.Node)
	}
	return s.TimeOn(nil)
}

// TimeOn reads a node's clock.
func (s *Sim) TimeOn(n *Node) time.Time {
	t := Epoch.Add(time.Duration(s.now))
	if n != nil {
		if !n.Stuck.IsZero() {
			return n.Stuck.Local()
		}
		t = t.Add(n.Skew)
	}
	return t.Local()
}

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

func Sleep(d time.Duration) {
	s := S
	if s == nil {
		time.Sleep(d)
		return
	}
	if s.tearing || s.cur == nil {
		return
	}
	s.SleepFor(d)
}

// Timer stands in for time.Timer.
type Timer struct {
	C  <-chan time.Time
	c  chan time.Time
	f  func()
	t  *timer
	n  *Node
	nn int
}

func (t *Timer) arm(s *Sim, d time.Duration) {
	t.n = nil
	if s.cur != nil {
		t.n = s.cur.Node
	}
	if t.n != nil {
		t.nn = t.n.Inc
	}
	t.t = s.At(d, func() {
		if t.n != nil && (!t.n.Alive || t.n.Inc != t.nn) {
			return
		}
		if t.f != nil {
			s.spawn(t.n, "timer", t.f)
			return
		}
		simDeliver(s, t.c, s.TimeOn(t.n))
	})
}

func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	if s := live(); s != nil {
		t.arm(s, d)
	}
	return t
}

func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	if s := live(); s != nil {
		t.arm(s, d)
	}
	return t
}

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

func (t *Timer) Stop() bool {
	s := live()
	if s == nil || t.t == nil {
		return false
	}
	was := !t.t.dead
	s.cancel(t.t)
	return was
}

func (t *Timer) Reset(d time.Duration) bool {
	s := live()
	if s == nil {
		return false
	}
	was := t.Stop()
	t.arm(s, d)
	return was
}

// Ticker stands in for time.Ticker.
type Ticker struct {
	C    <-chan time.Time
	c    chan time.Time
	d    time.Duration
	t    *timer
	stop bool
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	k := &Ticker{C: c, c: c, d: d}
	if s := live(); s != nil {
		k.arm(s)
	}
	return k
}

func (k *Ticker) arm(s *Sim) {
	n := s.cur.Node
	inc := 0
	if n != nil {
		inc = n.Inc
	}
	var fire func()
	fire = func() {
		if k.stop || (n != nil && (!n.Alive || n.Inc != inc)) {
			return
		}
		simDeliver(s, k.c, s.TimeOn(n))
		k.t = s.At(k.d, fire)
	}
	k.t = s.At(k.d, fire)
}

func (k *Ticker) Stop() {
	k.stop = true
	if s := live(); s != nil {
		s.cancel(k.t)
	}
}

func (k *Ticker) Reset(d time.Duration) {
	k.Stop()
	k.stop = false
	k.d = d
	if s := live(); s != nil {
		k.arm(s)
	}
}

func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }

type dlCtx struct {
	context.Context
	dl  time.Time
	exp *bool
}

func (c dlCtx) Deadline() (time.Time, bool) { return c.dl, true }
func (c dlCtx) Err() error {
	e := c.Context.Err()
	if e != nil && *c.exp {
		return context.DeadlineExceeded
	}
	return e
}

func WithDeadline(p context.Context, at time.Time) (context.Context, context.CancelFunc) {
	return WithTimeout(p, Until(at))
}

func WithTimeout(p context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	if live() == nil {
		return context.WithTimeout(p, d)
	}
	c, cancel := context.WithCancel(p)
	exp := false
	t := AfterFunc(d, func() { exp = true; cancel() })
	return dlCtx{c, Now().Add(d), &exp}, func() { t.Stop(); cancel() }
}
