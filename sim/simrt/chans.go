package simrt

import (
	"unsafe"
)

type chanKey unsafe.Pointer

type chanState struct {
	cap    int
	buf    []any
	closed bool
	recvq  []*chanWait
	sendq  []*chanWait
}

type chanWait struct {
	t   *Task
	op  *selOp
	idx int
	val any
}

type selOp struct {
	done bool
	idx  int
	val  any
	ok   bool
}

func (s *Sim) chanOf(k chanKey, c int) *chanState {
	st := s.chans[k]
	if st == nil {
		st = &chanState{cap: c}
		s.chans[k] = st
	}
	return st
}

func keyR[T any](ch <-chan T) chanKey { return chanKey(*(*unsafe.Pointer)(unsafe.Pointer(&ch))) }
func keyS[T any](ch chan<- T) chanKey { return chanKey(*(*unsafe.Pointer)(unsafe.Pointer(&ch))) }

func popWait(q *[]*chanWait) *chanWait {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if !w.op.done && w.t.st == tBlocked {
			return w
		}
	}
	return nil
}

// trySend returns true when the value was delivered.
func (s *Sim) trySend(st *chanState, v any) bool {
	if st.closed {
		panic("send on closed channel")
	}
	if w := popWait(&st.recvq); w != nil {
		w.op.done, w.op.idx, w.op.val, w.op.ok = true, w.idx, v, true
		s.ready(w.t)
		return true
	}
	if len(st.buf) < st.cap {
		st.buf = append(st.buf, v)
		return true
	}
	return false
}

func (s *Sim) tryRecv(st *chanState) (v any, ok, got bool) {
	if len(st.buf) > 0 {
		v = st.buf[0]
		st.buf = st.buf[1:]
		if w := popWait(&st.sendq); w != nil {
			st.buf = append(st.buf, w.val)
			w.op.done, w.op.idx = true, w.idx
			s.ready(w.t)
		}
		return v, true, true
	}
	if w := popWait(&st.sendq); w != nil {
		w.op.done, w.op.idx = true, w.idx
		s.ready(w.t)
		return w.val, true, true
	}
	if st.closed {
		return nil, false, true
	}
	return nil, false, false
}

// SendTo is ch <- v as SendTo(ch)(v).
func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) {
		s := S
		if s == nil {
			ch <- v
			return
		}
		if s.tearing {
			return
		}
		Select(false, CSend(ch)(v))
	}
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	s := S
	if s == nil {
		v, ok := <-ch
		return v, ok
	}
	var z T
	if s.tearing {
		return z, false
	}
	r := Select(false, CRecv(ch))
	v, _ := r.val.(T)
	return v, r.Ok
}

// Close is close(ch).
func Close[T any](ch chan<- T) {
	s := S
	if s == nil {
		close(ch)
		return
	}
	if s.tearing {
		return
	}
	s.point()
	st := s.chanOf(keyS(ch), cap(ch))
	if st.closed {
		panic("close of closed channel")
	}
	st.closed = true
	for {
		w := popWait(&st.recvq)
		if w == nil {
			break
		}
		w.op.done, w.op.idx, w.op.val, w.op.ok = true, w.idx, nil, false
		s.ready(w.t)
	}
	for {
		w := popWait(&st.sendq)
		if w == nil {
			break
		}
		w.op.done, w.op.idx, w.op.ok = true, -1, false
		s.ready(w.t)
	}
}

// Len is len(ch).
func Len[T any](ch <-chan T) int {
	s := live()
	if s == nil {
		return len(ch)
	}
	return len(s.chanOf(keyR(ch), cap(ch)).buf)
}

// Case is one arm of a select.
type Case struct {
	key  chanKey
	cap  int
	send bool
	val  any
	poll func() (any, bool, bool)
}

func CRecv[T any](ch <-chan T) Case {
	return Case{key: keyR(ch), cap: cap(ch), poll: func() (any, bool, bool) {
		select {
		case v, ok := <-ch:
			return v, ok, true
		default:
			return nil, false, false
		}
	}}
}

func CSend[T any](ch chan<- T) func(T) Case {
	return func(v T) Case { return Case{key: keyS(ch), cap: cap(ch), send: true, val: v} }
}

// Sel is the outcome of a select.
type Sel struct {
	I   int
	Ok  bool
	val any
}

// SelVal extracts the received value with the channel's element type.
func SelVal[T any](r Sel, ch <-chan T) T {
	v, _ := r.val.(T)
	return v
}

func SelVal2[T any](r Sel, ch <-chan T) (T, bool) {
	v, _ := r.val.(T)
	return v, r.Ok
}

// Select blocks until one case can proceed (I = -1: the default arm).
func Select(hasDefault bool, cases ...Case) Sel {
	s := live()
	if s == nil {
		return Sel{I: -1}
	}
	s.point()
	order := s.Sched.Perm(len(cases))
	for _, i := range order {
		c := cases[i]
		if c.key == nil {
			continue
		}
		st := s.chanOf(c.key, c.cap)
		if c.send {
			if s.trySend(st, c.val) {
				return Sel{I: i}
			}
		} else {
			if v, ok, got := s.tryRecv(st); got {
				return Sel{I: i, Ok: ok, val: v}
			}
			if v, ok, got := c.poll(); got {
				return Sel{I: i, Ok: ok, val: v}
			}
		}
	}
	if hasDefault {
		return Sel{I: -1}
	}
	op := &selOp{}
	any := false
	for i, c := range cases {
		if c.key == nil {
			continue
		}
		any = true
		st := s.chanOf(c.key, c.cap)
		w := &chanWait{t: s.cur, op: op, idx: i, val: c.val}
		if c.send {
			st.sendq = append(st.sendq, w)
		} else {
			st.recvq = append(st.recvq, w)
		}
	}
	t := s.cur
	for !op.done {
		if any {
			t.poll = func() bool {
				for i, c := range cases {
					if c.key == nil || c.send || op.done {
						continue
					}
					if v, ok, got := c.poll(); got {
						op.done, op.idx, op.val, op.ok = true, i, v, ok
						s.ready(t)
						return true
					}
				}
				return false
			}
		}
		why := "select"
		if len(cases) == 1 {
			if cases[0].send {
				why = "chan send"
			} else {
				why = "chan receive"
			}
		}
		s.park(why)
		t.poll = nil
	}
	if op.idx < 0 {
		panic("send on closed channel")
	}
	return Sel{I: op.idx, Ok: op.ok, val: op.val}
}

// BlockForever is select{}.
func BlockForever() {
	s := live()
	if s == nil {
		if S == nil {
			select {}
		}
		return
	}
	for {
		s.park("select{}")
	}
}

// sendReal delivers to a channel from scheduler context, dropping when it is full.
func simDeliver[T any](s *Sim, ch chan T, v T) {
	st := s.chanOf(keyS((chan<- T)(ch)), cap(ch))
	s.trySend(st, v)
}
