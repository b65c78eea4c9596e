package simrt

import (
	"sync"
	"sync/atomic"
)

// Mutex stands in for sync.Mutex.
type Mutex struct {
	held bool
	w    []*Task
}

func (m *Mutex) Lock() {
	s := live()
	if s == nil {
		return
	}
	s.point()
	for m.held {
		m.w = append(m.w, s.cur)
		s.park("mutex")
	}
	m.held = true
}

func (m *Mutex) TryLock() bool {
	s := live()
	if s == nil {
		return true
	}
	s.point()
	if m.held {
		return false
	}
	m.held = true
	return true
}

func (m *Mutex) Unlock() {
	s := live()
	if s == nil {
		return
	}
	if !m.held {
		s.Fatal("fatal error: sync: unlock of unlocked mutex")
	}
	m.held = false
	w := m.w
	m.w = nil
	for _, t := range w {
		s.ready(t)
	}
	s.point()
}

// RWMutex stands in for sync.RWMutex: a waiting writer keeps new readers out, an unlocking writer lets the waiting
// readers in.
type RWMutex struct {
	writer  bool
	readers int
	pendW   int
	rq      []*rwWait
	wq      []*Task
}

type rwWait struct {
	t       *Task
	granted bool
}

func (m *RWMutex) RLock() {
	s := live()
	if s == nil {
		return
	}
	s.point()
	if !m.writer && m.pendW == 0 {
		m.readers++
		return
	}
	w := &rwWait{t: s.cur}
	m.rq = append(m.rq, w)
	for !w.granted {
		s.park("rwmutex.RLock")
	}
}

func (m *RWMutex) TryRLock() bool {
	s := live()
	if s == nil {
		return true
	}
	if m.writer || m.pendW > 0 {
		return false
	}
	m.readers++
	return true
}

func (m *RWMutex) RUnlock() {
	s := live()
	if s == nil {
		return
	}
	if m.readers == 0 {
		s.Fatal("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	if m.readers == 0 {
		m.wakeWriters(s)
	}
	s.point()
}

func (m *RWMutex) wakeWriters(s *Sim) {
	w := m.wq
	m.wq = nil
	for _, t := range w {
		s.ready(t)
	}
}

func (m *RWMutex) Lock() {
	s := live()
	if s == nil {
		return
	}
	s.point()
	m.pendW++
	for m.writer || m.readers > 0 {
		m.wq = append(m.wq, s.cur)
		s.park("rwmutex.Lock")
	}
	m.pendW--
	m.writer = true
}

func (m *RWMutex) TryLock() bool {
	s := live()
	if s == nil {
		return true
	}
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	return true
}

func (m *RWMutex) Unlock() {
	s := live()
	if s == nil {
		return
	}
	if !m.writer {
		s.Fatal("fatal error: sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	for _, w := range m.rq {
		w.granted = true
		m.readers++
		s.ready(w.t)
	}
	m.rq = nil
	if m.readers == 0 {
		m.wakeWriters(s)
	}
	s.point()
}

// RLocker as in sync.
func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once stands in for sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	if S == nil {
		if !o.done {
			defer func() { o.done = true }()
			f()
		}
		return
	}
	Point()
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// WaitGroup stands in for sync.WaitGroup.
type WaitGroup struct {
	n int
	w []*Task
}

func (g *WaitGroup) Add(d int) {
	s := live()
	if s == nil {
		return
	}
	s.point()
	g.n += d
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if g.n == 0 {
		w := g.w
		g.w = nil
		for _, t := range w {
			s.ready(t)
		}
	}
}
func (g *WaitGroup) Done() { g.Add(-1) }
func (g *WaitGroup) Wait() {
	s := live()
	if s == nil {
		return
	}
	s.point()
	for g.n > 0 {
		g.w = append(g.w, s.cur)
		s.park("waitgroup")
	}
}
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	Go(func() { defer g.Done(); f() })
}

// Cond stands in for sync.Cond.
type Cond struct {
	L sync.Locker
	w []*Task
}

func NewCond(l sync.Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	s := live()
	if s == nil {
		return
	}
	t := s.cur
	woken := false
	c.w = append(c.w, t)
	c.L.Unlock()
	for !woken {
		in := false
		for _, x := range c.w {
			if x == t {
				in = true
			}
		}
		if !in {
			break
		}
		s.park("cond")
	}
	c.L.Lock()
}
func (c *Cond) Signal() {
	s := live()
	if s == nil || len(c.w) == 0 {
		return
	}
	t := c.w[0]
	c.w = c.w[1:]
	s.ready(t)
	s.point()
}
func (c *Cond) Broadcast() {
	s := live()
	if s == nil {
		return
	}
	w := c.w
	c.w = nil
	for _, t := range w {
		s.ready(t)
	}
	s.point()
}

// Pool stands in for sync.Pool: never drops, so nothing depends on the collector.
type Pool struct {
	New func() any
	l   []any
}

func (p *Pool) Get() any {
	if n := len(p.l); n > 0 {
		v := p.l[n-1]
		p.l = p.l[:n-1]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(v any) { p.l = append(p.l, v) }

// Locker is sync.Locker.
type Locker = sync.Locker

// SyncMap stands in for sync.Map with a seeded Range order.
type SyncMap struct {
	keys []any
	m    map[any]any
}

func (m *SyncMap) Load(k any) (any, bool) { Point(); v, ok := m.m[k]; return v, ok }
func (m *SyncMap) Store(k, v any) {
	Point()
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}
func (m *SyncMap) LoadOrStore(k, v any) (any, bool) {
	Point()
	if x, ok := m.m[k]; ok {
		return x, true
	}
	if m.m == nil {
		m.m = map[any]any{}
	}
	m.keys = append(m.keys, k)
	m.m[k] = v
	return v, false
}
func (m *SyncMap) LoadAndDelete(k any) (any, bool) {
	Point()
	v, ok := m.m[k]
	m.Delete(k)
	return v, ok
}
func (m *SyncMap) Delete(k any) {
	Point()
	if _, ok := m.m[k]; !ok {
		return
	}
	delete(m.m, k)
	for i, x := range m.keys {
		if x == k {
			m.keys = append(append([]any{}, m.keys[:i]...), m.keys[i+1:]...)
			return
		}
	}
}
func (m *SyncMap) Range(f func(k, v any) bool) {
	for _, k := range append([]any{}, m.keys...) {
		if v, ok := m.m[k]; ok {
			if !f(k, v) {
				return
			}
		}
	}
}
func (m *SyncMap) Swap(k, v any) (any, bool) {
	p, ok := m.Load(k)
	m.Store(k, v)
	return p, ok
}
func (m *SyncMap) CompareAndSwap(k, o, n any) bool {
	if v, ok := m.m[k]; ok && v == o {
		m.m[k] = n
		return true
	}
	return false
}
func (m *SyncMap) CompareAndDelete(k, o any) bool {
	if v, ok := m.m[k]; ok && v == o {
		m.Delete(k)
		return true
	}
	return false
}

var _ = atomic.AddInt32
