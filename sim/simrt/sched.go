// Package simrt is the deterministic simulator the rewritten fc-retrieval code runs on. One goroutine holds the token at
// any time; who gets it next, what time it is, what the network, the clock, the disk and the random sources do, is decided
// by streams forked from one seed.
package simrt

import (
	"bytes"
	"container/heap"
	"fmt"
	"io"
	"runtime"
	"runtime/debug"
	"strings"
	"time"
)

// S is the running simulation; nil outside a run.
var S *Sim

const (
	stepNs = 40 // simulated cost of one statement
)

// Epoch is simulated time zero.
var Epoch = time.Date(2021, 6, 1, 12, 0, 0, 0, time.UTC)

type tstate uint8

const (
	tRunnable tstate = iota
	tBlocked
	tDone
	tDead
)

// Task is one simulated goroutine.
type Task struct {
	ID     int
	Node   *Node
	Name   string
	st     tstate
	wake   chan struct{}
	why    string
	kill   bool
	inC    int // depth of C frames below (such a task can not be unwound)
	nopre  int
	prio   uint64
	poll   func() bool
	onEnd  []func()
	Tag    any // free for the harness: e.g. which request this task serves
	expect func(v any)
}

// Node is one simulated process on one machine.
type Node struct {
	Name    string
	Alive   bool
	Inc     int // incarnation
	Skew    time.Duration
	Stuck   time.Time                   // the clock stands still at this time
	HW      []byte                      // hardware address, instead of one made from the name
	Entropy func(b []byte) (int, error) // the system's random source, instead of a good one
	Env     map[string]string
	Globals map[string]any
	tasks   map[*Task]bool
	stall   int64 // not scheduled before this time
	Conns   map[*Conn]bool
	listen  map[string]*Listener
	httpd   map[string]*httpServer
	Exit    func(reason string) // told when the process dies
	Data    map[string]any      // machine state that survives restarts
	Steps   uint64
	crashAt uint64 // crash when Steps reaches this (0: never)
	rng     *PRNG
	mathRng *PRNG
	watch   []deathWatch
}

// Crash is a process death the harness did not order.
type Crash struct {
	Node  string
	At    time.Duration
	Why   string
	Stack string
	Func  string // innermost fc-retrieval function on the stack
}

type timer struct {
	at   int64
	seq  uint64
	fn   func()
	idx  int
	dead bool
}

type timerHeap []*timer

func (h timerHeap) Len() int { return len(h) }
func (h timerHeap) Less(i, j int) bool {
	if h[i].at != h[j].at {
		return h[i].at < h[j].at
	}
	return h[i].seq < h[j].seq
}
func (h timerHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i]; h[i].idx = i; h[j].idx = j }
func (h *timerHeap) Push(x any)   { t := x.(*timer); t.idx = len(*h); *h = append(*h, t) }
func (h *timerHeap) Pop() any {
	o := *h
	t := o[len(o)-1]
	o[len(o)-1] = nil
	*h = o[:len(o)-1]
	return t
}

// Config is what one run is made from.
type Config struct {
	Seed      uint64
	MeanGap   int // mean number of statements between forced preemptions (0: none)
	Policy    int // 0 uniform, 1 random priorities with change points
	MaxSteps  uint64
	MaxTime   time.Duration
	Net       NetConfig
	Disk      DiskConfig
	MaskFault map[int]bool // suppressed fault firings, by ordinal
	MaskPre   map[int]bool // suppressed preemptions, by ordinal
	KeepPre   int          // if >=0, suppress all preemptions with ordinal >= KeepPre
	KeepFault int
	LogTo     io.Writer
}

// Sim is one run.
type Sim struct {
	Cfg      Config
	now      int64
	seq      uint64
	timers   timerHeap
	cur      *Task
	runq     []*Task
	all      []*Task
	nextID   int
	Nodes    map[string]*Node
	NodeList []*Node

	Sched, NetR, DiskR, Work, RandR *PRNG

	Steps    uint64
	nextStop uint64
	nextPre  uint64
	preIdx   int
	FaultIdx int
	Switches uint64

	Faults   map[string]int
	Crashes  []Crash
	OnCrash  func(c *Crash)
	hash     uint64
	shape    uint64 // hash of the interleaving only
	End      string // why the run ended
	done     chan struct{}
	over     bool
	tearing  bool
	exited   chan struct{}
	FireLog  []string
	PreLog   []string
	links    map[[2]string]*link
	chans    map[chanKey]*chanState
	mapw     map[uintptr]*mapUse
	EventSeq uint64
	Probes   map[string]int
	AfterEvt func() // invariant hook, called at every scheduling point while non-nil
	inHook   bool
	rpcs     int
	allConns []*Conn
	prngEnv  map[string]int
}

// New prepares a run.
func New(cfg Config) *Sim {
	root := NewPRNG(cfg.Seed)
	s := &Sim{Cfg: cfg, Nodes: map[string]*Node{}, Faults: map[string]int{}, done: make(chan struct{}), exited: make(chan struct{}),
		links: map[[2]string]*link{}, chans: map[chanKey]*chanState{}, mapw: map[uintptr]*mapUse{}, Probes: map[string]int{}}
	s.Sched = root.Fork(1)
	s.NetR = root.Fork(2)
	s.DiskR = root.Fork(3)
	s.Work = root.Fork(4)
	s.RandR = root.Fork(5)
	s.hash = 14695981039346656037
	s.shape = s.hash
	if s.Cfg.MaxSteps == 0 {
		s.Cfg.MaxSteps = 20_000_000
	}
	if s.Cfg.MaxTime == 0 {
		s.Cfg.MaxTime = 24 * time.Hour
	}
	if s.Cfg.KeepPre == 0 {
		s.Cfg.KeepPre = 1 << 60
	}
	if s.Cfg.KeepFault == 0 {
		s.Cfg.KeepFault = 1 << 60
	}
	s.drawPre()
	return s
}

func (s *Sim) drawPre() {
	if s.Cfg.MeanGap <= 0 {
		s.nextPre = ^uint64(0)
	} else {
		s.nextPre = s.Steps + 1 + uint64(s.Sched.N(2*s.Cfg.MeanGap))
	}
	s.setStop()
}

func (s *Sim) setStop() {
	s.nextStop = s.nextPre
	if s.Cfg.MaxSteps < s.nextStop {
		s.nextStop = s.Cfg.MaxSteps
	}
}

// Mix folds a value into the event hash.
func (s *Sim) Mix(v uint64) {
	s.hash = (s.hash ^ v) * 1099511628211
	s.hash ^= s.hash >> 29
}

func (s *Sim) MixS(x string) {
	h := uint64(14695981039346656037)
	for i := 0; i < len(x); i++ {
		h = (h ^ uint64(x[i])) * 1099511628211
	}
	s.Mix(h)
}

// Hash of everything observable that happened so far.
func (s *Sim) Hash() uint64  { return s.hash }
func (s *Sim) Shape() uint64 { return s.shape }

// Logf records an event: into the hash always, as text when a log is attached.
func (s *Sim) Logf(f string, a ...any) {
	m := fmt.Sprintf(f, a...)
	s.MixS(m)
	if s.Cfg.LogTo != nil {
		who := "-"
		if s.cur != nil {
			who = fmt.Sprintf("%s/%d", s.cur.nodeName(), s.cur.ID)
		}
		fmt.Fprintf(s.Cfg.LogTo, "[%14.6f %8d %-10s] %s\n", float64(s.now)/1e9, s.Steps, who, m)
	}
}

// Note writes to the text log only.
func (s *Sim) Note(f string, a ...any) {
	if s.Cfg.LogTo != nil {
		who := "-"
		if s.cur != nil {
			who = fmt.Sprintf("%s/%d", s.cur.nodeName(), s.cur.ID)
		}
		fmt.Fprintf(s.Cfg.LogTo, "[%14.6f %8d %-10s] . %s\n", float64(s.now)/1e9, s.Steps, who, fmt.Sprintf(f, a...))
	}
}

func (t *Task) nodeName() string {
	if t.Node == nil {
		return "world"
	}
	return t.Node.Name
}

// Elapsed is simulated time since the start of the run.
func (s *Sim) Elapsed() time.Duration { return time.Duration(s.now) }

// Seq hands out global event sequence numbers.
func (s *Sim) Seq() uint64 { s.EventSeq++; return s.EventSeq }

// Probe counts a rare condition that was reached.
func (s *Sim) Probe(name string) { s.Probes[name]++ }

// Fault decides whether a fault of this kind fires here.
func (s *Sim) Fault(r *PRNG, kind string, p float64) bool {
	if p <= 0 {
		return false
	}
	if !r.P(p) {
		return false
	}
	i := s.FaultIdx
	s.FaultIdx++
	if s.Cfg.MaskFault[i] || i >= s.Cfg.KeepFault {
		return false
	}
	s.Faults[kind]++
	s.FireLog = append(s.FireLog, fmt.Sprintf("#%d t=%.6f %s", i, float64(s.now)/1e9, kind))
	s.Logf("FAULT #%d %s", i, kind)
	return true
}

// Injected counts a fault the harness injected itself.
func (s *Sim) Injected(kind string) {
	s.Faults[kind]++
	s.FireLog = append(s.FireLog, fmt.Sprintf("-- t=%.6f %s", float64(s.now)/1e9, kind))
	s.Logf("INJECT %s", kind)
}

// AddNode creates a machine with no process running on it.
func (s *Sim) AddNode(name string) *Node {
	n := &Node{Name: name, Env: map[string]string{}, Data: map[string]any{}}
	n.reset()
	s.Nodes[name] = n
	s.NodeList = append(s.NodeList, n)
	n.rng = s.RandR.Fork(uint64(len(s.NodeList)))
	return n
}

func (n *Node) reset() {
	n.mathRng = nil
	n.Globals = map[string]any{}
	n.tasks = map[*Task]bool{}
	n.Conns = map[*Conn]bool{}
	n.listen = map[string]*Listener{}
	n.httpd = map[string]*httpServer{}
	n.stall = 0
	n.crashAt = 0
}

// Boot starts a process on the machine.
func (s *Sim) Boot(n *Node, name string, f func()) {
	if n.Alive {
		panic("boot of a running node " + n.Name)
	}
	n.reset()
	n.Alive = true
	n.Inc++
	s.Logf("BOOT %s inc=%d", n.Name, n.Inc)
	s.spawn(n, name, f)
}

// CrashNode kills the process on the machine (kill -9).
func (s *Sim) CrashNode(n *Node, why string) {
	if !n.Alive {
		return
	}
	s.Logf("CRASH %s: %s", n.Name, why)
	n.Alive = false
	for t := range n.tasks {
		if t.st != tDone { // the one whose panic ends the process
			t.st = tDead
		}
	}
	q := s.runq[:0]
	for _, t := range s.runq {
		if t.st != tDead {
			q = append(q, t)
		}
	}
	s.runq = q
	var cs []*Conn
	for _, c := range s.allConns {
		if c.node == n && n.Conns[c] {
			cs = append(cs, c)
		}
	}
	for _, c := range cs {
		c.kernelReset()
	}
	for _, l := range n.listen {
		l.closed = true
	}
	n.listen = map[string]*Listener{}
	n.httpd = map[string]*httpServer{}
	if n.Exit != nil {
		n.Exit(why)
	}
	for _, f := range nodeDeathHooks {
		f(n)
	}
	s.runDeathNotices(n)
	if s.cur != nil && s.cur.Node == n && s.cur.st != tDone {
		s.switchAway()
	}
}

var nodeDeathHooks []func(*Node)

// OnNodeDeath registers a global hook (the disk layer drops locks there).
func OnNodeDeath(f func(*Node)) { nodeDeathHooks = append(nodeDeathHooks, f) }

// CrashAfterSteps arranges for the process to die after it executed k more statements.
func (s *Sim) CrashAfterSteps(n *Node, k uint64) { n.crashAt = n.Steps + k }

// Stall keeps all tasks of the node from running for d.
func (s *Sim) Stall(n *Node, d time.Duration) {
	n.stall = s.now + int64(d)
	s.At(d, func() {})
}

// At runs f in scheduler context after d.
func (s *Sim) At(d time.Duration, f func()) *timer {
	if d < 0 {
		d = 0
	}
	s.seq++
	t := &timer{at: s.now + int64(d), seq: s.seq, fn: f}
	heap.Push(&s.timers, t)
	return t
}

func (s *Sim) cancel(t *timer) {
	if t == nil || t.dead {
		return
	}
	t.dead = true
	if t.idx >= 0 && t.idx < len(s.timers) && s.timers[t.idx] == t {
		heap.Remove(&s.timers, t.idx)
	}
}

// Cancel a pending At.
func (s *Sim) Cancel(t *timer) { s.cancel(t) }

func (s *Sim) spawn(n *Node, name string, f func()) *Task {
	s.nextID++
	t := &Task{ID: s.nextID, Node: n, Name: name, wake: make(chan struct{}, 1), st: tRunnable, prio: s.Sched.U64()}
	if s.cur != nil && s.cur.Node == n {
		t.Tag = s.cur.Tag
	}
	if n != nil {
		n.tasks[t] = true
	}
	s.all = append(s.all, t)
	s.runq = append(s.runq, t)
	go s.runTask(t, f)
	return t
}

func (s *Sim) runTask(t *Task, f func()) {
	normal := false
	defer func() {
		r := recover()
		if t.kill || s.tearing {
			s.exited <- struct{}{}
			return
		}
		if !normal {
			stack := string(debug.Stack())
			why := fmt.Sprint(r)
			if r == nil {
				why = "goroutine exit"
			}
			t.st = tDone
			if t.Node == nil {
				s.finish("harness panic: " + why + "\n" + stack)
				s.schedule(nil)
				return
			}
			if t.expect != nil {
				t.expect(r)
			} else if r != nil {
				s.processDied(t.Node, "panic: "+why, stack)
			}
		}
		t.st = tDone
		if t.Node != nil {
			delete(t.Node.tasks, t)
		}
		for _, g := range t.onEnd {
			g()
		}
		s.schedule(nil)
	}()
	<-t.wake
	if t.kill {
		runtime.Goexit()
	}
	f()
	normal = true
}

func (s *Sim) processDied(n *Node, why, stack string) {
	c := Crash{Node: n.Name, At: time.Duration(s.now), Why: why, Stack: stack, Func: InnermostFunc(stack)}
	s.Crashes = append(s.Crashes, c)
	s.Logf("PROCESS DIED %s: %s in %s", n.Name, why, c.Func)
	s.Note("%s", stack)
	if s.OnCrash != nil {
		s.OnCrash(&s.Crashes[len(s.Crashes)-1])
	}
	s.CrashNode(n, why)
}

// Fatal kills the current process the way the Go runtime's unrecoverable errors do.
func (s *Sim) Fatal(why string) {
	t := s.cur
	if t == nil || t.Node == nil {
		panic("fatal in the harness: " + why)
	}
	s.processDied(t.Node, why, string(debug.Stack()))
}

// InnermostFunc names the innermost fc-retrieval function on a stack dump.
func InnermostFunc(stack string) string {
	st := stack
	if i := strings.LastIndex(st, "panic("); i >= 0 { // frames below the panic
		st = st[i:]
	}
	for _, l := range strings.Split(st, "\n") {
		if strings.HasPrefix(l, "github.com/ConsenSys/fc-retrieval/") {
			l = strings.TrimPrefix(l, "github.com/ConsenSys/fc-retrieval/")
			if j := strings.LastIndex(l, "("); j > 0 {
				l = l[:j]
			}
			if strings.Contains(l, "zz") && strings.Contains(l, "Zzg") {
				continue
			}
			return l
		}
	}
	return "?"
}

func (s *Sim) finish(why string) {
	if !s.over {
		s.over = true
		s.End = why
		s.Logf("END %s", why)
	}
}

// Run executes main as the driver task and returns when it returned (or the run was cut).
func (s *Sim) Run(main func()) {
	if S != nil {
		panic("nested run")
	}
	S = s
	d := s.spawn(nil, "main", main)
	d.onEnd = append(d.onEnd, func() { s.finish("done") })
	s.schedule(nil)
	<-s.done
	s.teardown()
	S = nil
}

func (s *Sim) teardown() {
	s.tearing = true
	s.AfterEvt = nil
	for _, t := range s.all {
		if t.st == tDone || t.inC > 0 {
			continue
		}
		t.kill = true
		s.cur = t
		t.wake <- struct{}{}
		<-s.exited
	}
	s.cur = nil
}

// schedule hands the token to the next task. from is the parked task that calls (nil: an ended one); when the choice falls
// on from itself it reports true and no token is passed.
func (s *Sim) schedule(from *Task) bool {
	if s.tearing {
		return false
	}
	s.cur = nil
	for {
		if s.AfterEvt != nil && !s.inHook {
			s.inHook = true
			s.AfterEvt()
			s.inHook = false
		}
		if s.over {
			s.cur = nil
			close(s.done)
			return false
		}
		for len(s.timers) > 0 && s.timers[0].at <= s.now {
			t := heap.Pop(&s.timers).(*timer)
			t.dead = true
			t.idx = -1
			t.fn()
		}
		if t := s.pick(); t != nil {
			s.cur = t
			if t != from {
				s.Switches++
				s.shape = (s.shape ^ uint64(t.ID)) * 1099511628211
				s.shape ^= s.shape >> 31
				s.Mix(uint64(t.ID)<<32 ^ s.Steps)
			}
			if t == from {
				return true
			}
			t.wake <- struct{}{}
			return false
		}
		if s.pollForeign() {
			continue
		}
		if len(s.timers) == 0 {
			s.finish("deadlock: every task is blocked and nothing is scheduled\n" + s.Dump())
			continue
		}
		s.now = s.timers[0].at
		if time.Duration(s.now) > s.Cfg.MaxTime {
			s.finish("time budget exhausted\n" + s.Dump())
		}
	}
}

func (s *Sim) pollForeign() bool {
	any := false
	for _, t := range s.all {
		if t.st == tBlocked && t.poll != nil && t.poll() {
			any = true
		}
	}
	return any
}

// Dump describes all live tasks.
func (s *Sim) Dump() string {
	var b bytes.Buffer
	for _, t := range s.all {
		if t.st == tBlocked || t.st == tRunnable {
			fmt.Fprintf(&b, "  task %d %s/%s: %v %s\n", t.ID, t.nodeName(), t.Name, t.st, t.why)
		}
	}
	return b.String()
}

// BlockedTasks lists why the tasks of a node are blocked.
func (s *Sim) BlockedTasks(n *Node) []string {
	var r []string
	for _, t := range s.all {
		if t.Node == n && t.st == tBlocked {
			r = append(r, t.Name+": "+t.why)
		}
	}
	return r
}

func (s *Sim) pick() *Task {
	n := len(s.runq)
	if n == 0 {
		return nil
	}
	stalled := false
	for _, t := range s.runq {
		if t.Node != nil && t.Node.stall > s.now {
			stalled = true
			break
		}
	}
	i := -1
	if !stalled {
		if n == 1 {
			i = 0
		} else if s.Cfg.Policy == 1 {
			for j, t := range s.runq {
				if i < 0 || t.prio > s.runq[i].prio {
					i = j
				}
			}
			if s.Sched.N(16) == 0 {
				i = s.Sched.N(n)
				s.runq[i].prio = s.Sched.U64()
			}
		} else {
			i = s.Sched.N(n)
		}
	} else {
		var c []int
		for j, t := range s.runq {
			if t.Node == nil || t.Node.stall <= s.now {
				c = append(c, j)
			}
		}
		if len(c) == 0 {
			return nil
		}
		i = c[s.Sched.N(len(c))]
	}
	t := s.runq[i]
	s.runq[i] = s.runq[n-1]
	s.runq[n-1] = nil
	s.runq = s.runq[:n-1]
	return t
}

// park blocks the current task until ready(t).
func (s *Sim) park(why string) {
	t := s.cur
	t.st = tBlocked
	t.why = why
	s.handOver(t)
}

// handOver gives the token away and waits to get it back.
func (s *Sim) handOver(t *Task) {
	if s.schedule(t) {
		return
	}
	<-t.wake
	if t.kill {
		runtime.Goexit()
	}
}

// switchAway gives the token away for good.
func (s *Sim) switchAway() {
	t := s.cur
	if t != nil && t.st == tRunnable {
		t.st = tDead
	}
	s.schedule(nil)
	if t == nil {
		select {}
	}
	<-t.wake
	runtime.Goexit()
}

func (s *Sim) ready(t *Task) {
	if t.st != tBlocked {
		return
	}
	t.st = tRunnable
	t.why = ""
	t.poll = nil
	s.runq = append(s.runq, t)
}

// yield lets anybody else run.
func (s *Sim) yield() {
	t := s.cur
	t.st = tRunnable
	s.runq = append(s.runq, t)
	s.handOver(t)
}

// live reports whether simulated primitives should act: inside a run, not while tearing it down.
func live() *Sim {
	s := S
	if s == nil || s.tearing || s.cur == nil {
		return nil
	}
	return s
}

// Y is inserted before every statement of the rewritten code.
func Y(site int32) {
	s := S
	if s == nil || s.tearing {
		return
	}
	s.Steps++
	s.now += stepNs
	t := s.cur
	if t == nil {
		return
	}
	if n := t.Node; n != nil {
		n.Steps++
		if n.crashAt != 0 && n.Steps >= n.crashAt {
			n.crashAt = 0
			s.Injected("crash-at-statement " + n.Name)
			s.CrashNode(n, "injected crash")
			return
		}
	}
	if s.Steps < s.nextStop {
		return
	}
	s.slowY(t)
}

func (s *Sim) slowY(t *Task) {
	if s.Steps >= s.Cfg.MaxSteps {
		s.finish("step budget exhausted in " + t.nodeName() + "/" + t.Name + "\n" + string(debug.Stack()))
		s.yield()
		return
	}
	if s.Steps >= s.nextPre {
		i := s.preIdx
		s.preIdx++
		s.drawPre()
		if t.nopre > 0 || s.inHook {
			return
		}
		if s.Cfg.MaskPre[i] || i >= s.Cfg.KeepPre {
			return
		}
		t.prio = s.Sched.U64()
		s.yield()
	}
}

// Preemptions reports how many preemption decisions were made.
func (s *Sim) Preemptions() int { return s.preIdx }

// Point is a scheduling point at an operation others can see (lock, channel, I/O).
func Point() {
	s := live()
	if s == nil {
		return
	}
	s.point()
}

func (s *Sim) point() {
	s.Steps++
	s.now += stepNs
	t := s.cur
	if t == nil {
		return
	}
	if t.nopre == 0 && !s.inHook && len(s.runq) > 0 && s.Cfg.MeanGap > 0 && s.Sched.N(4) == 0 {
		i := s.preIdx
		s.preIdx++
		if s.Cfg.MaskPre[i] || i >= s.Cfg.KeepPre {
			return
		}
		s.yield()
	}
}

// Go starts a goroutine of the current process.
func Go(f func()) {
	s := S
	if s == nil {
		go f()
		return
	}
	if s.tearing {
		return
	}
	name := "go"
	if pc, _, _, ok := runtime.Caller(1); ok {
		if fn := runtime.FuncForPC(pc); fn != nil {
			name = fn.Name()
			if i := strings.LastIndexByte(name, '/'); i >= 0 {
				name = name[i+1:]
			}
		}
	}
	s.spawn(s.cur.Node, name, f)
	s.point()
}

// GoOn starts a task of the given node (nil: harness).
func (s *Sim) GoOn(n *Node, name string, f func()) *Task { return s.spawn(n, name, f) }

// OnEnd registers f to run when the task ends (not when it is killed).
func (t *Task) OnEnd(f func()) { t.onEnd = append(t.onEnd, f) }

// Cur is the running task.
func Cur() *Task {
	if S == nil {
		return nil
	}
	return S.cur
}

// CurNode is the node the running task belongs to.
func CurNode() *Node {
	if S == nil || S.cur == nil {
		return nil
	}
	return S.cur.Node
}

// Call runs f on node n in a new task and waits for it. ok is false when the node died before f returned.
func (s *Sim) Call(n *Node, name string, f func()) (ok bool) {
	me := s.cur
	if n != nil && !n.Alive {
		return false
	}
	fin := false
	t := s.spawn(n, name, func() { f(); ok = true })
	wake := func() {
		if !fin {
			fin = true
			s.ready(me)
		}
	}
	t.onEnd = append(t.onEnd, wake)
	if n != nil {
		s.watchDeath(n, t, wake)
	}
	for !fin {
		s.park("call " + name)
	}
	return ok
}

type deathWatch struct {
	t *Task
	f func()
}

func (s *Sim) watchDeath(n *Node, t *Task, f func()) {
	if len(n.watch) > 32 {
		k := n.watch[:0]
		for _, w := range n.watch {
			if w.t == nil || (w.t.st != tDone && w.t.st != tDead) {
				k = append(k, w)
			}
		}
		n.watch = k
	}
	n.watch = append(n.watch, deathWatch{t, f})
}

func (s *Sim) runDeathNotices(n *Node) {
	l := n.watch
	n.watch = nil
	for _, w := range l {
		if w.t == nil || w.t.st != tDone || w.t == s.cur {
			w.f()
		}
	}
}

// WaitUntil polls cond at scheduling granularity until it holds or d passed.
func (s *Sim) WaitUntil(d time.Duration, every time.Duration, cond func() bool) bool {
	end := s.now + int64(d)
	for {
		if cond() {
			return true
		}
		if s.now >= end {
			return false
		}
		s.SleepFor(every)
	}
}

// SleepFor suspends the current task.
func (s *Sim) SleepFor(d time.Duration) {
	t := s.cur
	if d <= 0 {
		s.yield()
		return
	}
	s.At(d, func() { s.ready(t) })
	s.park("sleep")
}

// Atomically runs f without preemption (it must not block).
func (s *Sim) Atomically(f func()) {
	t := s.cur
	t.nopre++
	f()
	t.nopre--
}

// WaitGroup-like helper for harness tasks: runs all functions as tasks on their nodes, waits for all of them.
func (s *Sim) Parallel(fs ...func()) {
	me := s.cur
	left := len(fs)
	for i, f := range fs {
		t := s.spawn(nil, fmt.Sprintf("par%d", i), f)
		t.onEnd = append(t.onEnd, func() {
			left--
			if left == 0 {
				s.ready(me)
			}
		})
	}
	for left > 0 {
		s.park("parallel")
	}
}

// EnterC / LeaveC bracket calls back from C code on the current task.
func EnterC() {
	if s := live(); s != nil {
		s.cur.inC++
	}
}
func LeaveC() {
	if s := live(); s != nil {
		s.cur.inC--
	}
}

// Yield is a forced scheduling point.
func Yield() {
	if s := live(); s != nil {
		s.yield()
	}
}

// CancelCrash withdraws what CrashAfterSteps arranged.
func (s *Sim) CancelCrash(n *Node) { n.crashAt = 0 }
