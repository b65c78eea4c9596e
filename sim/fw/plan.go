// Package fw is the search driver: plans, runs, shrinking, replay, evidence.
package fw

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"sim.local/h/simrt"
)

// Op is one step of a workload.
type Op struct {
	K string  `json:"k"`
	A []int64 `json:"a,omitempty"`
	S string  `json:"s,omitempty"`
}

func (o Op) String() string {
	s := o.K
	for _, a := range o.A {
		s += fmt.Sprintf(" %d", a)
	}
	if o.S != "" {
		s += " " + o.S
	}
	return s
}

// Arg is the i-th argument, 0 when absent.
func (o Op) Arg(i int) int64 {
	if i < len(o.A) {
		return o.A[i]
	}
	return 0
}

// Plan is one run, completely.
type Plan struct {
	Scenario  string            `json:"scenario"`
	Seed      uint64            `json:"seed"`
	P         map[string]int64  `json:"params,omitempty"`
	Ops       []Op              `json:"ops"`
	MeanGap   int               `json:"mean_gap"`
	Policy    int               `json:"policy"`
	MaxSteps  uint64            `json:"max_steps,omitempty"`
	MaxTime   time.Duration     `json:"max_time,omitempty"`
	Net       simrt.NetConfig   `json:"net"`
	Disk      simrt.DiskConfig  `json:"disk"`
	MaskPre   []int             `json:"mask_pre,omitempty"`
	MaskFault []int             `json:"mask_fault,omitempty"`
	KeepPre   int               `json:"keep_pre,omitempty"`
	KeepFault int               `json:"keep_fault,omitempty"`
	Note      map[string]string `json:"note,omitempty"`
}

// Par reads a parameter.
func (p *Plan) Par(k string) int64 { return p.P[k] }

func (p *Plan) clone() *Plan {
	q := *p
	q.Ops = append([]Op(nil), p.Ops...)
	q.MaskPre = append([]int(nil), p.MaskPre...)
	q.MaskFault = append([]int(nil), p.MaskFault...)
	q.P = map[string]int64{}
	for k, v := range p.P {
		q.P[k] = v
	}
	return &q
}

// Failure is one violated property in one run.
type Failure struct {
	Prop   string `json:"prop"`
	Class  string `json:"class"`
	Detail string `json:"detail"`
}

// Result of one run.
type Result struct {
	Fails   []Failure
	Err     string // the run itself went wrong (harness trouble)
	Hash    uint64
	Shape   uint64
	Steps   uint64
	SimTime time.Duration
	Faults  map[string]int
	Probes  map[string]int
	NonTriv bool
	End     string
	FireLog []string
	Pre     int
	FaultN  int
}

// Scenario is one workload with its oracles.
type Scenario struct {
	Name string
	// Gen draws a plan (everything but the seed) from r.
	Gen func(r *simrt.PRNG, p *Plan)
	// Run is the driver task.
	Run func(c *Ctx)
	// After runs when the simulation is over (the history is complete). c.Ended tells how it ended.
	After func(c *Ctx)
	// HangProp is blamed when the run ends in deadlock or exhausts its budgets; "" makes it a harness error.
	HangProp []string
	// CrashProp is blamed when a process dies of itself; "" ignores it.
	CrashProp []string
	Real      []string
	Stub      []string
}

// Ctx is what a scenario works with.
type Ctx struct {
	*simrt.Sim
	Plan    *Plan
	R       *simrt.PRNG // for oracles and drivers that need additional choices
	Fails   []Failure
	NonTriv bool
	Ended   string
	Data    any
	err     string
	finals  []func()
}

// Fail records a violation.
func (c *Ctx) Fail(prop, class, f string, a ...any) {
	d := fmt.Sprintf(f, a...)
	c.Logf("VIOLATION %s %s", prop, class)
	c.Note("%s", d)
	if len(c.Fails) < 50 {
		c.Fails = append(c.Fails, Failure{prop, class, d})
	}
}

// Err records trouble with the harness itself.
func (c *Ctx) Err(f string, a ...any) {
	if c.err == "" {
		c.err = fmt.Sprintf(f, a...)
	}
}

// AtEnd registers clean-up after the run.
func (c *Ctx) AtEnd(f func()) { c.finals = append(c.finals, f) }

// Scenarios by name.
var Scenarios = map[string]*Scenario{}

func Register(s *Scenario) *Scenario { Scenarios[s.Name] = s; return s }

// Use is a scenario with its share of a check's runs.
type Use struct {
	Scenario string
	Weight   int
}

// Checks lists which scenarios decide a property.
var Checks = map[string][]Use{}

// BeforeRun resets global state of the harness between runs.
var BeforeRun []func(seed uint64)

// MakePlan draws the plan for one seed.
func MakePlan(sc *Scenario, seed uint64) *Plan {
	p := &Plan{Scenario: sc.Name, Seed: seed, P: map[string]int64{}}
	r := simrt.NewPRNG(seed ^ 0xA5A5_1234_5678)
	sc.Gen(r, p)
	return p
}

// Execute runs one plan.
func Execute(p *Plan, logTo interface{ Write([]byte) (int, error) }) *Result {
	sc := Scenarios[p.Scenario]
	if sc == nil {
		return &Result{Err: "no scenario " + p.Scenario}
	}
	for _, f := range BeforeRun {
		f(p.Seed)
	}
	cfg := simrt.Config{Seed: p.Seed, MeanGap: p.MeanGap, Policy: p.Policy, MaxSteps: p.MaxSteps, MaxTime: p.MaxTime,
		Net: p.Net, Disk: p.Disk, KeepPre: p.KeepPre, KeepFault: p.KeepFault}
	if logTo != nil {
		cfg.LogTo = logTo
	}
	cfg.MaskPre = setOf(p.MaskPre)
	cfg.MaskFault = setOf(p.MaskFault)
	s := simrt.New(cfg)
	c := &Ctx{Sim: s, Plan: p, R: simrt.NewPRNG(p.Seed ^ 0x77ee_0001)}
	s.Run(func() { sc.Run(c) })
	c.Ended = s.End
	kind := endKind(s.End)
	switch kind {
	case "done":
	case "harness":
		c.Err("%s", s.End)
	default:
		if len(sc.HangProp) == 0 {
			c.Err("run ended: %s", s.End)
		}
		for _, pr := range sc.HangProp {
			c.Fails = append(c.Fails, Failure{pr, "hang: " + kind, s.End})
		}
	}
	for i := range s.Crashes {
		cr := &s.Crashes[i]
		for _, pr := range sc.CrashProp {
			c.Fails = append(c.Fails, Failure{pr, "crash: " + cr.Func, cr.Why + "\n" + cr.Stack})
		}
	}
	if sc.After != nil {
		func() {
			defer func() {
				if r := recover(); r != nil {
					c.Err("After: %v", r)
				}
			}()
			sc.After(c)
		}()
	}
	for i := len(c.finals) - 1; i >= 0; i-- {
		c.finals[i]()
	}
	for _, f := range c.Fails {
		s.MixS(f.Prop + f.Class)
	}
	return &Result{Fails: c.Fails, Err: c.err, Hash: s.Hash(), Shape: s.Shape(), Steps: s.Steps, SimTime: s.Elapsed(), Faults: s.Faults,
		Probes: s.Probes, NonTriv: c.NonTriv, End: kind, FireLog: s.FireLog, Pre: s.Preemptions(), FaultN: s.FaultIdx}
}

func endKind(e string) string {
	switch {
	case e == "done":
		return "done"
	case strings.HasPrefix(e, "harness panic"):
		return "harness"
	case strings.HasPrefix(e, "deadlock"):
		return "deadlock"
	case strings.HasPrefix(e, "time budget"):
		return "time budget"
	case strings.HasPrefix(e, "step budget"):
		return "step budget"
	}
	return e
}

func setOf(l []int) map[int]bool {
	if len(l) == 0 {
		return nil
	}
	m := map[int]bool{}
	for _, i := range l {
		m[i] = true
	}
	return m
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// Mix64 combines numbers into a seed.
func Mix64(xs ...uint64) uint64 {
	h := uint64(0x9E3779B97F4A7C15)
	for _, x := range xs {
		h ^= x
		h = (h ^ (h >> 30)) * 0xBF58476D1CE4E5B9
		h = (h ^ (h >> 27)) * 0x94D049BB133111EB
		h ^= h >> 31
	}
	return h
}

func HashS(x string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(x); i++ {
		h = (h ^ uint64(x[i])) * 1099511628211
	}
	return h
}

// SeedFor is the seed of run i of a check.
func SeedFor(prop string, base int64, i uint64) (uint64, *Scenario) {
	uses := Checks[prop]
	tot := 0
	for _, u := range uses {
		tot += u.Weight
	}
	seed := Mix64(uint64(base), HashS(prop), i) >> 1
	k := int(Mix64(seed, 7) % uint64(tot))
	for _, u := range uses {
		k -= u.Weight
		if k < 0 {
			return seed, Scenarios[u.Scenario]
		}
	}
	panic("unreachable")
}
