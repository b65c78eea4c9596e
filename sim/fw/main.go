package fw

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Known is an entry of known_findings.json.
type Known struct {
	Property string `json:"property"`
	Class    string `json:"class,omitempty"` // exact failure class
	What     string `json:"what"`
	Status   string `json:"status"` // "finding" or "fixed"
	Commit   string `json:"commit,omitempty"`
	Line     string `json:"line,omitempty"`
}

func loadKnown(path string) []Known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var k []Known
	if err := json.Unmarshal(b, &k); err != nil {
		fatal("known findings: %v", err)
	}
	return k
}

// Stderr is for the simulator's own messages.
var Stderr = os.Stderr

func fatal(f string, a ...any) {
	fmt.Fprintf(Stderr, "sim: "+f+"\n", a...)
	os.Exit(2)
}

// Summary is what a worker reports.
type Summary struct {
	Runs, NonTriv  int
	Steps          uint64
	SimNs          int64
	Faults, Probes map[string]int
	Ends           map[string]int
	PerScenario    map[string]int
	Shapes         string // file with 8-byte shapes
	Next           uint64
	Known          map[string]int
	Pre            int
	FaultRuns      int
}

type msg struct {
	T      string   `json:"t"` // fail, err, sum, hash, sample
	I      uint64   `json:"i,omitempty"`
	Fail   *Failure `json:"fail,omitempty"`
	Plan   *Plan    `json:"plan,omitempty"`
	Hash   string   `json:"hash,omitempty"`
	Sum    *Summary `json:"sum,omitempty"`
	Err    string   `json:"err,omitempty"`
	Sample any      `json:"sample,omitempty"`
}

var realOut *os.File

// Main is the command line.
func Main() {
	runtime.GOMAXPROCS(1)
	realOut = os.Stdout
	if len(os.Args) < 2 {
		fatal("usage: sim check|work|one|replay|list")
	}
	if os.Getenv("SIM_NOISE") == "" && os.Args[1] != "check" && os.Args[1] != "list" {
		if n, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
			os.Stdout, os.Stderr = n, n // the nodes' chatter
		}
	}
	args := os.Args[2:]
	os.Args = os.Args[:1]
	switch cmd := flagCmd(args); cmd.name {
	default:
		cmd.run(args)
	}
}

type command struct {
	name string
	run  func([]string)
}

var argv1 string

func init() {
	if len(os.Args) > 1 {
		argv1 = os.Args[1]
	}
}

func flagCmd([]string) command {
	switch argv1 {
	case "check":
		return command{"check", cmdCheck}
	case "work":
		return command{"work", cmdWork}
	case "one":
		return command{"one", cmdOne}
	case "replay":
		return command{"replay", cmdReplay}
	case "shrink":
		return command{"shrink", cmdShrink}
	case "hashes":
		return command{"hashes", cmdHashes}
	case "list":
		return command{"list", func([]string) {
			for _, k := range sortedKeys(Checks) {
				fmt.Println(k, Checks[k])
			}
		}}
	}
	fatal("unknown command %q", argv1)
	return command{}
}

// watchdog ends the process when one run takes too long in real time: an error of the check, never a violation.
func watchdog(limit time.Duration) (kick func(string)) {
	var mu sync.Mutex
	last := time.Now()
	what := ""
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			mu.Lock()
			d, w := time.Since(last), what
			mu.Unlock()
			if d > limit {
				buf := make([]byte, 1<<20)
				buf = buf[:runtime.Stack(buf, true)]
				fmt.Fprintf(Stderr, "sim: watchdog: run %s has taken %v\n%s\n", w, d, buf)
				os.Exit(4)
			}
		}
	}()
	return func(w string) { mu.Lock(); last = time.Now(); what = w; mu.Unlock() }
}

func rss() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * 4096
}

// cmdWork explores seeds from, from+stride, ... until the deadline.
func cmdWork(args []string) {
	fs := flag.NewFlagSet("work", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	base := fs.Int64("base", 1, "")
	from := fs.Uint64("from", 0, "")
	stride := fs.Uint64("stride", 1, "")
	until := fs.Int64("until", 0, "unix nanoseconds")
	max := fs.Int("max", 0, "")
	shapes := fs.String("shapes", "", "")
	known := fs.String("known", "", "")
	memMB := fs.Int64("mem", 1500, "")
	sampleEvery := fs.Uint64("hash-every", 0, "")
	fs.Parse(args)
	debug.SetGCPercent(-1)
	out := bufio.NewWriter(realOut)
	send := func(m msg) { b, _ := json.Marshal(m); out.Write(b); out.WriteByte('\n'); out.Flush() }
	kn := map[string]bool{}
	for _, k := range loadKnown(*known) {
		if k.Status == "finding" && k.Property == *prop {
			kn[k.Class] = true
		}
	}
	sum := &Summary{Faults: map[string]int{}, Probes: map[string]int{}, Ends: map[string]int{}, PerScenario: map[string]int{}, Known: map[string]int{}, Shapes: *shapes}
	var sh *bufio.Writer
	if *shapes != "" {
		f, err := os.OpenFile(*shapes, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
		if err != nil {
			fatal("%v", err)
		}
		defer f.Close()
		sh = bufio.NewWriter(f)
		defer sh.Flush()
	}
	kick := watchdog(120 * time.Second)
	i := *from
	stopped := "end"
	lastGC := rss()
	for n := 0; ; n++ {
		if *max > 0 && n >= *max {
			break
		}
		if *until > 0 && time.Now().UnixNano() > *until {
			break
		}
		seed, sc := SeedFor(*prop, *base, i)
		kick(fmt.Sprintf("%s %s seed=%d", *prop, sc.Name, seed))
		p := MakePlan(sc, seed)
		r := Execute(p, nil)
		sum.Runs++
		sum.PerScenario[sc.Name]++
		sum.Steps += r.Steps
		sum.SimNs += int64(r.SimTime)
		sum.Pre += r.Pre
		for k, v := range r.Faults {
			sum.Faults[faultKind(k)] += v
		}
		if len(r.Faults) > 0 {
			sum.FaultRuns++
		}
		for k, v := range r.Probes {
			sum.Probes[k] += v
		}
		sum.Ends[r.End]++
		if r.NonTriv {
			sum.NonTriv++
			if sh != nil {
				var b [8]byte
				binary.LittleEndian.PutUint64(b[:], r.Shape)
				sh.Write(b[:])
			}
		}
		if *sampleEvery > 0 && i%*sampleEvery == 0 {
			send(msg{T: "hash", I: i, Hash: fmt.Sprintf("%016x", r.Hash)})
			if i < 64 {
				send(msg{T: "sample", I: i, Sample: sampleOf(p, r)})
			}
		}
		if r.Err != "" {
			send(msg{T: "err", I: i, Plan: p, Err: r.Err})
			stopped = "err"
			break
		}
		bad := false
		for k := range r.Fails {
			f := r.Fails[k]
			if f.Prop != *prop {
				continue
			}
			if kn[f.Class] {
				sum.Known[f.Class]++
				continue
			}
			send(msg{T: "fail", I: i, Plan: p, Fail: &f, Hash: fmt.Sprintf("%016x", r.Hash)})
			bad = true
			break
		}
		if bad {
			stopped = "fail"
			i += *stride
			break
		}
		i += *stride
		if m := rss(); m-lastGC > 64<<20 || n%64 == 63 {
			runtime.GC()
			m = rss()
			lastGC = m
			if m > *memMB<<20 || runtime.NumGoroutine() > 5000 {
				stopped = "recycle"
				break
			}
		}
	}
	sum.Next = i
	if sh != nil {
		sh.Flush()
	}
	send(msg{T: "sum", Sum: sum, Err: stopped})
}

func faultKind(k string) string {
	if i := strings.IndexByte(k, ' '); i > 0 {
		return k[:i]
	}
	return k
}

func sampleOf(p *Plan, r *Result) any {
	var ops []string
	for i, o := range p.Ops {
		if i == 12 {
			ops = append(ops, fmt.Sprintf("... %d more", len(p.Ops)-12))
			break
		}
		ops = append(ops, o.String())
	}
	fl := r.FireLog
	if len(fl) > 12 {
		fl = fl[:12]
	}
	return map[string]any{"scenario": p.Scenario, "seed": p.Seed, "params": p.P, "ops": ops, "faults": fl, "end": r.End, "steps": r.Steps, "sim_seconds": r.SimTime.Seconds(), "preemptions": r.Pre}
}

// cmdOne runs one seed of a check, or a scenario's, with the log on stdout.
func cmdOne(args []string) {
	fs := flag.NewFlagSet("one", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	sc := fs.String("scenario", "", "")
	base := fs.Int64("base", 1, "")
	idx := fs.Uint64("i", 0, "")
	seed := fs.Uint64("seed", 0, "")
	quiet := fs.Bool("q", false, "")
	fs.Parse(args)
	var s *Scenario
	sd := *seed
	if *prop != "" {
		sd, s = SeedFor(*prop, *base, *idx)
	} else {
		s = Scenarios[*sc]
	}
	debug.SetGCPercent(-1)
	p := MakePlan(s, sd)
	w := bufio.NewWriter(realOut)
	defer w.Flush()
	t := time.Now()
	var r *Result
	if *quiet {
		r = Execute(p, nil)
	} else {
		r = Execute(p, w)
	}
	report(w, p, r, time.Since(t))
}

func report(w *bufio.Writer, p *Plan, r *Result, d time.Duration) {
	b, _ := json.Marshal(p)
	fmt.Fprintf(w, "plan %s\n", b)
	fmt.Fprintf(w, "end=%s err=%q hash=%016x shape=%016x steps=%d sim=%v wall=%v nontrivial=%v pre=%d\n", r.End, r.Err, r.Hash, r.Shape, r.Steps, r.SimTime, d, r.NonTriv, r.Pre)
	fmt.Fprintf(w, "faults %v\nprobes %v\n", r.Faults, r.Probes)
	for _, f := range r.Fails {
		fmt.Fprintf(w, "FAIL %s [%s] %s\n", f.Prop, f.Class, f.Detail)
	}
}

// Replay file.
type Replay struct {
	Property  string   `json:"property"`
	Class     string   `json:"class"`
	Detail    string   `json:"detail"`
	Hash      string   `json:"hash"`
	Base      int64    `json:"verif_seed"`
	Index     uint64   `json:"run_index"`
	Plan      *Plan    `json:"plan"`
	Faults    []string `json:"fault_trace"`
	Original  int      `json:"original_ops"`
	Minimised bool     `json:"minimised"`
	Log       string   `json:"log,omitempty"`
}

func cmdReplay(args []string) {
	if len(args) < 1 {
		fatal("replay FILE [-v]")
	}
	b, err := os.ReadFile(args[0])
	if err != nil {
		fatal("%v", err)
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		fatal("%v", err)
	}
	debug.SetGCPercent(-1)
	watchdog(120 * time.Second)(rp.Property)
	w := bufio.NewWriter(realOut)
	var r *Result
	t := time.Now()
	if len(args) > 1 && args[1] == "-v" {
		r = Execute(rp.Plan, w)
		report(w, rp.Plan, r, time.Since(t))
	} else {
		r = Execute(rp.Plan, nil)
	}
	h := fmt.Sprintf("%016x", r.Hash)
	same := false
	for _, f := range r.Fails {
		if f.Prop == rp.Property && f.Class == rp.Class {
			same = true
			fmt.Fprintf(w, "%s\n", f.Detail)
			break
		}
	}
	fmt.Fprintf(w, "replay: reproduced=%v hash=%s recorded=%s\n", same, h, rp.Hash)
	w.Flush()
	if same && h == rp.Hash {
		fmt.Fprintf(realOut, "VIOLATION property=%s replay=%s\n", rp.Property, args[0])
		os.Exit(1)
	}
	if same {
		os.Exit(5)
	}
	os.Exit(0)
}

func cmdHashes(args []string) {
	fs := flag.NewFlagSet("hashes", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	base := fs.Int64("base", 1, "")
	list := fs.String("list", "", "")
	fs.Parse(args)
	debug.SetGCPercent(-1)
	kick := watchdog(120 * time.Second)
	for _, x := range strings.Split(*list, ",") {
		i, _ := strconv.ParseUint(x, 10, 64)
		seed, sc := SeedFor(*prop, *base, i)
		kick(fmt.Sprintf("%s seed=%d", sc.Name, seed))
		r := Execute(MakePlan(sc, seed), nil)
		fmt.Fprintf(realOut, "%d %016x\n", i, r.Hash)
		runtime.GC()
	}
}

// cmdCheck is the check of one property.
func cmdCheck(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	base := fs.Int64("base", 1, "")
	secs := fs.Float64("secs", 0, "")
	dir := fs.String("dir", "/verif", "")
	workers := fs.Int("workers", 8, "")
	level := fs.String("level", "exploration", "")
	noEvidence := fs.Bool("no-evidence", false, "")
	fs.Parse(args)
	runtime.GOMAXPROCS(2)
	uses := Checks[*prop]
	if len(uses) == 0 {
		fatal("no check for %s", *prop)
	}
	start := time.Now()
	fmt.Printf("check %s tier=%s VERIF_SEED=%d\n", *prop, *tier, *base)
	self, err := os.Executable()
	if err != nil {
		fatal("%v", err)
	}
	knownFile := filepath.Join(*dir, "known_findings.json")
	known := loadKnown(knownFile)
	tmp, err := os.MkdirTemp("", "simcheck")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(tmp)
	exit := func(code int) { os.RemoveAll(tmp); os.Exit(code) }
	deadline := start.Add(time.Duration(*secs * float64(time.Second)))

	var mu sync.Mutex
	total := &Summary{Faults: map[string]int{}, Probes: map[string]int{}, Ends: map[string]int{}, PerScenario: map[string]int{}, Known: map[string]int{}}
	var fails, errs []msg
	hashes := map[uint64]string{}
	var samples []any
	var procs = map[*exec.Cmd]bool{}
	stopping := false
	var wg sync.WaitGroup
	const hashEvery = 61
	spawn := func(w int) {
		defer wg.Done()
		from := uint64(w)
		for gen := 0; time.Now().Before(deadline); gen++ {
			mu.Lock()
			if stopping {
				mu.Unlock()
				return
			}
			cmd := exec.Command(self, "work", "-prop", *prop, "-base", fmt.Sprint(*base), "-from", fmt.Sprint(from), "-stride", fmt.Sprint(*workers),
				"-until", fmt.Sprint(deadline.UnixNano()), "-shapes", filepath.Join(tmp, fmt.Sprintf("shapes%d", w)), "-known", knownFile, "-hash-every", fmt.Sprint(hashEvery))
			errf, _ := os.Create(filepath.Join(tmp, fmt.Sprintf("err%d.%d", w, gen)))
			cmd.Stderr = errf
			pipe, _ := cmd.StdoutPipe()
			if err := cmd.Start(); err != nil {
				errs = append(errs, msg{T: "err", Err: err.Error()})
				mu.Unlock()
				return
			}
			procs[cmd] = true
			mu.Unlock()
			rd := bufio.NewReaderSize(pipe, 1<<20)
			got := false
			for {
				line, err := rd.ReadBytes('\n')
				if err != nil {
					break
				}
				var m msg
				if json.Unmarshal(line, &m) != nil {
					continue
				}
				mu.Lock()
				switch m.T {
				case "fail":
					fails = append(fails, m)
					stopping = true
					for p := range procs {
						if p != cmd {
							p.Process.Kill()
						}
					}
				case "err":
					errs = append(errs, m)
				case "hash":
					hashes[m.I] = m.Hash
				case "sample":
					if len(samples) < 4 {
						samples = append(samples, m.Sample)
					}
				case "sum":
					got = true
					from = m.Sum.Next
					addSum(total, m.Sum)
				}
				mu.Unlock()
			}
			err := cmd.Wait()
			errf.Close()
			mu.Lock()
			delete(procs, cmd)
			if !got && !stopping {
				b, _ := os.ReadFile(errf.Name())
				if len(b) > 6000 {
					b = b[:6000]
				}
				errs = append(errs, msg{T: "err", Err: fmt.Sprintf("worker %d died: %v\n%s", w, err, b)})
				stopping = true
			}
			if len(errs) > 0 {
				stopping = true
			}
			mu.Unlock()
		}
	}
	for w := 0; w < *workers; w++ {
		wg.Add(1)
		go spawn(w)
	}
	wg.Wait()

	finish := func(violations int, extra map[string]any) {
		if *noEvidence {
			return
		}
		writeEvidence(*dir, *prop, *tier, *level, *base, total, samples, tmp, time.Since(start), violations, known, extra)
	}
	if len(fails) > 0 {
		sort.SliceStable(fails, func(i, j int) bool { return fails[i].I < fails[j].I })
		f := fails[0]
		path := minimise(self, *dir, tmp, *prop, *base, f, *tier)
		if path == "" {
			fmt.Fprintf(Stderr, "sim: a failure did not replay: %s %s seed=%d\n", f.Fail.Prop, f.Fail.Class, f.Plan.Seed)
			finish(0, nil)
			exit(2)
		}
		finish(1, map[string]any{"violation": f.Fail.Class, "replay": path})
		detail := f.Fail.Detail
		if b, err := os.ReadFile(path); err == nil {
			var rp Replay
			if json.Unmarshal(b, &rp) == nil {
				detail = rp.Detail
			}
		}
		fmt.Printf("%s: %s\n", f.Fail.Class, firstLines(detail, 40))
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
		exit(1)
	}
	if len(errs) > 0 {
		for _, e := range errs {
			if e.Plan != nil {
				b, _ := json.Marshal(e.Plan)
				fmt.Fprintf(Stderr, "sim: run %d: %s\nplan %s\n", e.I, e.Err, b)
			} else {
				fmt.Fprintf(Stderr, "sim: %s\n", e.Err)
			}
		}
		exit(2)
	}
	// determinism: repeat a sample of the runs in fresh processes, in another order
	n, bad := recheck(self, *prop, *base, hashes, 48)
	if bad != "" {
		fmt.Fprintf(Stderr, "sim: not deterministic: %s\n", bad)
		exit(2)
	}
	if total.NonTriv == 0 {
		fmt.Fprintf(Stderr, "sim: no non-trivial run in %d\n", total.Runs)
		exit(2)
	}
	finish(0, map[string]any{"determinism_reruns": n})
	for _, k := range known {
		if k.Property == *prop && k.Status == "finding" {
			fmt.Printf("KNOWN-FINDING: property=%s %s (seen in %d runs)\n", k.Property, k.What, total.Known[k.Class])
		}
	}
	fmt.Printf("ok %s: %d runs, %d non-trivial, %.0f simulated seconds, %d fault runs, ends %v, wall %.1fs\n", *prop, total.Runs, total.NonTriv, float64(total.SimNs)/1e9, total.FaultRuns, total.Ends, time.Since(start).Seconds())
	fmt.Printf("probes %v\nfaults %v\n", total.Probes, total.Faults)
	exit(0)
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func addSum(t, s *Summary) {
	t.Runs += s.Runs
	t.NonTriv += s.NonTriv
	t.Steps += s.Steps
	t.SimNs += s.SimNs
	t.Pre += s.Pre
	t.FaultRuns += s.FaultRuns
	for k, v := range s.Faults {
		t.Faults[k] += v
	}
	for k, v := range s.Probes {
		t.Probes[k] += v
	}
	for k, v := range s.Ends {
		t.Ends[k] += v
	}
	for k, v := range s.PerScenario {
		t.PerScenario[k] += v
	}
	for k, v := range s.Known {
		t.Known[k] += v
	}
}

func recheck(self, prop string, base int64, hashes map[uint64]string, max int) (int, string) {
	var is []uint64
	for i := range hashes {
		is = append(is, i)
	}
	sort.Slice(is, func(a, b int) bool { return Mix64(is[a]) < Mix64(is[b]) })
	if len(is) > max {
		is = is[:max]
	}
	const procs = 6
	var wg sync.WaitGroup
	var mu sync.Mutex
	bad, n := "", 0
	for p := 0; p < procs; p++ {
		var l []string
		for k := p; k < len(is); k += procs {
			l = append(l, fmt.Sprint(is[k]))
		}
		if len(l) == 0 {
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			b, err := exec.Command(self, "hashes", "-prop", prop, "-base", fmt.Sprint(base), "-list", strings.Join(l, ",")).Output()
			mu.Lock()
			defer mu.Unlock()
			if err != nil {
				bad = fmt.Sprintf("re-run failed: %v", err)
				return
			}
			for _, ln := range strings.Split(strings.TrimSpace(string(b)), "\n") {
				f := strings.Fields(ln)
				if len(f) != 2 {
					continue
				}
				i, _ := strconv.ParseUint(f[0], 10, 64)
				n++
				if hashes[i] != f[1] {
					bad = fmt.Sprintf("run %d: %s then %s", i, hashes[i], f[1])
				}
			}
		}()
	}
	wg.Wait()
	if bad == "" && n != len(is) {
		bad = fmt.Sprintf("only %d of %d re-runs reported", n, len(is))
	}
	return n, bad
}

func writeEvidence(dir, prop, tier, level string, base int64, t *Summary, samples []any, tmp string, wall time.Duration, violations int, known []Known, extra map[string]any) {
	shapes := map[uint64]bool{}
	fl, _ := filepath.Glob(filepath.Join(tmp, "shapes*"))
	for _, f := range fl {
		b, _ := os.ReadFile(f)
		for i := 0; i+8 <= len(b); i += 8 {
			shapes[binary.LittleEndian.Uint64(b[i:])] = true
		}
	}
	var realC, stubC = map[string]bool{}, map[string]bool{}
	for _, u := range Checks[prop] {
		for _, x := range Scenarios[u.Scenario].Real {
			realC[x] = true
		}
		for _, x := range Scenarios[u.Scenario].Stub {
			stubC[x] = true
		}
	}
	if samples == nil {
		samples = []any{}
	}
	cov := map[string]any{
		"evaluations":             t.Runs,
		"distinct_nontrivial":     len(shapes),
		"rule":                    "one evaluation is one simulated run from one seed (workload, schedule, faults all drawn from it); it is non-trivial when the scenario's workload reached its oracle (operations completed and were judged), and distinct when its interleaving (the sequence of tasks chosen at every switch) differs from all others'",
		"samples":                 samples,
		"runs_per_hour":           int(float64(t.Runs) / wall.Hours()),
		"simulated_seconds":       float64(t.SimNs) / 1e9,
		"statements_executed":     t.Steps,
		"preemption_decisions":    t.Pre,
		"nontrivial_runs":         t.NonTriv,
		"runs_with_faults":        t.FaultRuns,
		"faults_injected":         t.Faults,
		"probes":                  t.Probes,
		"run_ends":                t.Ends,
		"runs_per_scenario":       t.PerScenario,
		"known_findings_seen":     t.Known,
		"components_real":         sortedKeys(realC),
		"components_stubbed":      sortedKeys(stubC),
		"distinct_interleavings":  len(shapes),
		"sim_seconds_per_wall_s":  float64(t.SimNs) / 1e9 / wall.Seconds(),
		"first_run_seed_of_check": fmt.Sprint(Mix64(uint64(base), HashS(prop), 0) >> 1),
	}
	for k, v := range extra {
		cov[k] = v
	}
	ev := map[string]any{"property": prop, "tier": tier, "seed": base, "level": level, "coverage": cov, "wall_s": wall.Seconds(), "violations": violations,
		"assumptions": []string{"sampled schedules and faults, not all of them", "scheduling points lie between statements and at synchronisation, channel, clock, network and disk operations: races within one statement are seen only for maps", "third-party libraries behave under the simulator as they do outside"}}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(dir, "evidence"), 0o755)
	os.WriteFile(filepath.Join(dir, "evidence", prop+".json"), append(b, '\n'), 0o644)
}

// minimise shrinks a failing plan in a helper process, writes the replay file and checks it in a fresh process.
func minimise(self, dir, tmp, prop string, base int64, f msg, tier string) string {
	rd := filepath.Join(dir, "replays")
	os.MkdirAll(rd, 0o755)
	path := filepath.Join(rd, fmt.Sprintf("%s-%d.json", prop, f.Plan.Seed))
	rp := Replay{Property: prop, Class: f.Fail.Class, Detail: f.Fail.Detail, Hash: f.Hash, Base: base, Index: f.I, Plan: f.Plan, Original: len(f.Plan.Ops)}
	save := func(r Replay, p string) { b, _ := json.MarshalIndent(r, "", " "); os.WriteFile(p, append(b, '\n'), 0o644) }
	in := filepath.Join(tmp, "in.json")
	save(rp, in)
	replays := func(p string) bool {
		cmd := exec.Command(self, "replay", p)
		cmd.Stdout, cmd.Stderr = nil, nil
		err := cmd.Run()
		return err != nil && cmd.ProcessState.ExitCode() == 1
	}
	out := filepath.Join(tmp, "out.json")
	budget := "40"
	if tier == "thorough" {
		budget = "240"
	}
	cmd := exec.Command(self, "shrink", in, out, budget)
	cmd.Stderr = Stderr
	if err := cmd.Run(); err == nil && replays(out) {
		b, _ := os.ReadFile(out)
		os.WriteFile(path, b, 0o644)
		return path
	}
	if replays(in) {
		save(rp, path)
		return path
	}
	return ""
}
