package fw

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"time"
)

// cmdShrink IN OUT SECONDS
func cmdShrink(args []string) {
	b, err := os.ReadFile(args[0])
	if err != nil {
		fatal("%v", err)
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		fatal("%v", err)
	}
	secs, _ := strconv.Atoi(args[2])
	deadline := time.Now().Add(time.Duration(secs) * time.Second)
	debug.SetGCPercent(-1)
	kick := watchdog(120 * time.Second)
	n := 0
	var last *Result
	try := func(p *Plan) bool {
		if time.Now().After(deadline) {
			return false
		}
		n++
		if n%8 == 0 {
			runtime.GC()
		}
		kick("shrink " + rp.Property)
		r := Execute(p, nil)
		if r.Err != "" {
			return false
		}
		for _, f := range r.Fails {
			if f.Prop == rp.Property && f.Class == rp.Class {
				last = r
				return true
			}
		}
		return false
	}
	best := rp.Plan
	if !try(best) {
		fatal("does not fail here")
	}
	rbest := last
	acc := func(p *Plan) bool {
		if try(p) {
			best, rbest = p, last
			return true
		}
		return false
	}
	for round := 0; round < 3; round++ {
		before := fmt.Sprint(len(best.Ops), best.KeepPre, best.KeepFault, len(best.MaskPre), len(best.MaskFault))
		// no faults, no preemptions
		if best.KeepFault == 0 {
			q := best.clone()
			q.KeepFault = -1
			acc(q)
		}
		if best.KeepPre == 0 {
			q := best.clone()
			q.KeepPre = -1
			acc(q)
		}
		// operations
		for sz := (len(best.Ops) + 1) / 2; sz >= 1; {
			did := false
			for at := 0; at < len(best.Ops); {
				q := best.clone()
				e := at + sz
				if e > len(q.Ops) {
					e = len(q.Ops)
				}
				q.Ops = append(q.Ops[:at:at], q.Ops[e:]...)
				if acc(q) {
					did = true
				} else {
					at += sz
				}
			}
			if sz == 1 && !did {
				break
			}
			if sz > 1 {
				sz /= 2
			}
			if time.Now().After(deadline) {
				break
			}
		}
		// how far preemptions and faults are needed
		cut := func(get func(p *Plan) *int, n int) {
			lo, hi := 0, n // hi works
			for lo < hi {
				mid := (lo + hi) / 2
				q := best.clone()
				if mid == 0 {
					*get(q) = -1
				} else {
					*get(q) = mid
				}
				if acc(q) {
					hi = mid
				} else {
					lo = mid + 1
				}
				if time.Now().After(deadline) {
					return
				}
			}
		}
		if best.KeepPre >= 0 {
			cut(func(p *Plan) *int { return &p.KeepPre }, rbest.Pre)
		}
		if best.KeepFault >= 0 {
			cut(func(p *Plan) *int { return &p.KeepFault }, rbest.FaultN)
		}
		// single preemptions and faults
		mask := func(get func(p *Plan) *[]int, n int) {
			if n > 3000 {
				return
			}
			for sz := (n + 1) / 2; sz >= 1; sz /= 2 {
				for at := 0; at < n; at += sz {
					have := setOf(*get(best))
					q := best.clone()
					l := get(q)
					add := 0
					for i := at; i < at+sz && i < n; i++ {
						if !have[i] {
							*l = append(*l, i)
							add++
						}
					}
					if add > 0 {
						acc(q)
					}
					if time.Now().After(deadline) {
						return
					}
				}
			}
		}
		if best.KeepFault >= 0 {
			k := rbest.FaultN
			if best.KeepFault > 0 && best.KeepFault < k {
				k = best.KeepFault
			}
			mask(func(p *Plan) *[]int { return &p.MaskFault }, k)
		}
		if best.KeepPre >= 0 {
			k := rbest.Pre
			if best.KeepPre > 0 && best.KeepPre < k {
				k = best.KeepPre
			}
			mask(func(p *Plan) *[]int { return &p.MaskPre }, k)
		}
		if fmt.Sprint(len(best.Ops), best.KeepPre, best.KeepFault, len(best.MaskPre), len(best.MaskFault)) == before || time.Now().After(deadline) {
			break
		}
	}
	deadline = time.Now().Add(time.Minute)
	if !try(best) {
		fatal("shrunk plan does not fail again")
	}
	rp.Plan, rp.Hash, rp.Minimised, rp.Faults = best, fmt.Sprintf("%016x", last.Hash), true, last.FireLog
	for _, f := range last.Fails {
		if f.Prop == rp.Property && f.Class == rp.Class {
			rp.Detail = f.Detail
			break
		}
	}
	o, _ := json.MarshalIndent(rp, "", " ")
	if err := os.WriteFile(args[1], append(o, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
	fmt.Fprintf(Stderr, "sim: minimised in %d runs: %d -> %d operations\n", n, rp.Original, len(best.Ops))
}
