package sc

import (
	"encoding/json"
	"fmt"
	"sort"
	"time"

	"sim.local/h/fw"
	"sim.local/h/simrt"
)

// The register service with a store that fails, is slow and breaks connections, and clients whose requests and answers get
// lost: the history of every node's record must be that of a sequential register.

func genReg(r *simrt.PRNG, p *fw.Plan) {
	knobs(r, p)
	th := 1 + r.N(4)
	nn := 1 + r.N(5)
	p.P["nodes"], p.P["rec"] = int64(nn), r.I64(1<<40)
	p.P["storef"], p.P["netf"], p.P["lat"] = int64(r.N(3)), int64(r.N(3)), int64(r.N(3))
	ops := 5 + r.N(25)
	if r.P(0.04) { // a long series: nothing may run out
		p.P["series"] = 1
		p.P["storef"], p.P["netf"] = 0, 0
		ops = 100 + r.N(80)
		if p.MeanGap > 0 {
			p.MeanGap = 300
		}
	}
	for i := 0; i < ops; i++ {
		t, kind, id := int64(r.N(th)), int64(r.N(2)), int64(r.N(nn))
		switch r.Weighted([]int{10, 6, 8, 1, 2, 1, 1}) {
		case 0:
			p.Ops = append(p.Ops, fw.Op{K: "add", A: []int64{t, kind, id, int64(i)}})
		case 1:
			p.Ops = append(p.Ops, fw.Op{K: "get", A: []int64{t, kind, id}})
		case 2:
			p.Ops = append(p.Ops, fw.Op{K: "list", A: []int64{t, kind}})
		case 3:
			p.Ops = append(p.Ops, fw.Op{K: "clear", A: []int64{t, kind}})
		case 4:
			p.Ops = append(p.Ops, fw.Op{K: "junk", A: []int64{t, kind, id, int64(r.N(8))}})
		case 5:
			p.Ops = append(p.Ops, fw.Op{K: "sleep", A: []int64{t, r.I64(5000)}})
		case 6:
			if p.P["series"] == 0 {
				p.Ops = append(p.Ops, fw.Op{K: "crash", A: []int64{t, r.I64(400), r.I64(3000)}})
			}
		}
	}
}

type regOp struct {
	K    string
	Kind int64
	Node int
	Rec  string
}

func (o regOp) String() string {
	return fmt.Sprintf("%s %s %d %.60s", o.K, []string{"gateway", "provider"}[o.Kind], o.Node, o.Rec)
}

type regOut struct {
	Status int
	Rec    string // "" none
}

type regRun struct {
	c    *fw.Ctx
	rd   *Redis
	n    *simrt.Node
	ids  []string
	h    map[string][]fw.HOp
	down []uint64 // moments when the service or the network failed
}

var regPath = []string{"/registers/gateway", "/registers/provider"}

// record makes the i-th version of a node's record.
func (d *regRun) record(kind int64, id int, ver int64) map[string]string {
	r := simrt.NewPRNG(uint64(d.c.Plan.Par("rec")) + uint64(ver)*977)
	m := map[string]string{"nodeId": d.ids[id]}
	names := []string{"address", "networkInfoAdmin", "networkInfoClient", "networkInfoGateway", "regionCode", "rootSigningKey", "signingKey"}
	if kind == 0 {
		names = append(names, "networkInfoProvider")
	}
	odd := []string{"", "a\"b\\c", "1.2.3.4:80", "ü€😀", " ", "<&>", "\u2028", "line\nbreak", "0"}
	for _, n := range names {
		s := fmt.Sprintf("%s of %d.%d", n, id, ver)
		if r.P(0.25) {
			s = odd[r.N(len(odd))]
		}
		if s != "" {
			m[n] = s
		}
	}
	// every version can be told from the others
	m["regionCode"] = fmt.Sprintf("v%d", ver)
	return m
}

func canon(m map[string]string) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	s := ""
	for _, k := range ks {
		if m[k] != "" {
			s += fmt.Sprintf("%s=%q ", k, m[k])
		}
	}
	return s
}

func (d *regRun) add(kind int64, id int, o fw.HOp) {
	k := fmt.Sprintf("%d/%s", kind, d.ids[id])
	d.h[k] = append(d.h[k], o)
}

func (d *regRun) do(th int64, o fw.Op) {
	c := d.c
	c.Probe("op-" + o.K)
	base := "http://register:9020"
	kind := o.Arg(1)
	switch o.K {
	case "sleep":
		c.SleepFor(time.Duration(o.Arg(1)) * time.Millisecond)
		return
	case "crash":
		if !d.n.Alive {
			return
		}
		c.CrashAfterSteps(d.n, uint64(1+o.Arg(1)))
		c.SleepFor(time.Duration(o.Arg(2)) * time.Millisecond)
		if d.n.Alive {
			c.CancelCrash(d.n)
			c.CrashNode(d.n, "injected")
		}
		d.rd.Died(d.n)
		c.Injected("crash")
		d.down = append(d.down, c.Seq())
		BootRegister(c, d.n, "9020")
		return
	}
	who := fmt.Sprintf("thread%d", th)
	call := c.Seq()
	// judge tells whether a refusal has a reason
	excused := func(ret uint64) bool {
		for _, q := range d.down {
			if q >= call && q <= ret {
				return true
			}
		}
		return d.rd.Faulted(call, ret) || !d.n.Alive
	}
	switch o.K {
	case "add":
		id := int(o.Arg(2)) % len(d.ids)
		m := d.record(kind, id, o.Arg(3))
		b, _ := json.Marshal(m)
		st, rb, err := c.HTTPDo("POST", base+regPath[kind], "application/json", b)
		ret := c.Seq()
		h := fw.HOp{Call: call, Ret: ret, Who: who, In: regOp{"add", kind, id, canon(m)}, Out: regOut{Status: st}}
		c.NonTriv = true
		if err != nil || st != 200 {
			h.Ret = 0 // whether and when it takes effect is open
			if err == nil && !excused(ret) {
				c.Fail("C18", "a request is refused without reason", "%v: status %d %s", h.In, st, rb)
			}
			if err != nil && !excused(ret) && !d.netFault(err) {
				c.Fail("C18", "a request is refused without reason", "%v: %v", h.In, err)
			}
		} else {
			c.Probe("added")
			var got map[string]string
			if json.Unmarshal(rb, &got) == nil && canon(got) != canon(m) {
				c.Fail("C18", "acknowledges another record than the one sent", "sent %s\nanswer %s", canon(m), rb)
			}
		}
		d.add(kind, id, h)
	case "get":
		id := int(o.Arg(2)) % len(d.ids)
		st, rb, err := c.HTTPDo("GET", base+regPath[kind]+"/"+d.ids[id], "", nil)
		ret := c.Seq()
		h := fw.HOp{Call: call, Ret: ret, Who: who, In: regOp{"get", kind, id, ""}}
		if err != nil {
			if !excused(ret) && !d.netFault(err) {
				c.Fail("C18", "a request is refused without reason", "%v: %v", h.In, err)
			}
			return
		}
		if st != 200 {
			if excused(ret) {
				return
			}
			h.Out = regOut{Status: st}
			d.add(kind, id, h)
			return
		}
		var got map[string]string
		if err := json.Unmarshal(rb, &got); err != nil || canon(got) == "" {
			c.Fail("C18", "success without a record", "%v answered %q", h.In, rb)
			return
		}
		h.Out = regOut{Status: st, Rec: canon(got)}
		d.add(kind, id, h)
		c.Probe("found")
	case "list":
		st, rb, err := c.HTTPDo("GET", base+regPath[kind], "", nil)
		ret := c.Seq()
		if err != nil || st != 200 {
			if !excused(ret) && (err == nil || !d.netFault(err)) {
				c.Fail("C18", "a request is refused without reason", "list %d: status %d %s %v", kind, st, rb, err)
			}
			return
		}
		var got []map[string]string
		if err := json.Unmarshal(rb, &got); err != nil {
			c.Fail("C18", "success without a list", "%v: %.200q", err, rb)
			return
		}
		by := map[string]string{}
		for _, m := range got {
			if _, dup := by[m["nodeId"]]; dup {
				c.Fail("C18", "a node is listed twice", "%s in %.300s", m["nodeId"], rb)
			}
			by[m["nodeId"]] = canon(m)
		}
		for i, id := range d.ids {
			d.add(kind, i, fw.HOp{Call: call, Ret: ret, Who: who, In: regOp{"list", kind, i, ""}, Out: regOut{200, by[id]}})
			delete(by, id)
		}
		for id := range by {
			c.Fail("C18", "a node is listed that was never added", "%q in %.300s", id, rb)
		}
		c.Probe("listed")
	case "clear":
		st, rb, err := c.HTTPDo("DELETE", base+regPath[kind], "", nil)
		ret := c.Seq()
		if err != nil || st != 200 {
			if !excused(ret) && (err == nil || !d.netFault(err)) {
				c.Fail("C18", "a request is refused without reason", "clear %d: status %d %s %v", kind, st, rb, err)
			}
			ret = 0
		}
		for i := range d.ids {
			d.add(kind, i, fw.HOp{Call: call, Ret: ret, Who: who, In: regOp{"clear", kind, i, ""}, Out: regOut{Status: st}})
		}
	case "junk":
		id := int(o.Arg(2)) % len(d.ids)
		m := d.record(kind, id, 1000+o.Arg(3))
		b, _ := json.Marshal(m)
		method, path, ct := "POST", regPath[kind], "application/json"
		bad := true
		switch o.Arg(3) {
		case 0:
			b = b[:len(b)/2]
		case 1:
			b = nil
		case 2:
			b = []byte(`{"nodeId": 7}`)
		case 3:
			b = []byte(`[]`)
		case 4:
			method = "PUT"
		case 5:
			path += "/x/y"
		case 6:
			ct = "text/plain"
		case 7:
			method, path, b, bad = "GET", "/", nil, false
		}
		st, rb, err := c.HTTPDo(method, base+path, ct, b)
		if bad && err == nil && st == 200 {
			c.Fail("C18", "nonsense is acknowledged", "%s %s %s %q: %s", method, path, ct, b, rb)
		}
	}
}

// netFault: the simulated network is to blame.
func (d *regRun) netFault(err error) bool {
	return d.c.Plan.Par("netf") > 0 && fmt.Sprint(err) != "EOF"
}

// regNext: the state is the record, "" when not registered.
func regNext(s string, o *fw.HOp) []string {
	in, out := o.In.(regOp), o.Out.(regOut)
	switch in.K {
	case "add":
		return []string{in.Rec}
	case "clear":
		return []string{""}
	case "get":
		if out.Rec != s {
			return nil
		}
	case "list":
		if out.Rec != s {
			return nil
		}
	}
	return []string{s}
}

func runReg(c *fw.Ctx) {
	p := c.Plan
	d := &regRun{c: c, h: map[string][]fw.HOp{}}
	c.Data = d
	f := RedisFaults{Lat: []time.Duration{0, time.Millisecond, 300 * time.Millisecond}[p.Par("lat")]}
	switch p.Par("storef") {
	case 1:
		f.PErr, f.PBefore, f.PAfter, f.PSlow, f.PRefuse = 0.05, 0.03, 0.03, 0.03, 0.03
	case 2:
		f.PErr, f.PBefore, f.PAfter, f.PSlow, f.PRefuse = 0.2, 0.1, 0.1, 0.1, 0.05
	}
	if p.Par("series") == 1 {
		f.MaxConns = 64
		f.Lat = 0
	}
	d.rd = NewRedis(c, f)
	if p.Par("netf") > 0 {
		q := 0.05 * float64(p.Par("netf"))
		c.Cfg.Net.PHTTPReqLost, c.Cfg.Net.PHTTPRespLost, c.Cfg.Net.PHTTPSlow, c.Cfg.Net.HTTPSlowFor = q, q, q, 5*time.Second
	}
	r := simrt.NewPRNG(uint64(p.Par("rec")))
	for i := int64(0); i < p.Par("nodes"); i++ {
		id := fmt.Sprintf("%064x", r.U64())
		switch {
		case i > 0 && r.P(0.3):
			id = d.ids[0][:len(d.ids[0])-2] + fmt.Sprintf("%02x", i)
		case i > 0 && r.P(0.2):
			id = d.ids[0] + fmt.Sprintf("%02x", i)
		case i > 0 && r.P(0.1):
			id = "gateway"
		}
		dup := false
		for _, x := range d.ids {
			dup = dup || x == id
		}
		if !dup {
			d.ids = append(d.ids, id)
		}
	}
	d.n = c.AddNode("register")
	BootRegister(c, d.n, "9020")
	c.SleepFor(time.Millisecond)
	threads(c, p.Ops, func(int64) *simrt.Node { return nil }, func(th int64, i int, o fw.Op) { d.do(th, o) })
	// all is well again
	d.rd.F = RedisFaults{MaxConns: f.MaxConns}
	c.Cfg.Net = simrt.NetConfig{}
	c.SleepFor(time.Minute)
	p0 := *p
	p0.P = map[string]int64{"nodes": p.Par("nodes"), "rec": p.Par("rec")}
	c.Plan = &p0
	for k := int64(0); k < 2; k++ {
		d.do(99, fw.Op{K: "list", A: []int64{99, k}})
		for i := range d.ids {
			d.do(99, fw.Op{K: "get", A: []int64{99, k, int64(i)}})
		}
	}
	c.Plan = p
}

func afterReg(c *fw.Ctx) {
	d, ok := c.Data.(*regRun)
	if !ok || c.Ended != "done" || len(c.Fails) > 0 {
		return
	}
	m := fw.Model[string]{Next: regNext, Key: func(s string) string { return s }}
	for _, k := range sortedStr(d.h) {
		ok, dec := fw.Linearizable(m, d.h[k], 200000)
		if !dec {
			c.Probe("undecided")
			continue
		}
		c.Probe("history-judged")
		if !ok {
			c.Fail("C18", "a node's record fits no order of the requests", "%s\n%s", k, fw.HistText(d.h[k]))
			return
		}
	}
}

func init() {
	fw.Register(&fw.Scenario{Name: "registersvc", Gen: genReg, Run: runReg, After: afterReg, HangProp: []string{"C18"}, CrashProp: []string{"C18"},
		Real: []string{"register/restapi (routing and validation)", "register/internal/handlers", "go-redis"},
		Stub: []string{"redis (in-process server)", "HTTP transport"}})
	fw.Checks["C18"] = []fw.Use{{Scenario: "registersvc", Weight: 1}}
}
