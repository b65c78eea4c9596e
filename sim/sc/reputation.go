package sc

import (
	"fmt"

	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/gateway/zzbridge"

	"sim.local/h/fw"
	"sim.local/h/simrt"
)

// The reputation of a gateway's clients: events from any number of threads; the history must be that of a sequential tally.

// repEvents: what each event is worth, as documented; independent of the repository's table.
var repEvents = []struct {
	name string
	d    int64
	f    func(r *zzbridge.Reputation, n *nodeid.NodeID)
}{
	{"OnChainDeposit", 1000, (*zzbridge.Reputation).OnChainDeposit},
	{"ClientStdDiscOneCidOffer", 10, (*zzbridge.Reputation).ClientStdDiscOneCidOffer},
	{"ClientStdDiscNoCidOffers", 1, (*zzbridge.Reputation).ClientStdDiscNoCidOffers},
	{"ClientStdDiscLateCidOffers", 1, (*zzbridge.Reputation).ClientStdDiscLateCidOffers},
	{"ClientStdDiscNonPayment", -100, (*zzbridge.Reputation).ClientStdDiscNonPayment},
	{"ClientDhtDiscOneCidOffer", 10, (*zzbridge.Reputation).ClientDhtDiscOneCidOffer},
	{"ClientDhtDiscNoCidOffers", 1, (*zzbridge.Reputation).ClientDhtDiscNoCidOffers},
	{"ClientDhtDiscLateCidOffers", 1, (*zzbridge.Reputation).ClientDhtDiscLateCidOffers},
	{"ClientDhtDiscNonPayment", -300, (*zzbridge.Reputation).ClientDhtDiscNonPayment},
	{"ClientMicroPayment", 1, (*zzbridge.Reputation).ClientMicroPayment},
	{"ClientInvalidMessage", -10, (*zzbridge.Reputation).ClientInvalidMessage},
}

const (
	repMax, repMin = 10000, -10000
	repNew         = 10
	repChallenge   = -1
)

func genRep(r *simrt.PRNG, p *fw.Plan) {
	knobs(r, p)
	th, cl := 1+r.N(5), 1+r.N(4)
	p.P["clients"], p.P["ids"] = int64(cl), r.I64(1<<40)
	ops := 5 + r.N(36)
	bias := r.N(4) // towards the upper bound, the lower bound, or neither
	for i := 0; i < ops; i++ {
		t, k := int64(r.N(th)), int64(r.N(cl))
		switch r.Weighted([]int{4, 14, 6, 2}) {
		case 0:
			p.Ops = append(p.Ops, fw.Op{K: "establish", A: []int64{t, k}})
		case 1:
			e := int64(r.N(len(repEvents)))
			if bias == 0 && r.P(0.6) {
				e = 0
			} else if bias == 1 && r.P(0.6) {
				e = 8
			}
			p.Ops = append(p.Ops, fw.Op{K: "event", A: []int64{t, k, e}})
		case 2:
			p.Ops = append(p.Ops, fw.Op{K: "get", A: []int64{t, k}})
		case 3:
			v := r.I64(2*repMax+1) + repMin
			if r.P(0.6) {
				v = []int64{repMax, repMax - 5, repMax - 500, repMin, repMin + 5, repMin + 250, 0}[r.N(7)]
			}
			p.Ops = append(p.Ops, fw.Op{K: "set", A: []int64{t, k, v}})
		}
	}
}

type repOp struct {
	K    string
	C, D int64
	Name string
}

func (o repOp) String() string { return fmt.Sprintf("%s client%d %s %d", o.K, o.C, o.Name, o.D) }

type repOut struct {
	Val    int64
	Exists bool
}

type repState struct {
	val    int64
	exists bool
}

func repAdd(s repState, d int64) repState {
	s.val += d
	if s.val > repMax {
		s.val = repMax
	} else if s.val < repMin {
		s.val = repMin
	}
	return s
}

func repNext(s repState, o *fw.HOp) []repState {
	in, out := o.In.(repOp), o.Out.(repOut)
	switch in.K {
	case "create": // an establishment challenge is the creation, unless there is a record already, and the event
		if !s.exists {
			s = repState{repNew, true}
		}
	case "establish":
		if !s.exists {
			return nil
		}
		s = repAdd(s, repChallenge)
		if out.Val != s.val {
			return nil
		}
	case "event":
		if !s.exists {
			return nil
		}
		s = repAdd(s, in.D)
	case "set":
		s = repState{in.D, true}
	case "get":
		if out.Exists != s.exists || s.exists && out.Val != s.val {
			return nil
		}
	case "exists":
		if out.Exists != s.exists {
			return nil
		}
	}
	return []repState{s}
}

type repRun struct {
	c   *fw.Ctx
	m   *zzbridge.Reputation
	ids []*nodeid.NodeID
	h   [][]fw.HOp
}

func (d *repRun) rec(th, cl int64, in repOp, f func() repOut) repOut {
	call := d.c.Seq()
	out := f()
	if in.K == "establish" {
		d.h[cl] = append(d.h[cl], fw.HOp{Call: call, Ret: d.c.Seq(), Who: fmt.Sprintf("thread%d", th), In: repOp{K: "create", C: cl}, Out: repOut{}})
	}
	d.h[cl] = append(d.h[cl], fw.HOp{Call: call, Ret: d.c.Seq(), Who: fmt.Sprintf("thread%d", th), In: in, Out: out})
	d.c.Probe("op-" + in.K)
	d.c.NonTriv = true
	return out
}

func (d *repRun) do(th int64, o fw.Op) {
	k := o.Arg(1)
	// every use brings its own copy of the identifier
	id, _ := nodeid.NewNodeIDFromBytes(d.ids[k].ToBytes())
	switch o.K {
	case "establish":
		d.rec(th, k, repOp{K: "establish", C: k}, func() repOut { return repOut{Val: d.m.ClientEstablishmentChallenge(id)} })
	case "event":
		// events are recorded only for clients known to exist: that is the callers' duty
		if !d.rec(th, k, repOp{K: "exists", C: k}, func() repOut { return repOut{Exists: d.m.ClientExists(id)} }).Exists {
			return
		}
		e := repEvents[o.Arg(2)]
		d.rec(th, k, repOp{K: "event", C: k, D: e.d, Name: e.name}, func() repOut { e.f(d.m, id); return repOut{} })
	case "set":
		d.rec(th, k, repOp{K: "set", C: k, D: o.Arg(2)}, func() repOut { d.m.SetClientReputation(id, o.Arg(2)); return repOut{} })
	case "get":
		d.rec(th, k, repOp{K: "get", C: k}, func() repOut {
			v, ok := d.m.GetClientReputation(id)
			return repOut{v, ok}
		})
	}
}

func runRep(c *fw.Ctx) {
	p := c.Plan
	d := &repRun{c: c}
	c.Data = d
	n := c.AddNode("gw")
	n.Env["LOG_LEVEL"] = "panic"
	r := simrt.NewPRNG(uint64(p.Par("ids")))
	b := make([]byte, 32)
	for i := range b {
		b[i] = byte(r.N(256))
	}
	for i := int64(0); i < p.Par("clients"); i++ {
		switch r.N(3) { // identifiers that differ in one place only
		case 0:
			b[0] += byte(1 + i)
		case 1:
			b[31] += byte(1 + i)
		case 2:
			b[r.N(32)] += byte(1 + i)
		}
		id, err := nodeid.NewNodeIDFromBytes(append([]byte{}, b...))
		if err != nil {
			c.Err("id: %v", err)
			return
		}
		d.ids = append(d.ids, id)
	}
	d.h = make([][]fw.HOp, len(d.ids))
	c.Boot(n, "idle", func() {})
	if !c.Call(n, "new", func() { d.m = zzbridge.NewReputation() }) {
		return
	}
	threads(c, p.Ops, func(int64) *simrt.Node { return n }, func(th int64, i int, o fw.Op) { d.do(th, o) })
	c.Call(n, "final", func() {
		for k := range d.ids {
			d.do(99, fw.Op{K: "get", A: []int64{99, int64(k)}})
		}
	})
}

func afterRep(c *fw.Ctx) {
	d, ok := c.Data.(*repRun)
	if !ok || c.Ended != "done" {
		return
	}
	seen := map[string]bool{}
	for _, id := range d.ids {
		if seen[id.ToString()] {
			return // two equal clients
		}
		seen[id.ToString()] = true
	}
	m := fw.Model[repState]{Next: repNext, Key: func(s repState) string { return fmt.Sprint(s) }}
	for k, h := range d.h {
		ok, dec := fw.Linearizable(m, h, 300000)
		if !dec {
			c.Probe("undecided")
			continue
		}
		c.Probe("history-judged")
		if !ok {
			c.Fail("C16", "reputation fits no order of the events", "client %d\n%s", k, fw.HistText(h))
			return
		}
	}
}

func init() {
	fw.Register(&fw.Scenario{Name: "reputation", Gen: genRep, Run: runRep, After: afterRep, HangProp: []string{"C16"}, CrashProp: []string{"C16"},
		Real: []string{"gateway/internal/reputation", "common/pkg/nodeid"}, Stub: []string{}})
	fw.Checks["C16"] = []fw.Use{{Scenario: "reputation", Weight: 1}}
}
