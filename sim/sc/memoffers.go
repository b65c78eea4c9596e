package sc

import (
	"fmt"
	"math/bits"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcroffermgr"

	"sim.local/h/fw"
	"sim.local/h/simrt"
)

// A provider's offer store in memory: any number of threads; the history must be that of a sequential store.

func genMem(r *simrt.PRNG, p *fw.Plan) {
	knobs(r, p)
	p.MaxTime = 2000 * time.Hour
	th := 2 + r.N(4)
	n := 2 + r.N(10)
	ncid := 1 + r.N(6)
	p.P["n"], p.P["ncid"], p.P["pool"] = int64(n), int64(ncid), r.I64(1<<40)
	ops := 6 + r.N(30)
	for i := 0; i < ops; i++ {
		t := int64(r.N(th))
		switch r.Weighted([]int{10, 8, 4, 5, 2}) {
		case 0:
			p.Ops = append(p.Ops, fw.Op{K: "add", A: []int64{t, int64(r.N(n))}})
		case 1:
			p.Ops = append(p.Ops, fw.Op{K: "get", A: []int64{t, r.I64(int64(ncid)), int64(r.N(3))}})
		case 2:
			p.Ops = append(p.Ops, fw.Op{K: "digest", A: []int64{t, int64(r.N(n))}})
		case 3:
			m := int64(1 + r.N(6))
			if r.P(0.5) {
				m = 1000
			}
			p.Ops = append(p.Ops, fw.Op{K: "range", A: []int64{t, r.I64(int64(ncid)), r.I64(int64(ncid)), m}})
		case 4:
			p.Ops = append(p.Ops, fw.Op{K: "sleep", A: []int64{t, r.I64([]int64{100, 20000, 60000000}[r.N(3)])}})
		}
	}
}

// memOp is a completed operation as the model sees it. Offers are bits of a mask over the distinct offers of the pool.
type memOp struct {
	K     string
	Add   uint64 // add: the offer
	Want  uint64 // look-up: what it asks for
	Dead  uint64 // expired before the operation began
	Alive uint64 // not yet expired when it was over
	Max   int
	Text  string
}

func (o memOp) String() string { return o.Text }

type memOut struct {
	Got uint64
	Err bool
}

type memRun struct {
	c    *fw.Ctx
	m    *fcroffermgr.FCROfferMgr
	n    *simrt.Node
	pool []*offSpec
	bit  []uint64
	h    []fw.HOp
}

func (d *memRun) do(th int64, o fw.Op) {
	c := d.c
	if o.K == "sleep" {
		c.SleepFor(time.Duration(o.Arg(1)) * time.Millisecond)
		return
	}
	in := memOp{K: o.K, Text: fmt.Sprintf("%s %v", o.K, o.A[1:])}
	var out memOut
	var res []cidoffer.CIDOffer
	found, judge := false, true
	mask := func(f func(s *offSpec) bool) (m uint64) {
		for i, s := range d.pool {
			if f(s) {
				m |= d.bit[i]
			}
		}
		return
	}
	single := func(s *offSpec) bool { return len(s.cids) == 1 }
	e0, t0, call := c.Elapsed(), c.TimeOn(d.n), c.Seq()
	switch o.K {
	case "add":
		i := int(o.Arg(1))
		in.Add = d.bit[i]
		x := d.pool[i].make()
		var err error
		if single(d.pool[i]) {
			err = d.m.AddDHTOffer(x)
		} else {
			err = d.m.AddGroupOffer(x)
		}
		out.Err = err != nil
		// the caller uses its variable for something else
		x.SetSignature("changed after adding")
		*x = *d.pool[(i+1)%len(d.pool)].make()
		judge = false
	case "get":
		k := int(o.Arg(1))
		switch o.Arg(2) {
		case 0:
			in.Want = mask(func(s *offSpec) bool { return s.covers(k) })
			res, found = d.m.GetOffers(cidN(k))
		case 1:
			in.Want = mask(func(s *offSpec) bool { return s.covers(k) && single(s) })
			res, found = d.m.GetDHTOffers(cidN(k))
		case 2:
			in.Want = mask(func(s *offSpec) bool { return s.covers(k) && !single(s) })
			res, found = d.m.GetGroupOffers(cidN(k))
		}
	case "digest":
		w := d.pool[o.Arg(1)]
		in.Want = mask(func(s *offSpec) bool { return s.digest == w.digest })
		x, ok := d.m.GetOfferByDigest(w.digest)
		if found = ok; ok {
			if x == nil {
				c.Fail("C15", "look-up contradicts itself", "%v found nothing", in)
				return
			}
			res = []cidoffer.CIDOffer{*x}
			x.SetSignature("changed by a reader")
		}
	case "range":
		lo, hi := cidN(int(o.Arg(1))), cidN(int(o.Arg(2)))
		if lo.ToString() > hi.ToString() {
			lo, hi = hi, lo
		}
		in.Max = int(o.Arg(3))
		in.Want = mask(func(s *offSpec) bool {
			x := cidN(s.cids[0]).ToString()
			return single(s) && x >= lo.ToString() && x <= hi.ToString()
		})
		res, found = d.m.GetDHTOffersWithinRange(lo, hi, in.Max)
	}
	t1, ret := c.TimeOn(d.n), c.Seq()
	if took := c.Elapsed() - e0; took > time.Minute {
		c.Fail("C15", "operation takes unreasonably long", "%v: %v", o, took)
	}
	if judge && found != (len(res) > 0) {
		c.Fail("C15", "look-up contradicts itself", "%v returned %d offers and found=%v", in, len(res), found)
	}
	for k := range res {
		t := offText(&res[k])
		hit := false
		for i, s := range d.pool {
			if s.want == t && res[k].GetMessageDigest() == s.digest {
				hit = true
				if out.Got&d.bit[i] != 0 {
					c.Fail("C15", "an offer is returned twice", "%v returned %s twice", in, t)
				}
				out.Got |= d.bit[i]
				break
			}
		}
		if !hit {
			c.Fail("C15", "an offer came back changed", "%v returned %s", in, t)
		}
		res[k].SetSignature("changed by a reader")
	}
	in.Dead = mask(func(s *offSpec) bool { return time.Unix(s.expiry, 0).Before(t0) })
	in.Alive = mask(func(s *offSpec) bool { return !time.Unix(s.expiry, 0).Before(t1) })
	d.h = append(d.h, fw.HOp{Call: call, Ret: ret, Who: fmt.Sprintf("thread%d", th), In: in, Out: out})
	c.NonTriv = true
	c.Probe("op-" + o.K)
}

// memModel: the state is the set of stored offers.
func memNext(s uint64, o *fw.HOp) []uint64 {
	in, out := o.In.(memOp), o.Out.(memOut)
	if in.K == "add" {
		var r []uint64
		if out.Err {
			if in.Add&in.Alive == 0 { // refused as expired
				r = append(r, s)
			}
			return r
		}
		if s&in.Add != 0 || in.Add&in.Dead == 0 {
			r = append(r, s|in.Add)
		}
		return r
	}
	may := s & in.Want
	if out.Got&^may != 0 {
		return nil
	}
	if in.K != "digest" && out.Got&in.Dead != 0 {
		return nil
	}
	must := may & in.Alive
	if in.Max > 0 {
		n := bits.OnesCount64(out.Got)
		if n > in.Max {
			return nil
		}
		if n == in.Max {
			return []uint64{s}
		}
	}
	if must&^out.Got != 0 {
		return nil
	}
	return []uint64{s}
}

func runMem(c *fw.Ctx) {
	p := c.Plan
	d := &memRun{c: c}
	c.Data = d
	d.n = c.AddNode("prov")
	d.n.Env["LOG_LEVEL"] = "panic"
	d.pool = offPool(simrt.NewPRNG(uint64(p.Par("pool"))), int(p.Par("n")), int(p.Par("ncid")), c.TimeOn(d.n).Unix(), false)
	seen := map[[cidoffer.CIDOfferDigestSize]byte]uint64{}
	for _, s := range d.pool {
		b := seen[s.digest]
		if b == 0 {
			b = 1 << len(seen)
			seen[s.digest] = b
		}
		d.bit = append(d.bit, b)
	}
	c.Boot(d.n, "idle", func() {})
	if !c.Call(d.n, "new", func() { d.m = fcroffermgr.NewFCROfferMgr() }) {
		return
	}
	threads(c, p.Ops, func(int64) *simrt.Node { return d.n }, func(th int64, i int, o fw.Op) { d.do(th, o) })
	c.Call(d.n, "final", func() {
		for k := int64(0); k < p.Par("ncid"); k++ {
			d.do(99, fw.Op{K: "get", A: []int64{0, k, 1}})
			d.do(99, fw.Op{K: "get", A: []int64{0, k, 2}})
		}
		for i := range d.pool {
			d.do(99, fw.Op{K: "digest", A: []int64{0, int64(i)}})
		}
		for k := int64(0); k < p.Par("ncid"); k++ {
			d.do(99, fw.Op{K: "range", A: []int64{0, c.R.I64(p.Par("ncid")), c.R.I64(p.Par("ncid")), 1 + c.R.I64(20)}})
		}
	})
}

func afterMem(c *fw.Ctx) {
	d, ok := c.Data.(*memRun)
	if !ok || c.Ended != "done" || len(c.Fails) > 0 {
		return
	}
	m := fw.Model[uint64]{Next: memNext, Key: func(s uint64) string { return fmt.Sprint(s) }}
	ok, dec := fw.Linearizable(m, d.h, 300000)
	if !dec {
		c.Probe("undecided")
		return
	}
	c.Probe("history-judged")
	if !ok {
		// name what is wrong when it needs no search
		acked := map[uint64]uint64{}
		for _, o := range d.h {
			in, out := o.In.(memOp), o.Out.(memOut)
			if in.K == "add" && !out.Err && (acked[in.Add] == 0 || o.Ret < acked[in.Add]) {
				acked[in.Add] = o.Ret
			}
		}
		for _, o := range d.h {
			in, out := o.In.(memOp), o.Out.(memOut)
			if in.K == "add" || in.Max > 0 && bits.OnesCount64(out.Got) >= in.Max {
				continue
			}
			for b, at := range acked {
				if at < o.Call && b&in.Want&in.Alive != 0 && out.Got&b == 0 {
					c.Fail("C15", "an added offer is not found", "%s\n%s", o, fw.HistText(d.h))
					return
				}
			}
		}
		c.Fail("C15", "history fits no order of the operations", "%s", fw.HistText(d.h))
	}
}

func init() {
	fw.Register(&fw.Scenario{Name: "memoffers", Gen: genMem, Run: runMem, After: afterMem, HangProp: []string{"C15"}, CrashProp: []string{"C15"},
		Real: []string{"common/pkg/fcroffermgr", "common/pkg/cidoffer", "common/pkg/dhtring", "common/pkg/cid"}, Stub: []string{}})
	fw.Checks["C15"] = []fw.Use{{Scenario: "memoffers", Weight: 1}}
}
