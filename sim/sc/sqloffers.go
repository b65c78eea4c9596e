package sc

import (
	sql "github.com/ConsenSys/fc-retrieval/common/pkg/zzsql"
	"fmt"
	"math/big"
	"sort"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/offermgr"

	"sim.local/h/fw"
	"sim.local/h/simext"
	"sim.local/h/simrt"
	"sim.local/h/simvfs"
)

// The gateway's offer store: the real sqlite on a simulated disk, with crashes at any disk operation, power cuts, disk errors,
// clock jumps and time zones.

func init() {
	fw.BeforeRun = append(fw.BeforeRun, func(seed uint64) {
		simvfs.Reset(seed)
		simvfs.CrashAt = nil
		simvfs.SetTZ(0)
		simext.SQLOpened = nil
		cidN(180) // outside of the run: the first run must not differ from later ones
		provN(15)
	})
}

type offSpec struct {
	cids   []int
	prov   int
	price  uint64
	expiry int64
	qos    uint64
	sig    string
	want   string // what a look-up must give back
	digest [cidoffer.CIDOfferDigestSize]byte
}

var cidPool []*cid.ContentID
var provPool []*nodeid.NodeID

func cidN(i int) *cid.ContentID {
	for len(cidPool) <= i {
		k := len(cidPool)
		b := make([]byte, 32)
		simrt.NewPRNG(uint64(k) + 12345).Read(b)
		switch k % 8 {
		case 3:
			for j := range b[:31] {
				b[j] = 0xff
			}
		case 5:
			for j := range b[:31] {
				b[j] = 0
			}
		}
		c, err := cid.NewContentIDFromBytes(b)
		if err != nil {
			panic(err)
		}
		cidPool = append(cidPool, c)
	}
	return cidPool[i]
}

func provN(i int) *nodeid.NodeID {
	for len(provPool) <= i {
		n, err := nodeid.NewNodeID(new(big.Int).Mul(big.NewInt(int64(len(provPool)+3)), new(big.Int).Lsh(big.NewInt(1), uint(len(provPool)*40%240))))
		if err != nil {
			panic(err)
		}
		provPool = append(provPool, n)
	}
	return provPool[i]
}

func offText(o *cidoffer.CIDOffer) string {
	raw, err := o.MarshalToSign()
	if err != nil {
		raw = []byte(err.Error())
	}
	return js(o) + string(raw)
}

func (o *offSpec) make() *cidoffer.CIDOffer {
	var l []cid.ContentID
	for _, i := range o.cids {
		l = append(l, *cidN(i))
	}
	x, err := cidoffer.NewCIDOffer(provN(o.prov), l, o.price, o.expiry, o.qos)
	if err != nil {
		panic(err)
	}
	x.SetSignature(o.sig)
	return x
}

func (o *offSpec) covers(i int) bool {
	for _, k := range o.cids {
		if k == i {
			return true
		}
	}
	return false
}

// offPool draws the offers of a run. now is the clock at the start.
func offPool(r *simrt.PRNG, n, ncid int, now int64, extreme bool) []*offSpec {
	var l []*offSpec
	for i := 0; i < n; i++ {
		o := &offSpec{prov: r.N(3), price: uint64(r.N(5)), qos: uint64(r.N(3)), sig: fmt.Sprintf("signature-%d", i)}
		switch r.N(6) {
		case 0:
			o.expiry = now - 1 - r.I64(100000)
		case 1:
			o.expiry = now + 1 + r.I64(20)
		case 2:
			o.expiry = now + 1 + r.I64(50000)
		default:
			o.expiry = now + 10000000 + r.I64(1000)
		}
		if r.P(0.1) {
			o.price = uint64(r.I64(1 << 62))
		}
		if extreme && r.P(0.1) {
			o.expiry = []int64{1 << 40, 1 << 61, 0, -5, 253402300800, 1}[r.N(6)]
		}
		k := 1
		if r.P(0.5) {
			k = 2 + r.N(7)
		}
		if r.P(0.05) {
			k = 30 + r.N(60)
		}
		for j := 0; j < k; j++ {
			o.cids = append(o.cids, r.N(ncid))
		}
		l = append(l, o)
	}
	// some nearly the same
	for i := 1; i < len(l); i++ {
		if r.P(0.15) {
			p := l[r.N(i)]
			l[i].cids, l[i].prov, l[i].price, l[i].qos, l[i].expiry = append([]int(nil), p.cids...), p.prov, p.price, p.qos, p.expiry
			switch r.N(4) {
			case 0:
				l[i].price++
			case 1:
				l[i].expiry++
			case 2:
				l[i].qos++
			case 3:
				l[i].cids[0], l[i].cids[len(p.cids)-1] = l[i].cids[len(p.cids)-1], l[i].cids[0]
			}
		}
	}
	seen := map[[cidoffer.CIDOfferDigestSize]byte]*offSpec{}
	for _, o := range l {
		x := o.make()
		o.digest = x.GetMessageDigest()
		if p := seen[o.digest]; p != nil { // the same content is the same offer
			o.sig = p.sig
			x.SetSignature(o.sig)
		}
		seen[o.digest] = o
		o.want = offText(x)
	}
	return l
}

func genSQL(r *simrt.PRNG, p *fw.Plan) {
	p.MaxTime = 2000 * time.Hour
	knobs(r, p)
	th := 1 + r.N(5)
	n := 3 + r.N(14)
	p.P["n"], p.P["ncid"], p.P["pool"] = int64(n), int64(2+r.N(14)), r.I64(1<<40)
	p.P["tz"] = []int64{0, 0, 2, -5, 10, -11, 13}[r.N(7)]
	mode := r.Weighted([]int{3, 5, 3}) // good disk, crashes, errors
	p.P["mode"] = int64(mode)
	p.Disk.PowerCut = r.P(0.7)
	if r.P(0.6) {
		p.Disk.PYield = 0.3 * r.F()
		if r.P(0.5) {
			p.Disk.SlowFor = 1 + r.I64(200000)
		}
	}
	if mode == 2 {
		p.Disk.PIOErr = 0.05 * r.F() * r.F()
		if r.P(0.5) {
			p.Disk.PFull = 0.05 * r.F()
		}
	}
	jumps := r.P(0.3)
	ops := 5 + r.N(30)
	for i := 0; i < ops; i++ {
		t := int64(r.N(th))
		if jumps && r.P(0.08) {
			p.Ops = append(p.Ops, fw.Op{K: "jump", A: []int64{t, r.I64(200000) - 100000}})
		}
		if mode == 1 && r.P(0.12) {
			if r.P(0.6) {
				p.Ops = append(p.Ops, fw.Op{K: "crashdisk", A: []int64{t, 1 + r.I64(60), r.I64(2)}})
			} else {
				p.Ops = append(p.Ops, fw.Op{K: "crashstep", A: []int64{t, 1 + r.I64(150)}})
			}
		}
		switch r.Weighted([]int{10, 6, 2, 3, 2}) {
		case 0:
			p.Ops = append(p.Ops, fw.Op{K: "add", A: []int64{t, int64(r.N(n))}})
		case 1:
			p.Ops = append(p.Ops, fw.Op{K: "get", A: []int64{t, r.I64(p.P["ncid"]), int64(r.N(3))}})
		case 2:
			p.Ops = append(p.Ops, fw.Op{K: "digest", A: []int64{t, int64(r.N(n))}})
		case 3:
			p.Ops = append(p.Ops, fw.Op{K: "range", A: []int64{t, r.I64(p.P["ncid"]), r.I64(p.P["ncid"]), int64(r.N(8))}})
		case 4:
			p.Ops = append(p.Ops, fw.Op{K: "sleep", A: []int64{t, r.I64([]int64{100, 5000, 40000000}[r.N(3)])}})
		}
	}
}

type sqlRun struct {
	c        *fw.Ctx
	n        *simrt.Node
	m        *offermgr.FCROfferMgr
	inc      int
	booting  bool
	pool     []*offSpec
	firstAdd []uint64 // sequence number of the first call to add it, 0 none
	acked    []uint64 // when it was first acknowledged
	failed   []bool   // some attempt to add it did not succeed
	jumps    int
	diskN    int // operations until the crash
	final    bool
}

func (d *sqlRun) boot() {
	if d.booting || d.n.Alive {
		return
	}
	d.booting = true
	c := d.c
	disk := c.Cfg.Disk
	c.Cfg.Disk.PIOErr, c.Cfg.Disk.PFull = 0, 0
	d.inc++
	c.Boot(d.n, "idle", func() {})
	var m *offermgr.FCROfferMgr
	ok := c.Call(d.n, "open", func() { m = offermgr.NewFCROfferMgr() })
	if ok {
		d.m = m
	}
	c.Cfg.Disk.PIOErr, c.Cfg.Disk.PFull = disk.PIOErr, disk.PFull
	if d.final {
		c.Cfg.Disk.PIOErr, c.Cfg.Disk.PFull = 0, 0
	}
	d.booting = false
}

func (d *sqlRun) diskFaults() int {
	k := 0
	for _, x := range []string{"disk-read-error", "disk-full", "disk-write-error", "disk-sync-error", "disk-open-error"} {
		k += d.c.Faults[x]
	}
	return k
}

// call runs f in the gateway's process; lived is false when the process was not up or died meanwhile.
func (d *sqlRun) call(name string, f func(m *offermgr.FCROfferMgr)) (lived bool) {
	if !d.n.Alive {
		if d.booting {
			d.c.WaitUntil(time.Hour, 10*time.Millisecond, func() bool { return !d.booting })
		} else {
			d.boot()
		}
	}
	if !d.n.Alive || d.m == nil {
		return false
	}
	m, inc := d.m, d.inc
	ok := d.c.Call(d.n, name, func() {
		if d.inc == inc {
			f(m)
		}
	})
	return ok && d.inc == inc && d.n.Alive
}

func (d *sqlRun) do(o fw.Op) {
	c := d.c
	switch o.K {
	case "sleep":
		c.SleepFor(time.Duration(o.Arg(1)) * time.Millisecond)
	case "jump":
		d.jumps++
		d.n.Skew += time.Duration(o.Arg(1)) * time.Second
		c.Injected("clock-jump")
	case "crashdisk":
		d.diskN = int(o.Arg(1))
		wr := o.Arg(2) == 1
		simvfs.CrashAt = func(n *simrt.Node, kind int) bool {
			if wr && kind != 2 && kind != 4 {
				return false
			}
			d.diskN--
			if d.diskN == 0 {
				simvfs.CrashAt = nil
				d.m = nil
				return true
			}
			return false
		}
	case "crashstep":
		if d.n.Alive {
			c.CrashAfterSteps(d.n, uint64(o.Arg(1)))
			c.Injected("crash")
		}
	case "add":
		d.add(int(o.Arg(1)))
	case "get", "range", "digest":
		d.look(o)
	}
}

func (d *sqlRun) add(i int) {
	c, s := d.c, d.pool[i]
	var err error
	f0, t0 := d.diskFaults(), c.Elapsed()
	ran := false
	for k, o := range d.pool {
		if o.digest == s.digest && d.firstAdd[k] == 0 {
			d.firstAdd[k] = c.Seq()
		}
	}
	lived := d.call("add", func(m *offermgr.FCROfferMgr) {
		ran = true
		x := s.make()
		if len(s.cids) > 1 {
			err = m.AddGroupOffer(x)
		} else {
			err = m.AddDHTOffer(x)
		}
	})
	if !ran {
		return
	}
	if !lived {
		d.failed[i] = true
		c.Probe("add-interrupted")
		return
	}
	if took := c.Elapsed() - t0; took > 2*time.Minute {
		c.Fail("C01", "storing takes unreasonably long", "offer %d: %v", i, took)
	}
	if err != nil {
		d.failed[i] = true
		c.Logf("add %d: %v", i, err)
		c.Probe("add-failed")
		if d.diskFaults() == f0 && c.Plan.Disk.SlowFor < 100000 {
			c.Fail("C01", "storing an offer fails though the disk works", "offer %d (%d contents): %v", i, len(s.cids), err)
		}
		return
	}
	c.Probe("add-ok")
	c.NonTriv = true
	q := c.Seq()
	for k, o := range d.pool {
		if o.digest == s.digest && d.acked[k] == 0 {
			d.acked[k] = q
		}
	}
}

func (d *sqlRun) look(o fw.Op) {
	c := d.c
	var res []cidoffer.CIDOffer
	var found bool
	want := func(s *offSpec) bool { return false }
	max := 0
	var f func(m *offermgr.FCROfferMgr)
	switch o.K {
	case "get":
		i := int(o.Arg(1))
		want = func(s *offSpec) bool { return s.covers(i) }
		f = func(m *offermgr.FCROfferMgr) {
			switch o.Arg(2) {
			case 0:
				res, found = m.GetOffers(cidN(i))
			case 1:
				res, found = m.GetDHTOffers(cidN(i))
			case 2:
				res, found = m.GetGroupOffers(cidN(i))
			}
		}
	case "digest":
		w := d.pool[o.Arg(1)]
		want = func(s *offSpec) bool { return s.digest == w.digest }
		f = func(m *offermgr.FCROfferMgr) {
			x, ok := m.GetOfferByDigest(w.digest)
			found = ok
			if ok {
				res = []cidoffer.CIDOffer{*x}
			}
		}
	case "range":
		lo, hi := cidN(int(o.Arg(1))), cidN(int(o.Arg(2)))
		if lo.ToString() > hi.ToString() {
			lo, hi = hi, lo
		}
		max = int(o.Arg(3))
		want = func(s *offSpec) bool {
			for _, i := range s.cids {
				if x := cidN(i).ToString(); x >= lo.ToString() && x <= hi.ToString() {
					return true
				}
			}
			return false
		}
		f = func(m *offermgr.FCROfferMgr) { res, found = m.GetDHTOffersWithinRange(lo, hi, max) }
	}
	f0, j0 := d.diskFaults(), d.jumps
	var call, ret uint64
	var t0, t1 time.Time
	e0 := c.Elapsed()
	lived := d.call(o.K, func(m *offermgr.FCROfferMgr) {
		t0, call = c.TimeOn(d.n), c.Seq()
		f(m)
		t1, ret = c.TimeOn(d.n), c.Seq()
	})
	if !lived || ret == 0 {
		return
	}
	if took := c.Elapsed() - e0; took > 2*time.Minute {
		c.Fail("C01", "look-up takes unreasonably long", "%v: %v", o, took)
	}
	c.NonTriv = true
	steady := d.jumps == j0
	got := map[string]int{}
	for k := range res {
		x := &res[k]
		t := offText(x)
		got[t]++
		if got[t] > 1 {
			c.Fail("C01", "an offer is returned twice", "%v returned %s twice", o, t)
		}
		var s *offSpec
		for i, y := range d.pool {
			if y.want == t && d.firstAdd[i] != 0 && d.firstAdd[i] < ret {
				s = y
			}
		}
		if s == nil {
			c.Fail("C01", "look-up returns what was never stored", "%v returned %s", o, t)
			continue
		}
		if !want(s) {
			c.Fail("C01", "look-up returns a foreign offer", "%v returned %s", o, t)
		}
		if steady && time.Unix(s.expiry, 0).Before(t0) && s.expiry < 1<<40 {
			c.Fail("C02", "expired offer served", "%v at %v returned an offer that expired at %v", o, t0.UTC(), time.Unix(s.expiry, 0).UTC())
		}
	}
	if found != (len(res) > 0) {
		c.Fail("C01", "look-up contradicts itself", "%v returned %d offers and found=%v", o, len(res), found)
	}
	if max > 0 && len(res) > max {
		c.Fail("C01", "look-up returns more than asked for", "%v returned %d offers", o, len(res))
	}
	if d.diskFaults() != f0 || !steady {
		return
	}
	if c.Plan.Disk.SlowFor >= 100000 && !d.final { // locks may take longer than the store waits
		return
	}
	if max > 0 && len(res) >= max {
		return
	}
	for i, s := range d.pool {
		if !want(s) || d.acked[i] == 0 || d.acked[i] > call || got[s.want] > 0 {
			continue
		}
		if s.expiry > t1.Unix() {
			cl, pr := "acknowledged offer not found", "C01"
			c.Fail(pr, cl, "%v did not return offer %d (contents %v, expiry %d, clock %d), acknowledged at %d", o, i, s.cids, s.expiry, t1.Unix(), d.acked[i])
			if o.K != "digest" || len(res) == 0 {
				c.Fail("C02", "unexpired offer not served", "%v at %v did not return offer %d with expiry %v", o, t1.UTC(), i, time.Unix(s.expiry, 0).UTC())
			}
		}
	}
	c.Probe("look-judged")
}

func (d *sqlRun) wholeness(when string) {
	c := d.c
	// every offer is findable under all its identifiers or none
	for i, s := range d.pool {
		if d.firstAdd[i] == 0 {
			continue
		}
		now := c.TimeOn(d.n).Unix()
		if s.expiry <= now+3600 {
			continue
		}
		where := map[string]bool{}
		d.call("check", func(m *offermgr.FCROfferMgr) {
			x, ok := m.GetOfferByDigest(s.digest)
			where["digest"] = ok && offText(x) == s.want
			for _, k := range s.cids {
				l, _ := m.GetOffers(cidN(k))
				in := false
				for j := range l {
					if offText(&l[j]) == s.want {
						in = true
					}
				}
				where[fmt.Sprintf("cid%d", k)] = in
			}
		})
		yes, no := []string{}, []string{}
		for _, k := range sortedStr(where) {
			if where[k] {
				yes = append(yes, k)
			} else {
				no = append(no, k)
			}
		}
		if len(yes) > 0 && len(no) > 0 {
			c.Fail("C01", "offer kept in part", "%s: offer %d is found under %v but not under %v", when, i, yes, no)
		}
		if d.acked[i] != 0 && len(no) > 0 {
			c.Fail("C01", "acknowledged offer not found", "%s: offer %d is missing under %v", when, i, no)
		}
		c.Probe("whole-judged")
	}
}

func runSQL(c *fw.Ctx) {
	p := c.Plan
	d := &sqlRun{c: c}
	var dbs []*sql.DB
	simext.SQLOpened = func(n *simrt.Node, db *sql.DB) { dbs = append(dbs, db) }
	c.AtEnd(func() {
		for _, db := range dbs {
			db.Close()
		}
	})
	simvfs.SetTZ(int(p.Par("tz")))
	d.n = c.AddNode("gw")
	d.n.Env["LOG_LEVEL"] = "panic"
	d.n.Env["DOCKER_NAME"] = "gw"
	d.n.Exit = func(string) { d.m = nil }
	d.pool = offPool(simrt.NewPRNG(uint64(p.Par("pool"))), int(p.Par("n")), int(p.Par("ncid")), c.TimeOn(d.n).Unix(), true)
	d.firstAdd, d.acked, d.failed = make([]uint64, len(d.pool)), make([]uint64, len(d.pool)), make([]bool, len(d.pool))
	d.boot()
	threads(c, p.Ops, func(int64) *simrt.Node { return nil }, func(th int64, i int, o fw.Op) { d.do(o) })
	// the disk works again
	d.final = true
	c.Cfg.Disk.PIOErr, c.Cfg.Disk.PFull, c.Cfg.Disk.PYield, c.Cfg.Disk.SlowFor = 0, 0, 0, 0
	simvfs.CrashAt = nil
	c.CancelCrash(d.n)
	d.boot()
	d.wholeness("disk works again")
	for k := 0; k < 3; k++ {
		d.add(c.R.N(len(d.pool)))
		d.do(fw.Op{K: "get", A: []int64{0, c.R.I64(p.Par("ncid")), c.R.I64(3)}})
	}
	if p.Disk.PowerCut || c.R.P(0.7) {
		c.CrashNode(d.n, "final")
		c.Injected("crash")
		d.boot()
		d.wholeness("after restart")
		d.add(c.R.N(len(d.pool)))
	}
	for k := int64(0); k < p.Par("ncid"); k++ {
		d.do(fw.Op{K: "get", A: []int64{0, k, c.R.I64(3)}})
	}
	for k := 0; k < 4; k++ {
		d.do(fw.Op{K: "range", A: []int64{0, c.R.I64(p.Par("ncid")), c.R.I64(p.Par("ncid")), []int64{0, 1000, 3}[c.R.N(3)]}})
	}
	// time passes the expiry of some
	var ex []int64
	for _, s := range d.pool {
		if s.expiry > c.TimeOn(d.n).Unix() && s.expiry < 1<<33 {
			ex = append(ex, s.expiry)
		}
	}
	sort.Slice(ex, func(i, j int) bool { return ex[i] < ex[j] })
	for k := 0; k < 2 && len(ex) > 0; k++ {
		e := ex[c.R.N(len(ex))]
		d.jumps++
		d.n.Skew += time.Unix(e, int64(c.R.N(3)-1)*400000000).Sub(c.TimeOn(d.n))
		for j := int64(0); j < p.Par("ncid"); j++ {
			d.do(fw.Op{K: "get", A: []int64{0, j, c.R.I64(3)}})
		}
		c.SleepFor(1500 * time.Millisecond)
		d.do(fw.Op{K: "range", A: []int64{0, c.R.I64(p.Par("ncid")), c.R.I64(p.Par("ncid")), 0}})
	}
}

func init() {
	fw.Register(&fw.Scenario{Name: "sqloffers", Gen: genSQL, Run: runSQL, HangProp: []string{"C01"}, CrashProp: []string{"C01"},
		Real: []string{"common/pkg/offermgr", "common/pkg/database", "common/pkg/cidoffer", "sqlite (C)", "database/sql"}, Stub: []string{"disk (in-memory file system under sqlite)"}})
	fw.Checks["C01"] = []fw.Use{{Scenario: "sqloffers", Weight: 1}}
	fw.Checks["C02"] = []fw.Use{{Scenario: "sqloffers", Weight: 1}}
}
