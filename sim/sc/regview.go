package sc

import (
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"net/http"
	"sort"
	"strings"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrregistermgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"

	"sim.local/h/fw"
	"sim.local/h/simrt"
)

// The register-view scenario: the real register manager (and the ring under it) against a simulated register service.

func genRegview(r *simrt.PRNG, p *fw.Plan) {
	knobs(r, p)
	th := 1 + r.N(5)
	p.P["idseed"] = int64(r.U64() >> 2)
	p.P["fam"] = int64(r.N(6))
	p.P["n"] = int64(1 + r.N(30))
	p.P["np"] = int64(1 + r.N(6))
	p.P["pre"] = int64(r.N(int(p.P["n"]) + 1))
	p.P["period"] = []int64{1, 5, 60, 3600}[r.N(4)]
	p.P["disc"] = 3
	if r.P(0.1) {
		p.P["disc"] = int64(1 + r.N(2))
	}
	if r.P(0.5) {
		p.P["pbad"] = int64(10 + r.N(300))
	}
	if r.P(0.5) {
		p.P["slow"] = int64(1 + r.N(1000)) // ms of ordinary latency
	}
	if r.P(0.2) {
		p.P["pstall"] = int64(10 + r.N(100))
	}
	life := r.P(0.35)
	n := 4 + r.N(36)
	for i := 0; i < n; i++ {
		t := int64(r.N(th))
		g := int64(r.N(int(p.P["n"])))
		switch r.Weighted([]int{20, 5, 18, 12, 6, 5, 14, 5, 6, 6}) {
		case 0:
			p.Ops = append(p.Ops, fw.Op{K: "add", A: []int64{t, g, int64(r.N(2))}})
		case 1:
			p.Ops = append(p.Ops, fw.Op{K: "rm", A: []int64{t, g}})
		case 2:
			p.Ops = append(p.Ops, fw.Op{K: "refresh", A: []int64{t}})
		case 3:
			p.Ops = append(p.Ops, fw.Op{K: "get", A: []int64{t, g}})
		case 4:
			p.Ops = append(p.Ops, fw.Op{K: "getp", A: []int64{t, int64(r.N(int(p.P["np"])))}})
		case 5:
			p.Ops = append(p.Ops, fw.Op{K: "all", A: []int64{t, int64(r.N(2))}})
		case 6:
			p.Ops = append(p.Ops, fw.Op{K: "near", A: []int64{t, int64(r.N(1000)), int64(1 + r.N(18)), int64(r.N(int(p.P["n"])*3) - int(p.P["n"])*2)}})
		case 7:
			p.Ops = append(p.Ops, fw.Op{K: "range", A: []int64{t, g}})
		case 8:
			p.Ops = append(p.Ops, fw.Op{K: "sleep", A: []int64{t, int64(r.N(4000))}})
		case 9:
			p.Ops = append(p.Ops, fw.Op{K: "addp", A: []int64{t, int64(r.N(int(p.P["np"])))}})
		}
		if life && r.P(0.15) {
			p.Ops = append(p.Ops, fw.Op{K: []string{"start", "stop", "stopwait"}[r.N(3)], A: []int64{t}})
		}
	}
}

type regVer struct {
	rec      string // serialised
	from, to uint64 // valid [from,to); to==0: still
}

type regview struct {
	c    *fw.Ctx
	n    *simrt.Node
	m    *fcrregistermgr.FCRRegisterMgr
	ids  []string // gateways
	pids []string
	gw   map[string][]regVer
	pr   map[string][]regVer
	cnt  int
	// what the view must hold at least: set by completed refreshes, forgotten at shut-downs
	lastG          map[string]register.GatewayRegister
	lastP          map[string]register.ProviderRegister
	floorG, floorP map[string]uint64 // id -> sequence number such that a version valid at or after it must be shown
	inRing         map[string]bool   // seen in look-ups of this life
	started        bool
	unsure         bool   // life operations overlapped: whether it runs is not known
	lifeOps        int    // life operations in progress
	lifeN          uint64 // life operations begun
	badN           uint64 // faulty register answers begun
	badNow         int
	quiet          bool
	maxCalls       int
}

func regIDs(seed uint64, fam int64, n int) []string {
	r := simrt.NewPRNG(seed)
	seen := map[string]bool{}
	var l []string
	for len(l) < n {
		b := make([]byte, 32)
		switch fam {
		case 0:
			r.Read(b)
		case 1: // around the wrap
			if r.P(0.5) {
				for i := range b {
					b[i] = 0xff
				}
			}
			binary.BigEndian.PutUint32(b[28:], uint32(r.U64()))
		case 2: // small numbers, dense
			b[31] = byte(r.N(4*n + 4))
			if b[31]&1 == 1 && r.P(0.3) {
				b[0] = byte(r.N(256))
			}
		case 3: // evenly spaced, half of the circle
			b[0] = byte(r.N(256))
		case 4: // dense on both sides of the wrap
			b = wrapped(int64(r.N(6*n+6)) - int64(3*n+3))
		case 5: // dense on both sides of the point opposite to the wrap
			b = wrapped(int64(r.N(6*n+6)) - int64(3*n+3))
			b[0] ^= 0x80
		}
		h := hex.EncodeToString(b)
		if !seen[h] {
			seen[h] = true
			l = append(l, h)
		}
	}
	return l
}

// wrapped is k modulo the size of the identifier space.
func wrapped(k int64) []byte {
	b, _ := hex.DecodeString(fmt.Sprintf("%064x", new(big.Int).Mod(big.NewInt(k), ringMod)))
	return b
}

// A node that registers again changes one field of its record, or all of them.
func (d *regview) gwRec(id string) register.GatewayRegister {
	d.cnt++
	g, known := d.lastG[id]
	if !known {
		g = register.GatewayRegister{NodeID: id, RootSigningKey: "root" + id[:6], SigningKey: "key" + id[:6],
			RegionCode: "AU", NetworkInfoGateway: "g:" + id[:4], NetworkInfoProvider: "p:" + id[:4], NetworkInfoClient: "c:" + id[:4], NetworkInfoAdmin: "a:" + id[:4]}
	}
	f := []*string{&g.Address, &g.RootSigningKey, &g.SigningKey, &g.RegionCode, &g.NetworkInfoGateway, &g.NetworkInfoProvider, &g.NetworkInfoClient, &g.NetworkInfoAdmin}
	d.change(f)
	d.lastG[id] = g
	return g
}

func (d *regview) prRec(id string) register.ProviderRegister {
	d.cnt++
	g, known := d.lastP[id]
	if !known {
		g = register.ProviderRegister{NodeID: id, RootSigningKey: "root" + id[:6], SigningKey: "key" + id[:6],
			RegionCode: "AU", NetworkInfoGateway: "g:" + id[:4], NetworkInfoClient: "c:" + id[:4], NetworkInfoAdmin: "a:" + id[:4]}
	}
	f := []*string{&g.Address, &g.RootSigningKey, &g.SigningKey, &g.RegionCode, &g.NetworkInfoGateway, &g.NetworkInfoClient, &g.NetworkInfoAdmin}
	d.change(f)
	d.lastP[id] = g
	return g
}

func (d *regview) change(f []*string) {
	h := simrt.NewPRNG(uint64(d.c.Plan.Par("idseed")) + uint64(d.cnt)*31)
	v := fmt.Sprintf("v%d", d.cnt)
	if h.P(0.2) {
		for _, x := range f {
			*x = v
		}
		return
	}
	*f[h.N(len(f))] = v
}

func put(m map[string][]regVer, id, rec string, at uint64) {
	l := m[id]
	if len(l) > 0 && l[len(l)-1].to == 0 {
		l[len(l)-1].to = at
	}
	if rec != "" {
		l = append(l, regVer{rec: rec, from: at})
	}
	m[id] = l
}

func current(m map[string][]regVer, id string) string {
	l := m[id]
	if len(l) > 0 && l[len(l)-1].to == 0 {
		return l[len(l)-1].rec
	}
	return ""
}

func js(v any) string { b, _ := json.Marshal(v); return string(b) }

// ServeHTTP is the simulated register.
func (d *regview) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	p := d.c.Plan
	if s := p.Par("slow"); s > 0 && !d.quiet {
		d.c.SleepFor(time.Duration(1+d.c.NetR.I64(s)) * time.Millisecond)
	}
	kind, m := "gateway", d.gw
	if strings.Contains(r.URL.Path, "/provider") {
		kind, m = "provider", d.pr
	}
	if r.Method == "DELETE" {
		at := d.c.Seq()
		for _, id := range sortedStr(m) {
			put(m, id, "", at)
		}
		return
	}
	if r.Method == "POST" {
		var x struct {
			NodeID string `json:"nodeId"`
		}
		buf := make([]byte, 4096)
		n, _ := r.Body.Read(buf)
		if json.Unmarshal(buf[:n], &x) != nil || x.NodeID == "" {
			w.WriteHeader(400)
			return
		}
		if kind == "gateway" {
			var g register.GatewayRegister
			json.Unmarshal(buf[:n], &g)
			put(m, x.NodeID, js(g), d.c.Seq())
		} else {
			var g register.ProviderRegister
			json.Unmarshal(buf[:n], &g)
			put(m, x.NodeID, js(g), d.c.Seq())
		}
		return
	}
	bad := -1
	if !d.quiet {
		if d.c.Fault(d.c.NetR, "register-stall", float64(p.Par("pstall"))/1000) {
			d.badN++
			d.badNow++
			d.c.SleepFor(time.Duration(100+d.c.NetR.N(300)) * time.Second)
			d.badNow--
		} else if d.c.Fault(d.c.NetR, "register-bad-answer", float64(p.Par("pbad"))/1000) {
			bad = d.c.NetR.N(8)
			d.badN++
		}
	}
	var l []string
	for _, id := range sortedStr(m) {
		if x := current(m, id); x != "" {
			l = append(l, x)
		}
	}
	if bad < 0 {
		for i := len(l) - 1; i > 0; i-- {
			j := d.c.NetR.N(i + 1)
			l[i], l[j] = l[j], l[i]
		}
	}
	body := "[" + strings.Join(l, ",") + "]"
	switch bad {
	case 0:
		w.WriteHeader(500)
		body = "internal error"
	case 1:
		body = body[:len(body)/2]
	case 2:
		body = "null"
	case 3:
		body = "[null" + strings.Replace(body, "[", ",", 1)
		body = strings.Replace(body, ",]", "]", 1)
	case 4:
		panic("connection dropped")
	case 5:
		body = ""
	case 6: // every record twice
		body = "[" + strings.Join(append(l, l...), ",") + "]"
	case 7:
		body = "{}"
	}
	w.Write([]byte(body))
}

// valid tells whether rec was the record of id at some time at or after floor and before now.
func valid(m map[string][]regVer, id, rec string, floor uint64) bool {
	for _, v := range m[id] {
		if v.rec == rec && (v.to == 0 || v.to > floor) {
			return true
		}
	}
	// removed ones may stay visible: the last version before the removal
	if l := m[id]; len(l) > 0 {
		last := -1
		for i, v := range l {
			if v.from <= floor {
				last = i
			}
		}
		if last >= 0 && l[last].rec == rec {
			return true
		}
	}
	return false
}

// steady tells whether id was registered, as one and the same record, from a to b.
func steady(m map[string][]regVer, id string, a, b uint64) bool {
	for _, v := range m[id] {
		if v.from <= a && (v.to == 0 || v.to > b) {
			return true
		}
	}
	return false
}

func present(m map[string][]regVer, id string, a, b uint64) bool {
	for i, v := range m[id] {
		if v.from <= a {
			t := v.to
			for k := i + 1; k < len(m[id]) && m[id][k].from == t; k++ {
				t = m[id][k].to
			}
			if t == 0 || t > b {
				return true
			}
		}
	}
	return false
}

type span struct {
	call, life, bad uint64
	ok              bool
	t0              time.Duration
}

func (d *regview) begin() span {
	return span{d.c.Seq(), d.lifeN, d.badN, d.started && d.lifeOps == 0 && d.badNow == 0, d.c.Elapsed()}
}

// calm: the manager ran all the while, and the register answered properly.
func (d *regview) calm(s span) bool { return s.ok && d.lifeOps == 0 && d.lifeN == s.life && d.badN == s.bad }

// ran: the manager ran all the while.
func (d *regview) ran(s span) bool { return d.started && d.lifeOps == 0 && d.lifeN == s.life }

func (d *regview) timed(s span, what string) {
	bound := time.Duration(d.maxCalls) * 200 * time.Second
	if t := d.c.Elapsed() - s.t0; t > bound {
		d.c.Fail("C19", "call takes unreasonably long", "%s took %v of simulated time (bound %v)", what, t, bound)
	}
}

func (d *regview) do(th int64, o fw.Op) {
	c := d.c
	s := d.begin()
	g := ""
	if len(d.ids) > 0 {
		g = d.ids[int(o.Arg(1))%len(d.ids)]
	}
	switch o.K {
	case "add":
		rec := d.gwRec(g)
		if o.Arg(2) == 1 {
			d.m.RegisterGateway(register.NewGatewayRegister(rec.NodeID, rec.Address, rec.RootSigningKey, rec.SigningKey, rec.RegionCode, rec.NetworkInfoGateway, rec.NetworkInfoProvider, rec.NetworkInfoClient, rec.NetworkInfoAdmin))
		} else {
			put(d.gw, g, js(rec), c.Seq())
		}
	case "addp":
		id := d.pids[int(o.Arg(1))%len(d.pids)]
		put(d.pr, id, js(d.prRec(id)), c.Seq())
	case "rm":
		if current(d.gw, g) != "" {
			put(d.gw, g, "", c.Seq())
		}
	case "sleep":
		c.SleepFor(time.Duration(o.Arg(1)) * time.Millisecond)
	case "refresh":
		d.m.Refresh()
		end := c.Seq()
		if d.calm(s) {
			c.Probe("refresh-judged")
			c.NonTriv = true
			for _, id := range d.ids {
				if d.c.Plan.Par("disc")&1 != 0 && present(d.gw, id, s.call, end) && d.floorG[id] < s.call {
					d.floorG[id] = s.call
				}
			}
			for _, id := range d.pids {
				if d.c.Plan.Par("disc")&2 != 0 && present(d.pr, id, s.call, end) && d.floorP[id] < s.call {
					d.floorP[id] = s.call
				}
			}
			d.all(true)
			d.all(false)
		} else {
			c.Probe("refresh-unjudged")
		}
	case "get":
		fl := d.floorG[g]
		nid, err := nodeid.NewNodeIDFromHexString(g)
		if err != nil {
			c.Err("node id %s: %v", g, err)
			return
		}
		r := d.m.GetGateway(nid)
		end := c.Seq()
		if r == nil {
			if d.ran(s) && s.life == d.lifeN && s.ok0() && fl > 0 {
				c.Fail("C13", "a gateway known after a refresh is not found", "GetGateway(%s) is nil though a refresh that began at %d had to see it", g, fl)
			}
			if d.calm(s) && c.Plan.Par("disc")&1 != 0 && present(d.gw, g, s.call, end) {
				c.Fail("C13", "a registered gateway is not found", "GetGateway(%s) is nil though it was registered all the while [%d,%d]", g, s.call, end)
			}
			return
		}
		d.checkGW(r, g, fl)
		c.NonTriv = true
	case "getp":
		id := d.pids[int(o.Arg(1))%len(d.pids)]
		fl := d.floorP[id]
		nid, _ := nodeid.NewNodeIDFromHexString(id)
		r := d.m.GetProvider(nid)
		if r == nil {
			if d.ran(s) && s.ok0() && fl > 0 {
				c.Fail("C13", "a provider known after a refresh is not found", "GetProvider(%s) is nil though a refresh that began at %d had to see it", id, fl)
			}
			return
		}
		d.checkPR(r, id, fl)
	case "all":
		d.all(o.Arg(1) == 0)
	case "near":
		d.near(s, o)
	case "range":
		d.rng(s, g)
	case "start", "stop", "stopwait":
		d.life(o.K)
	}
	d.timed(s, o.K)
}

func (s span) ok0() bool { return s.ok }

func (d *regview) checkGW(r register.GatewayRegistrar, id string, fl uint64) {
	rec := r.Serialize()
	if id != "" && (r.GetNodeID() != id || rec.NodeID != id) {
		d.c.Fail("C13", "look-up returns another node's record", "asked for gateway %s, got %s", id, js(rec))
		return
	}
	if !valid(d.gw, rec.NodeID, js(rec), fl) {
		d.c.Fail("C13", "stale or unauthentic gateway record", "got %s; registered were %v; a refresh that began at %d completed before", js(rec), d.gw[rec.NodeID], fl)
	}
}

func (d *regview) checkPR(r register.ProviderRegistrar, id string, fl uint64) {
	rec := r.Serialize()
	if id != "" && (r.GetNodeID() != id || rec.NodeID != id) {
		d.c.Fail("C13", "look-up returns another node's record", "asked for provider %s, got %s", id, js(rec))
		return
	}
	if !valid(d.pr, rec.NodeID, js(rec), fl) {
		d.c.Fail("C13", "stale or unauthentic provider record", "got %s; registered were %v; a refresh that began at %d completed before", js(rec), d.pr[rec.NodeID], fl)
	}
}

func cpFloor(m map[string]uint64) map[string]uint64 {
	r := map[string]uint64{}
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (d *regview) all(gws bool) {
	s := d.begin()
	seen := map[string]bool{}
	var must map[string]uint64
	if gws {
		must = cpFloor(d.floorG)
		for _, r := range d.m.GetAllGateways() {
			if seen[r.GetNodeID()] {
				d.c.Fail("C13", "a node is listed twice", "gateway %s", r.GetNodeID())
			}
			seen[r.GetNodeID()] = true
			d.checkGW(r, "", must[r.GetNodeID()])
		}
	} else {
		must = cpFloor(d.floorP)
		for _, r := range d.m.GetAllProviders() {
			if seen[r.GetNodeID()] {
				d.c.Fail("C13", "a node is listed twice", "provider %s", r.GetNodeID())
			}
			seen[r.GetNodeID()] = true
			d.checkPR(r, "", must[r.GetNodeID()])
		}
	}
	if d.ran(s) && s.ok0() {
		for _, id := range sortedStr(must) {
			if !seen[id] {
				d.c.Fail("C13", "a node registered throughout a refresh is missing", "%s was registered throughout a refresh that began at %d", id, must[id])
			}
		}
	}
}

var ringMod = new(big.Int).Lsh(big.NewInt(1), 256)

func hexInt(h string) *big.Int {
	i, ok := new(big.Int).SetString(h, 16)
	if !ok {
		panic("hex " + h)
	}
	return i
}

// cw is the clockwise distance from a to b.
func cw(a, b *big.Int) *big.Int { return new(big.Int).Mod(new(big.Int).Sub(b, a), ringMod) }

func circ(a, b *big.Int) *big.Int {
	x, y := cw(a, b), cw(b, a)
	if x.Cmp(y) < 0 {
		return x
	}
	return y
}

func (d *regview) target(k int64) string {
	r := simrt.NewPRNG(uint64(d.c.Plan.Par("idseed")) + uint64(k)*977)
	switch {
	case k%4 == 0 && len(d.ids) > 0:
		return d.ids[r.N(len(d.ids))]
	case k%4 == 1 && len(d.ids) > 0: // next to one
		x := hexInt(d.ids[r.N(len(d.ids))])
		x.Add(x, big.NewInt(int64(r.N(3)-1))).Mod(x, ringMod)
		return fmt.Sprintf("%064x", x)
	case k%4 == 2 && len(d.ids) > 1: // between two
		x := new(big.Int).Add(hexInt(d.ids[r.N(len(d.ids))]), hexInt(d.ids[r.N(len(d.ids))]))
		x.Rsh(x, 1)
		return fmt.Sprintf("%064x", x)
	}
	if f := d.c.Plan.Par("fam"); f >= 4 {
		n := int(d.c.Plan.Par("n"))
		b := wrapped(int64(r.N(6*n+6)) - int64(3*n+3))
		if f == 5 {
			b[0] ^= 0x80
		}
		return hex.EncodeToString(b)
	}
	b := make([]byte, 32)
	r.Read(b)
	return hex.EncodeToString(b)
}

func (d *regview) near(s span, o fw.Op) {
	c := d.c
	t := d.target(o.Arg(1))
	num := int(o.Arg(2))
	excl := ""
	var ex *nodeid.NodeID
	if e := o.Arg(3); e >= 0 && int(e) < len(d.ids) {
		excl = d.ids[e]
		ex, _ = nodeid.NewNodeIDFromHexString(excl)
	}
	if c.Plan.Par("disc")&1 == 0 {
		return
	}
	known := map[string]bool{}
	for _, id := range sortedStr(d.floorG) {
		known[id] = true
	}
	for _, id := range sortedStr(d.inRing) {
		known[id] = true
	}
	ci, err := cid.NewContentIDFromHexString(t)
	if err != nil {
		c.Err("cid: %v", err)
		return
	}
	got, err := d.m.GetGatewaysNearCID(ci, num, ex)
	if err != nil {
		if d.ran(s) && s.ok0() {
			c.Fail("C14", "look-up fails", "GetGatewaysNearCID(%s,%d,%s): %v", t, num, excl, err)
		}
		return
	}
	if num > 16 {
		num = 16
	}
	seen := map[string]bool{}
	var ids []string
	for _, r := range got {
		id := r.GetNodeID()
		if seen[id] {
			c.Fail("C14", "duplicate in the answer", "%s twice for %s", id, t)
			return
		}
		seen[id] = true
		ids = append(ids, id)
		if id == excl {
			c.Fail("C14", "excluded gateway in the answer", "%s", id)
		}
		if len(d.gw[id]) == 0 {
			c.Fail("C14", "unknown gateway in the answer", "%s", id)
		}
	}
	if len(ids) > num {
		c.Fail("C14", "more gateways than asked for", "%d for %d", len(ids), num)
	}
	if !(d.ran(s) && s.ok0()) {
		return
	}
	ti := hexInt(t)
	far := big.NewInt(-1)
	for _, id := range ids {
		if x := circ(hexInt(id), ti); x.Cmp(far) > 0 {
			far = x
		}
	}
	for _, id := range sortedStr(known) {
		if seen[id] || id == excl {
			continue
		}
		if len(ids) < num || circ(hexInt(id), ti).Cmp(far) < 0 {
			c.Fail("C14", "a nearer gateway is missing", "nearest %d to %s without %q: got %v, but %s is known and nearer", num, t, excl, ids, id)
			return
		}
	}
	for _, id := range ids {
		d.inRing[id] = true
	}
	c.Probe("near-judged")
	c.NonTriv = true
}

// rng checks the responsible range; exact only when nothing changes.
// spanOf is the span of identifiers the 16 nearest of the others occupy around g; nil where it is not determined.
func spanOf(others map[string]bool, g string) (*big.Int, *big.Int, []string) {
	gi := hexInt(g)
	l := sortedStr(others)
	sort.SliceStable(l, func(i, j int) bool { return circ(hexInt(l[i]), gi).Cmp(circ(hexInt(l[j]), gi)) < 0 })
	if len(l) > 16 {
		if circ(hexInt(l[15]), gi).Cmp(circ(hexInt(l[16]), gi)) == 0 {
			return nil, nil, nil // a tie at the edge: either is right
		}
		l = l[:16]
	}
	// the span around g: from the farthest one counter-clockwise to the farthest one clockwise
	half := new(big.Int).Lsh(big.NewInt(1), 255)
	var wlo, whi = gi, gi
	for _, id := range l {
		x := hexInt(id)
		a, b := cw(x, gi), cw(gi, x)
		if a.Cmp(half) == 0 {
			return nil, nil, nil // exactly opposite: either side
		}
		if a.Cmp(b) < 0 {
			if a.Cmp(cw(wlo, gi)) > 0 {
				wlo = x
			}
		} else if b.Cmp(cw(gi, whi)) > 0 {
			whi = x
		}
	}
	if wlo == gi { // all on one side: the nearest one starts the span
		wlo = hexInt(l[0])
		for _, id := range l {
			if x := hexInt(id); cw(gi, x).Cmp(cw(gi, wlo)) < 0 {
				wlo = x
			}
		}
	}
	if whi == gi {
		whi = hexInt(l[0])
		for _, id := range l {
			if x := hexInt(id); cw(x, gi).Cmp(cw(whi, gi)) < 0 {
				whi = x
			}
		}
	}
	return wlo, whi, l
}

func (d *regview) rng(s span, g string) {
	c := d.c
	if c.Plan.Par("disc")&1 == 0 {
		return
	}
	nid, _ := nodeid.NewNodeIDFromHexString(g)
	lo, hi, err := d.m.GetGatewayCIDRange(nid)
	if !d.quiet {
		return
	}
	others := map[string]bool{}
	for _, id := range sortedStr(d.inRing) {
		if id != g {
			others[id] = true
		}
	}
	if len(others) < 2 {
		if err == nil {
			c.Fail("C14", "a range without neighbours", "GetGatewayCIDRange(%s) = %s..%s with %d other gateways", g, lo.ToString(), hi.ToString(), len(others))
		}
		return
	}
	if err != nil {
		c.Fail("C14", "range look-up fails", "GetGatewayCIDRange(%s): %v with %d other gateways", g, err, len(others))
		return
	}
	wlo, whi, l := spanOf(others, g)
	if wlo == nil {
		return
	}
	if hexInt(lo.ToString()).Cmp(wlo) != 0 || hexInt(hi.ToString()).Cmp(whi) != 0 {
		c.Fail("C14", "wrong responsible range", "gateway %s: range %s..%s, but its neighbours span %064x..%064x (%v)", g, lo.ToString(), hi.ToString(), wlo, whi, l)
	}
	c.Probe("range-judged")
}

func (d *regview) life(k string) {
	c := d.c
	d.lifeN++
	d.lifeOps++
	d.floorG, d.floorP, d.inRing = map[string]uint64{}, map[string]uint64{}, map[string]bool{}
	alone, life, was, unsure := d.lifeOps == 1, d.lifeN, d.started, d.unsure
	switch k {
	case "start":
		err := d.m.Start()
		if alone && d.lifeN == life && !unsure {
			if (err == nil) == was {
				c.Fail("C19", "wrong outcome of Start", "Start returned %v; started before: %v", err, was)
			}
		}
		d.started = true
	case "stop":
		d.m.Shutdown()
		d.started = false
	case "stopwait":
		d.m.ShutdownAndWait()
		d.started = false
	}
	d.unsure = !(alone && d.lifeN == life)
	if d.unsure {
		d.started = false
	}
	d.lifeOps--
	d.lifeN++
	d.floorG, d.floorP, d.inRing = map[string]uint64{}, map[string]uint64{}, map[string]bool{}
	c.Probe(k)
}

func runRegview(c *fw.Ctx) {
	p := c.Plan
	d := &regview{c: c, gw: map[string][]regVer{}, pr: map[string][]regVer{}, lastG: map[string]register.GatewayRegister{}, lastP: map[string]register.ProviderRegister{}, floorG: map[string]uint64{}, floorP: map[string]uint64{}, inRing: map[string]bool{}}
	all := regIDs(uint64(p.Par("idseed")), p.Par("fam"), int(p.Par("n")+p.Par("np")))
	d.ids, d.pids = all[:p.Par("n")], all[p.Par("n"):]
	reg := c.AddNode("register")
	c.Boot(reg, "idle", func() {})
	c.ServeHTTPOn(reg, "9020", d)
	d.n = c.AddNode("view")
	c.Boot(d.n, "idle", func() {})
	for i := 0; i < int(p.Par("pre")); i++ {
		put(d.gw, d.ids[i], js(d.gwRec(d.ids[i])), c.Seq())
	}
	d.maxCalls = 12
	ths := map[int64]bool{}
	for _, o := range p.Ops {
		ths[o.Arg(0)] = true
	}
	d.maxCalls += 4 * len(ths)
	disc := p.Par("disc")
	c.Call(d.n, "start", func() {
		d.m = fcrregistermgr.NewFCRRegisterMgr("http://register:9020", disc&2 != 0, disc&1 != 0, time.Duration(p.Par("period"))*time.Second)
		d.life("start")
	})
	threads(c, p.Ops, func(int64) *simrt.Node { return d.n }, func(th int64, i int, o fw.Op) { d.do(th, o) })
	// no more faults
	d.quiet = true
	c.Call(d.n, "quiet", func() {
		// make it run in a known state
		d.life("stop")
		d.life("start")
		for i := 0; i < int(p.Par("pre")); i++ {
			if current(d.gw, d.ids[i]) == "" {
				put(d.gw, d.ids[i], js(d.gwRec(d.ids[i])), c.Seq())
			}
		}
		d.do(0, fw.Op{K: "refresh"})
		if p.Par("disc")&1 != 0 {
			for _, r := range d.m.GetAllGateways() {
				d.inRing[r.GetNodeID()] = true
			}
		}
		for i := int64(0); i < 12; i++ {
			d.do(0, fw.Op{K: "near", A: []int64{0, d.c.R.I64(1000), 1 + d.c.R.I64(17), d.c.R.I64(int64(3*len(d.ids))) - 2*int64(len(d.ids))}})
		}
		for i := int64(0); i < 4; i++ {
			d.do(0, fw.Op{K: "range", A: []int64{0, d.c.R.I64(int64(len(d.ids)))}})
		}
		// and registered ones not refreshed yet are found by id
		g := d.ids[d.c.R.N(len(d.ids))]
		put(d.gw, g, js(d.gwRec(g)), c.Seq())
		d.do(0, fw.Op{K: "get", A: []int64{0, int64(indexOf(d.ids, g))}})
		// the periodic refresh brings in what is new, unasked
		g = d.ids[d.c.R.N(len(d.ids))]
		put(d.gw, g, js(d.gwRec(g)), c.Seq())
		d.floorG[g] = c.Seq()
		q := d.pids[d.c.R.N(len(d.pids))]
		put(d.pr, q, js(d.prRec(q)), c.Seq())
		d.floorP[q] = c.Seq()
		c.SleepFor(time.Duration(2*p.Par("period")+30) * time.Second)
		if disc&1 != 0 {
			d.all(true)
		}
		if disc&2 != 0 {
			d.all(false)
		}
		d.life([]string{"stop", "stopwait"}[d.c.R.N(2)])
		if l := d.m.GetAllGateways(); len(l) != 0 {
			c.Fail("C19", "view alive after shut-down", "%d gateways", len(l))
		}
	})
	c.SleepFor(800 * time.Second)
	if l := c.BlockedTasks(d.n); len(l) > 0 {
		c.Fail("C19", "something still runs after shut-down", "%s", strings.Join(l, "\n"))
	}
}

func indexOf(l []string, x string) int {
	for i, y := range l {
		if x == y {
			return i
		}
	}
	return -1
}

func init() {
	fw.Register(&fw.Scenario{Name: "regview", Gen: genRegview, Run: runRegview, HangProp: []string{"C19", "C13", "C14"}, CrashProp: []string{"C19", "C13", "C14"},
		Real: []string{"common/pkg/fcrregistermgr", "common/pkg/dhtring", "common/pkg/request"}, Stub: []string{"register service (a table that answers over the simulated network)"}})
	for _, p := range []string{"C13", "C14", "C19"} {
		fw.Checks[p] = []fw.Use{{Scenario: "regview", Weight: 1}}
	}
}
