package sc

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"

	"github.com/ConsenSys/fc-retrieval/client/pkg/fcrclient"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrp2pserver"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrregistermgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
	"github.com/ConsenSys/fc-retrieval/gateway-admin/pkg/fcrgatewayadmin"
	gwmain "github.com/ConsenSys/fc-retrieval/gateway/cmd/gateway"
	"github.com/ConsenSys/fc-retrieval/provider-admin/pkg/fcrprovideradmin"
	pvmain "github.com/ConsenSys/fc-retrieval/provider/cmd/provider"

	"sim.local/h/fw"
	"sim.local/h/simrt"
)

// The whole system: the real register service, real gateways, real providers, the real client and the real administration
// libraries in one simulated network, with hostile nodes among them.

const (
	clAuthentic = iota // C03
	clReach            // C05
	clJoin             // C06
	clInit             // C22
	clFind             // C23
	clList             // C24
	clJunk             // C12
	clPaid             // C09
	clLive             // C25
)

// clNode is a gateway or a provider.
type clNode struct {
	i     int
	gw    bool
	name  string
	node  *simrt.Node
	id    *nodeid.NodeID
	ids   string
	key   fixedKey
	past  []fixedKey // earlier keys
	greg  *register.GatewayRegister
	preg  *register.ProviderRegister
	inits int
	up    int  // incarnation that was initialised
	regd  bool // registered
	asked bool // somebody tried to register it
	known bool // everybody had time to learn about it
	late  bool // joins later
	jumps []clJump
	skew0 time.Duration
	rogue bool // scripted

	// C22
	recs   []string // records the register may hold; the first is certain when sure
	keys   []fixedKey
	sure   bool
	sureIn int  // incarnation
	failed bool // an initialisation failed, parts of it may be under way
	listed bool // a registration was reported successful
}

// bootGhosts enters providers into the register that cannot be reached.
func (d *clWorld) bootGhosts(k int) {
	c := d.c
	for i := 0; i < k; i++ {
		g := d.mkNode(10+i, false)
		if i%2 == 1 { // nothing comes back
			for _, n := range d.gws {
				c.Cut(n.node, g.node)
			}
		}
		c.Injected("unreachable-provider")
		c.Call(d.admin, "reg", func() {
			if err := d.rm.RegisterProvider(g.preg); err != nil {
				c.Err("ghost: %v", err)
			}
		})
	}
}

// signed tells whether one of the node's keys, now or earlier, fits.
func (n *clNode) signed(ok func(fixedKey) bool) bool {
	for _, k := range append([]fixedKey{n.key}, n.past...) {
		if ok(k) {
			return true
		}
	}
	return false
}

// rekey gives some nodes new signing keys; they are initialised and registered again.
func (d *clWorld) rekey(mask int64) {
	for i, n := range d.nodes() {
		if mask>>uint(i%40)&1 == 0 || n.rogue || n.late || !n.ready() {
			continue
		}
		n.past = append(n.past, n.key)
		if n.gw {
			n.key = keyN(48 + n.i)
			g := *n.greg
			g.SigningKey = n.key.pub
			n.greg = &g
		} else {
			n.key = keyN(72 + n.i)
			p := *n.preg
			p.SigningKey = n.key.pub
			n.preg = &p
		}
		n.regd = false
		for _, t := range d.tups {
			if t.prov == n {
				t.old = true
			}
			if n.gw {
				t.oldAck[n] = true
			}
		}
		d.c.Probe("new-key")
	}
}

func (n *clNode) ready() bool {
	return n.rogue || (n.node.Alive && n.up != 0 && n.up == n.node.Inc && n.regd)
}

// clTup is one offer that was to be published.
type clTup struct {
	prov   *clNode
	pinc   int
	cids   []int
	price  uint64
	expiry int64
	qos    uint64
	group  bool
	sub    map[int]string
	sig    string
	done   bool             // the command reported success
	calm   bool             // without disturbances
	must   map[*clNode]bool // gateways that have to hold it
	fetch  map[*clNode]bool // gateways that fetched it
	never  map[*clNode]bool // gateways that cannot have got it from the provider
	key    fixedKey         // the provider signed it with
	old    bool             // the provider has another key meanwhile
	oldAck map[*clNode]bool // gateways that acknowledged it with another key
}

func (t *clTup) String() string {
	return fmt.Sprintf("%s price %d contents %v expiry %d group %v", t.prov.name, t.price, t.cids, t.expiry, t.group)
}

type clWorld struct {
	c       *fw.Ctx
	mode    int64
	r       *simrt.PRNG
	reg     *simrt.Node
	admin   *simrt.Node
	watch   *simrt.Node
	app     *simrt.Node
	str     *simrt.Node
	evil    *clNode
	gws     []*clNode
	provs   []*clNode
	ncid    int
	chain   *Chain
	ga      *fcrgatewayadmin.FilecoinRetrievalGatewayAdmin
	pa      *fcrprovideradmin.FilecoinRetrievalProviderAdmin
	rm      *fcrregistermgr.FCRRegisterMgr
	cl      *fcrclient.FilecoinRetrievalClient
	phase   int // 0 calm, 1 disturbed, 2 calm
	tups    []*clTup
	byKey   map[string]*clTup
	acked   map[string]bool // provider incarnation, content, gateway
	pay     simMutex
	booting simMutex
	seen    [][]byte // genuine publish messages, for replays
	bad     int      // disturbances so far
	refused int
	prices  [2]int64
	redis   *Redis
	live    map[string]*liveReq // by content
	kept    map[string]*keptConn
	pw      *payWorld
}

// simMutex serialises harness tasks.
type simMutex struct{ busy bool }

func (m *simMutex) with(c *fw.Ctx, f func()) {
	c.WaitUntil(24*time.Hour, 50*time.Millisecond, func() bool { return !m.busy })
	m.busy = true
	defer func() { m.busy = false }()
	f()
}

func (d *clWorld) now() int64 { return d.c.TimeOn(d.watch).Unix() }

// --- nodes

func (d *clWorld) mkNode(i int, gw bool) *clNode {
	n := &clNode{i: i, gw: gw}
	if gw {
		n.name = fmt.Sprintf("gw%d", i)
		n.key = keyN(i)
		n.ids = regIDs(uint64(d.c.Plan.Par("ids")), d.c.Plan.Par("fam"), 24)[i]
		n.id, _ = nodeid.NewNodeIDFromHexString(n.ids)
		n.greg = &register.GatewayRegister{NodeID: n.ids, Address: WalletN(1 + i).Addr.String(), RootSigningKey: keyN(30 + i%8).pub, SigningKey: n.key.pub, RegionCode: "AU",
			NetworkInfoGateway: n.name + ":9012", NetworkInfoProvider: n.name + ":9011", NetworkInfoClient: n.name + ":9010", NetworkInfoAdmin: n.name + ":9013"}
	} else {
		n.name = fmt.Sprintf("prov%d", i)
		n.key = keyN(24 + i)
		n.id = provN(i)
		n.ids = n.id.ToString()
		n.preg = &register.ProviderRegister{NodeID: n.ids, Address: WalletN(30 + i).Addr.String(), RootSigningKey: keyN(30 + i).pub, SigningKey: n.key.pub, RegionCode: "AU",
			NetworkInfoGateway: n.name + ":9032", NetworkInfoClient: n.name + ":9030", NetworkInfoAdmin: n.name + ":9033"}
	}
	n.node = d.c.AddNode(n.name)
	e := n.node.Env
	tmo := fmt.Sprintf("%ds", d.c.Plan.Par("tmo"))
	for k, v := range map[string]string{"LOG_LEVEL": "panic", "DOCKER_NAME": n.name, "REGISTER_API_URL": "http://register:9020", "TCP_INACTIVITY_TIMEOUT": tmo, "TCP_LONG_INACTIVITY_TIMEOUT": tmo,
		"SEARCH_PRICE": fmt.Sprint(d.prices[0]), "OFFER_PRICE": fmt.Sprint(d.prices[1]), "TOPUP_AMOUNT": "1000000000000000000", "PROVIDER_SIG_ALG": "1"} {
		e[k] = v
	}
	if gw {
		e["BIND_REST_API"], e["BIND_PROVIDER_API"], e["BIND_GATEWAY_API"], e["BIND_ADMIN_API"] = "9010", "9011", "9012", "9013"
	} else {
		e["BIND_REST_API"], e["BIND_GATEWAY_API"], e["BIND_ADMIN_API"] = "9030", "9032", "9033"
	}
	return n
}

// start boots a node that is down. The command-line flags are state of the whole simulator, so only
// one node parses them at a time.
func (d *clWorld) start(n *clNode) {
	d.booting.with(d.c, func() {
		if n.node.Alive || n.rogue {
			return
		}
		if n.gw {
			d.c.Boot(n.node, n.name, gwmain.Main)
		} else {
			d.c.Boot(n.node, n.name, pvmain.Main)
		}
		d.c.SleepFor(2 * time.Second)
	})
}

func (d *clWorld) crash(n *clNode) {
	if n.rogue || !n.node.Alive {
		return
	}
	d.bad++
	d.c.Injected("crash-" + n.name[:2])
	d.c.CrashNode(n.node, "injected")
}

// initialise gives a node its identity and enters it into the register, as its operator does.
func (d *clWorld) initialise(n *clNode) (err error) {
	c := d.c
	inc := n.node.Inc
	n.inits++
	n.asked = true
	defer func() { n.inits++ }()
	c.Call(d.admin, "init", func() {
		v1 := c.Plan.Par("v1") != 0 && d.mode != clPaid
		switch {
		case n.gw && v1:
			err = d.ga.InitialiseGateway(n.greg, n.key.kp, fcrcrypto.InitialKeyVersion())
		case n.gw:
			err = d.ga.InitialiseGatewayV2(n.greg, n.key.kp, fcrcrypto.InitialKeyVersion(), WalletN(1+n.i).Hex, "http://lotus", "token")
		case v1:
			err = d.pa.InitialiseProvider(n.preg, n.key.kp, fcrcrypto.InitialKeyVersion())
		default:
			err = d.pa.InitialiseProviderV2(n.preg, n.key.kp, fcrcrypto.InitialKeyVersion(), WalletN(30+n.i).Hex, "http://lotus", "token")
		}
		if err != nil {
			return
		}
		if n.gw {
			err = d.rm.RegisterGateway(n.greg)
		} else {
			err = d.rm.RegisterProvider(n.preg)
		}
	})
	if err == nil {
		n.listed = true
	}
	if err == nil && n.node.Alive && n.node.Inc == inc {
		n.up, n.regd = inc, true
	}
	return
}

func (d *clWorld) refresh(n *clNode) (err error) {
	if n.rogue {
		return nil
	}
	d.c.Call(d.admin, "refresh", func() {
		if n.gw {
			err = d.ga.ForceUpdate(n.id)
		} else {
			err = d.pa.ForceUpdate(n.id)
		}
	})
	return
}

func (d *clWorld) nodes() []*clNode { return append(append([]*clNode(nil), d.gws...), d.provs...) }

// settle brings everything up and gives it time.
func (d *clWorld) settle(what string) bool {
	c := d.c
	for _, n := range d.nodes() {
		if n.late || n.rogue {
			continue
		}
		d.start(n)
	}
	for _, n := range d.nodes() {
		if n.late || n.rogue || n.ready() {
			continue
		}
		if err := d.initialise(n); err != nil {
			c.Fail("C22", "a reachable node cannot be initialised", "%s %s: %v", what, n.name, err)
			return false
		}
	}
	for _, n := range d.nodes() {
		if n.ready() {
			if err := d.refresh(n); err != nil {
				c.Fail("C22", "an initialised node does not answer its administrator", "%s %s: %v", what, n.name, err)
				return false
			}
		}
	}
	for _, n := range d.nodes() {
		n.known = n.ready()
	}
	d.bootClient()
	return len(c.Fails) == 0
}

func (d *clWorld) bootClient() {
	c := d.c
	if d.app.Alive {
		c.CrashNode(d.app, "restart")
	}
	d.cl = nil
	done := false
	c.Boot(d.app, "client", func() {
		rm := fcrregistermgr.NewFCRRegisterMgr("http://register:9020", true, true, 10*time.Second)
		if err := rm.Start(); err != nil {
			c.Err("register manager: %v", err)
			return
		}
		b := fcrclient.CreateSettings()
		b.SetLogging("panic", "STDOUT", "client")
		b.SetEstablishmentTTL(100)
		b.SetRegisterURL("http://register:9020")
		b.SetBlockchainPrivateKey(keyN(46).kp)
		b.SetRetrievalPrivateKey(keyN(47).kp, fcrcrypto.InitialKeyVersion())
		b.SetWalletPrivateKey(WalletN(0).Hex)
		b.SetLotusAP("http://lotus")
		b.SetLotusAuthToken("token")
		b.SetSearchPrice(big.NewInt(d.prices[0]))
		b.SetOfferPrice(big.NewInt(d.prices[1]))
		b.SetTopUpAmount(big.NewInt(1_000_000_000_000_000_000))
		cl, err := fcrclient.NewFilecoinRetrievalClient(*b.Build(), rm)
		if err != nil {
			c.Err("client: %v", err)
			return
		}
		var l []*nodeid.NodeID
		for _, g := range d.gws {
			if g.ready() && !g.rogue {
				l = append(l, g.id)
			}
		}
		if k := cl.AddGatewaysToUse(l); k != len(l) {
			c.Fail("C22", "a registered gateway is not usable by clients", "%d of %d gateways accepted", k, len(l))
		}
		if k := cl.AddActiveGateways(l); k != len(l) {
			c.Fail("C22", "a registered gateway is not usable by clients", "%d of %d gateways active", k, len(l))
		}
		d.cl = cl
		done = true
	})
	if !c.WaitUntil(time.Hour, 10*time.Millisecond, func() bool { return done || !d.app.Alive }) || !done {
		c.Fail("C23", "the client library dies", "%v", c.Crashes)
	}
}

// --- the register as it should be

func (d *clWorld) registered() map[string]*clNode {
	m := map[string]*clNode{}
	for _, g := range d.gws {
		if g.regd {
			m[g.ids] = g
		}
	}
	return m
}

// ring names the registered gateways, "" while that is not certain.
func (d *clWorld) ring() string {
	for _, g := range d.gws {
		if g.asked && !g.regd {
			return ""
		}
	}
	return strings.Join(sortedStr(d.registered()), " ")
}

// nearest are the 16 registered gateways nearest to a content, leaving one out.
func (d *clWorld) nearest(k int, except *clNode) []*clNode {
	m := d.registered()
	if except != nil {
		delete(m, except.ids)
	}
	l := sortedStr(m)
	x := hexInt(cidN(k).ToString())
	sort.SliceStable(l, func(i, j int) bool { return circ(hexInt(l[i]), x).Cmp(circ(hexInt(l[j]), x)) < 0 })
	var out []*clNode
	for i, id := range l {
		if i >= 16 {
			break
		}
		out = append(out, m[id])
	}
	return out
}

func has(l []*clNode, n *clNode) bool {
	for _, x := range l {
		if x == n {
			return true
		}
	}
	return false
}

// --- raw requests of an outsider

func (d *clWorld) post(n *clNode, m *fcrmessages.FCRMessage) (res *fcrmessages.FCRMessage, err error) {
	port := "9010"
	if !n.gw {
		port = "9030"
	}
	b := raw(m)
	if !d.c.Call(d.watch, "ask", func() {
		var st int
		var body []byte
		st, body, err = d.c.HTTPDo("POST", "http://"+n.name+":"+port+"/v1", "application/json", b)
		if err != nil {
			return
		}
		if st != 200 {
			err = fmt.Errorf("status %d: %s", st, body)
			return
		}
		res, err = fcrmessages.FCRMsgFromBytes(body)
	}) {
		err = errors.New("cut short")
	}
	return
}

// held is what a gateway gives out for a content.
func (d *clWorld) held(g *clNode, k int) (map[string]*cidoffer.SubCIDOffer, error) {
	c := d.c
	nonce := int64(d.r.N(1 << 30))
	q, _ := fcrmessages.EncodeClientStandardDiscoverRequest(cidN(k), nonce, d.now()+1000, "", "")
	m, err := d.post(g, q)
	if err != nil {
		return nil, err
	}
	if err := m.Verify(g.key.kp); err != nil {
		c.Fail("C22", "an answer does not verify under the registered key", "%s: %v", g.name, err)
		return nil, err
	}
	x, no, found, subs, _, err := fcrmessages.DecodeClientStandardDiscoverResponse(m)
	if err != nil {
		return nil, err
	}
	if x.ToString() != cidN(k).ToString() || no != nonce || found != (len(subs) > 0) {
		c.Fail("C23", "an answer does not belong to the question", "%s asked for content %d nonce %d: content %s nonce %d found %v %d offers", g.name, k, nonce, x.ToString(), no, found, len(subs))
	}
	out := map[string]*cidoffer.SubCIDOffer{}
	for i := range subs {
		o := &subs[i]
		out[subKey(o)] = o
		d.authentic(g, k, o)
	}
	return out, nil
}

// authentic: the offer was published by the provider it names, and nobody changed it.
func (d *clWorld) authentic(g *clNode, k int, o *cidoffer.SubCIDOffer) {
	c := d.c
	key := subKey(o)
	t := d.byKey[key]
	c.Probe("offer-seen")
	switch {
	case o.GetMerkleProof() == nil || o.GetSubCID() == nil:
		c.Fail("C03", "a gateway gives out an offer that is none", "%s content %d: %s", g.name, k, key)
	case o.GetSubCID().ToString() != cidN(k).ToString():
		c.Fail("C03", "a gateway gives out an offer for other content", "%s content %d: %s", g.name, k, key)
	case t == nil:
		c.Fail("C03", "a gateway holds an offer its provider never published", "%s content %d: %s", g.name, k, key)
	case t.sig != sigCore(o.GetSignature()) && o.Verify(t.key.kp) != nil:
		c.Fail("C03", "a gateway holds an offer with a wrong signature", "%s content %d: %s signature %s", g.name, k, key, o.GetSignature())
	case !proofOK(o):
		c.Fail("C03", "a gateway holds an offer that does not prove its content", "%s content %d: %s %s", g.name, k, key, js(o.GetMerkleProof()))
	}
}

// --- publishing

func (d *clWorld) newTup(p *clNode, cids []int, price uint64, expiry int64, qos uint64, group bool) *clTup {
	t := &clTup{prov: p, pinc: p.node.Inc, cids: cids, price: price, expiry: expiry, qos: qos, group: group, sub: map[int]string{}, must: map[*clNode]bool{}, fetch: map[*clNode]bool{}, never: map[*clNode]bool{}, oldAck: map[*clNode]bool{}, key: p.key}
	o := t.offer(p.id)
	o.Sign(p.key.kp, fcrcrypto.InitialKeyVersion())
	t.sig = sigCore(o.GetSignature())
	for _, k := range cids {
		so, err := o.GenerateSubCIDOffer(cidN(k))
		if err != nil {
			panic(err)
		}
		t.sub[k] = subKey(so)
	}
	return t
}

func (t *clTup) offer(id *nodeid.NodeID) *cidoffer.CIDOffer {
	var l []cid.ContentID
	for _, k := range t.cids {
		l = append(l, *cidN(k))
	}
	o, err := cidoffer.NewCIDOffer(id, l, t.price, t.expiry, t.qos)
	if err != nil {
		panic(err)
	}
	return o
}

func (d *clWorld) issue(t *clTup) {
	d.tups = append(d.tups, t)
	for _, s := range t.sub {
		d.byKey[s] = t
	}
}

func (d *clWorld) expiry(r *simrt.PRNG) int64 {
	now := d.now()
	switch r.Weighted([]int{16, 2, 1}) {
	case 1:
		return now + 20 + r.I64(200)
	case 2:
		return now - r.I64(100)
	}
	return now + 10_000_000 + r.I64(1000)
}

func (d *clWorld) publish(i int, o fw.Op) {
	c := d.c
	p := d.provs[int(o.Arg(1))%len(d.provs)]
	r := simrt.NewPRNG(uint64(o.Arg(2)))
	group := o.K == "pubg"
	var ks []int
	for _, k := range o.A[3:] {
		if k >= 1000 { // a range of contents
			for j := int64(0); j < k-1000; j++ {
				ks = append(ks, 48+int(j))
			}
			continue
		}
		ks = append(ks, int(k)%d.ncid)
	}
	if len(ks) == 0 {
		return
	}
	base := uint64(i+1) * 1000
	var ts []*clTup
	if group {
		u := map[int]bool{}
		var l []int
		for _, k := range ks {
			if !u[k] || r.P(0.1) {
				l = append(l, k)
			}
			u[k] = true
		}
		ts = append(ts, d.newTup(p, l, base, d.expiry(r), uint64(r.N(100)), true))
	} else {
		for j, k := range ks {
			ts = append(ts, d.newTup(p, []int{k}, base+uint64(j), d.expiry(r), uint64(r.N(100)), false))
		}
	}
	if !p.ready() {
		if d.phase != 1 {
			return
		}
	}
	inc, bad := p.node.Inc, d.bad
	for _, t := range ts {
		d.issue(t)
	}
	gone := map[*clNode]int{}
	for _, g := range d.gws {
		if !g.node.Alive && !g.rogue {
			gone[g] = g.node.Inc
		}
		if g.rogue && d.mode != clPaid {
			for _, t := range ts {
				t.never[g] = true // what it answers acknowledges nothing
			}
		}
	}
	var err error
	lived := c.Call(d.admin, "publish", func() {
		if group {
			var l []cid.ContentID
			for _, k := range ts[0].cids {
				l = append(l, *cidN(k))
			}
			err = d.pa.PublishGroupCID(p.id, l, ts[0].price, ts[0].expiry, ts[0].qos)
			return
		}
		var l []cid.ContentID
		var pr, qs []uint64
		var ex []int64
		for _, t := range ts {
			l, pr, ex, qs = append(l, *cidN(t.cids[0])), append(pr, t.price), append(ex, t.expiry), append(qs, t.qos)
		}
		err = d.pa.PublishDHTCID(p.id, l, pr, ex, qs)
	})
	for g, gi := range gone {
		if !g.node.Alive && g.node.Inc == gi {
			for _, t := range ts {
				t.never[g] = true
			}
		}
	}
	if !lived || err != nil || p.node.Inc != inc {
		c.Probe("publish-failed")
		if d.phase != 1 && lived && p.node.Inc == inc {
			c.Fail("C23", "a provider that can reach everybody cannot publish", "%s: %v", p.name, err)
		}
		return
	}
	c.Probe("published")
	c.NonTriv = true
	for _, t := range ts {
		t.done = true
		if d.phase == 1 || bad != d.bad {
			continue
		}
		t.calm = true
		var to []*clNode
		if group {
			for _, g := range d.gws {
				to = append(to, g)
			}
		} else {
			to = d.nearest(t.cids[0], nil)
		}
		for _, g := range to {
			if g.known && g.ready() && !g.rogue {
				t.must[g] = true
			}
		}
	}
}

func (t *clTup) live(now int64) bool { return t.expiry > now+120 }

// --- judging

// judgeStores: what the gateways hold.
func (d *clWorld) judgeStores(only *clNode, ks []int) {
	c := d.c
	for _, g := range d.gws {
		if !g.ready() || g.rogue || (only != nil && g != only) {
			continue
		}
		for _, k := range ks {
			h, err := d.held(g, k)
			if err != nil {
				c.Fail("C23", "a gateway does not answer a search", "%s content %d: %v", g.name, k, err)
				c.Fail("C12", "a node stops answering", "%s content %d: %v", g.name, k, err)
				return
			}
			now := d.now()
			for _, t := range d.tups {
				s, ok := t.sub[k]
				if !ok || t.old || !t.live(now) || h[s] != nil {
					continue
				}
				if t.must[g] {
					if !t.group {
						c.Fail("C05", "a responsible gateway does not hold a published offer", "%s lacks %s for content %d", g.name, t, k)
					}
					c.Fail("C23", "a published offer is not found at a gateway that should hold it", "%s lacks %s for content %d", g.name, t, k)
					c.Fail("C03", "an honest offer is not accepted", "%s lacks %s for content %d", g.name, t, k)
				}
				if t.fetch[g] {
					c.Fail("C06", "a fetched range is not complete", "%s lacks %s for content %d", g.name, t, k)
				}
			}
			c.Probe("store-judged")
		}
	}
}

// ackOf asks a provider for its acknowledgement.
func (d *clWorld) ackOf(p, g *clNode, k int) (found bool, err error) {
	c := d.c
	q, _ := fcrmessages.EncodeClientDHTOfferAckRequest(cidN(k), g.id)
	m, err := d.post(p, q)
	if err != nil {
		return false, err
	}
	if err := m.Verify(p.key.kp); err != nil {
		c.Fail("C22", "an answer does not verify under the registered key", "%s: %v", p.name, err)
		return false, err
	}
	x, gid, found, rq, rs, err := fcrmessages.DecodeClientDHTOfferAckResponse(m)
	if err != nil {
		return false, err
	}
	if x.ToString() != cidN(k).ToString() || gid.ToString() != g.ids {
		c.Fail("C05", "an acknowledgement does not belong to the question", "%s asked for %s content %d", p.name, g.name, k)
	}
	if !found {
		return false, nil
	}
	c.Probe("ack-judged")
	bad := func(f string, a ...any) {
		c.Fail("C05", "a provider presents an acknowledgement that proves nothing", "%s for content %d at %s: %s", p.name, k, g.name, fmt.Sprintf(f, a...))
		if d.mode == clJoin {
			c.Fail("C06", "a fetched offer is not truthfully acknowledged", "%s for content %d at %s: %s", p.name, k, g.name, fmt.Sprintf(f, a...))
		}
	}
	if !p.signed(func(k fixedKey) bool { x := *rq; return x.Verify(k.kp) == nil }) {
		bad("the request is not signed by the provider")
		return true, nil
	}
	pid, _, offs, err2 := fcrmessages.DecodeProviderPublishDHTOfferRequest(rq)
	if err2 != nil || pid.ToString() != p.ids {
		bad("no publish request of the provider: %v", err2)
		return true, nil
	}
	if !g.signed(func(k fixedKey) bool { x := *rs; return x.Verify(k.kp) == nil }) {
		bad("the acknowledgement is not signed by the gateway")
		return true, nil
	}
	_, sig, err2 := fcrmessages.DecodeProviderPublishDHTOfferResponse(rs)
	if err2 != nil {
		bad("no acknowledgement: %v", err2)
		return true, nil
	}
	if !g.signed(func(k fixedKey) bool {
		ok, err := fcrcrypto.VerifyMessage(k.kp, sig, rq.GetMessageBody())
		return err == nil && ok
	}) {
		bad("the gateway signed something else")
		return true, nil
	}
	hit := false
	for i := range offs {
		of := &offs[i]
		for _, y := range of.GetCIDs() {
			if y.ToString() != cidN(k).ToString() {
				continue
			}
			hit = true
			so, err := of.GenerateSubCIDOffer(cidN(k))
			if err != nil || d.byKey[subKey(so)] == nil {
				bad("the offer was never published: %v", err)
				continue
			}
			t := d.byKey[subKey(so)]
			if g.ready() && !g.rogue && t.live(d.now()) && !(d.phase == 1 && c.Plan.Par("disk") > 0) {
				h, err := d.held(g, k)
				if err == nil && t.live(d.now()) && h[subKey(so)] == nil {
					c.Fail("C05", "an acknowledged offer is not stored", "%s presents %s's acknowledgement of %s, which %s does not hold", p.name, g.name, t, g.name)
				}
			}
		}
	}
	if !hit {
		bad("it is not about this content")
	}
	return true, nil
}

func (d *clWorld) judgeAcks(ks []int) {
	c := d.c
	for _, p := range d.provs {
		if !p.ready() {
			continue
		}
		for _, g := range d.gws {
			for _, k := range ks {
				found, err := d.ackOf(p, g, k)
				if err != nil {
					c.Fail("C05", "a provider does not answer for its acknowledgements", "%s %s content %d: %v", p.name, g.name, k, err)
					return
				}
				key := fmt.Sprint(p.name, " ", p.node.Inc, " ", k, " ", g.name)
				if found {
					d.acked[key] = true
					continue
				}
				if d.acked[key] {
					c.Fail("C05", "a provider lost an acknowledgement", "%s for content %d at %s", p.name, k, g.name)
				}
				for _, t := range d.tups {
					if t.prov != p || t.old || t.oldAck[g] || t.pinc != p.node.Inc || t.group || t.cids[0] != k {
						continue
					}
					if t.must[g] && t.live(d.now()) {
						c.Fail("C05", "a provider lost an acknowledgement", "%s for content %d at %s, published as %s", p.name, k, g.name, t)
					}
					if t.fetch[g] && t.live(d.now()) {
						c.Fail("C06", "a fetched offer is not acknowledged to its provider", "%s content %d at %s: %s", p.name, k, g.name, t)
					}
				}
			}
		}
	}
}

func (d *clWorld) list(o fw.Op) {
	c := d.c
	p := d.provs[int(o.Arg(1))%len(d.provs)]
	if !p.ready() {
		return
	}
	var ids []nodeid.NodeID
	asked := map[*clNode]bool{}
	for _, x := range o.A[2:] {
		if int(x) < len(d.gws) {
			if g := d.gws[x]; !asked[g] {
				asked[g] = true
				ids = append(ids, *g.id)
			}
		} else {
			ids = append(ids, *provN(14)) // nobody
		}
	}
	all := len(ids) == 0
	inc := p.node.Inc
	// what has to be listed must have been published before
	type exp struct{ lo, hi int }
	want := map[*clTup]exp{}
	calc := func() {
		for _, t := range d.tups {
			if t.prov != p || t.pinc != inc {
				continue
			}
			e := exp{}
			for _, g := range d.gws {
				if !all && !asked[g] {
					continue
				}
				if t.must[g] && t.calm {
					e.lo++
				}
				if !t.never[g] {
					e.hi++
				}
			}
			w := want[t]
			if w.hi < e.hi {
				w.hi = e.hi
			}
			want[t] = w
			if _, ok := want[t]; ok && e.lo > w.lo {
				want[t] = exp{e.lo, w.hi}
			}
		}
	}
	calc()
	lo := map[*clTup]int{}
	for t, e := range want {
		lo[t] = e.lo
	}
	var found bool
	var offs []cidoffer.CIDOffer
	var err error
	c.Call(d.admin, "list", func() { found, offs, err = d.pa.GetGroupCIDOffer(p.id, ids) })
	if err != nil || inc != p.node.Inc {
		if d.phase != 1 && inc == p.node.Inc {
			c.Fail("C24", "a reachable provider does not list its offers", "%s: %v", p.name, err)
		}
		return
	}
	want = map[*clTup]exp{}
	calc() // publications that began meanwhile may be listed
	if found != (len(offs) > 0) {
		c.Fail("C24", "the listing contradicts itself", "found %v with %d offers", found, len(offs))
	}
	got := map[*clTup]int{}
	for i := range offs {
		of := &offs[i]
		cs := of.GetCIDs()
		if len(cs) == 0 {
			c.Fail("C24", "an offer is listed that was not published", "%s: an offer without contents", p.name)
			continue
		}
		so, e := of.GenerateSubCIDOffer(&cs[0])
		var t *clTup
		if e == nil {
			t = d.byKey[subKey(so)]
		}
		if t == nil || t.prov != p {
			c.Fail("C24", "an offer is listed that was not published", "%s: %s", p.name, offText(of))
			continue
		}
		if w := offText(d.signed(t)); offText(of) != w {
			c.Fail("C24", "an offer is listed other than it was published", "%s:\n%s\nwas\n%s", p.name, offText(of), w)
		}
		got[t]++
	}
	for _, t := range d.tups {
		if t.prov != p || t.pinc != inc {
			if got[t] > 0 {
				c.Fail("C24", "an offer is listed that was not published", "%s: %s", p.name, t)
			}
			continue
		}
		if got[t] < lo[t] {
			c.Fail("C24", "a published offer is not listed", "%s asked for %v: %s is listed %d times instead of %d", p.name, o.A[2:], t, got[t], lo[t])
		}
		if got[t] > want[t].hi {
			c.Fail("C24", "an offer is listed more often than it was published", "%s asked for %v: %s is listed %d times, %d gateways can have it", p.name, o.A[2:], t, got[t], want[t].hi)
		}
	}
	c.Probe("list-judged")
	if d.phase == 1 {
		return
	}
	// what a gateway acknowledged it holds
	for _, t := range d.tups {
		if got[t] == 0 || len(c.Fails) > 0 {
			continue
		}
		can := 0
		for _, g := range d.gws {
			if !all && !asked[g] {
				continue
			}
			if !g.ready() || g.rogue {
				can++
				continue
			}
			h, err := d.held(g, t.cids[0])
			if err != nil || !t.live(d.now()) || h[t.sub[t.cids[0]]] != nil {
				can++
			}
		}
		if got[t] > can {
			c.Fail("C05", "an acknowledged offer is not stored", "%s lists %s as acknowledged by %d of the gateways %v, %d can hold it", p.name, t, got[t], o.A[2:], can)
		}
		c.Probe("acknowledged-offer-judged")
	}
}

func (d *clWorld) signed(t *clTup) *cidoffer.CIDOffer {
	o := t.offer(t.prov.id)
	o.Sign(t.key.kp, fcrcrypto.InitialKeyVersion())
	return o
}

// --- the client

func (d *clWorld) find(o fw.Op) {
	c := d.c
	if d.cl == nil || !d.app.Alive {
		return
	}
	g := d.gws[int(o.Arg(1))%len(d.gws)]
	k := int(o.Arg(2)) % d.ncid
	if !g.ready() || g.rogue || !g.known {
		if d.phase != 1 {
			return
		}
	}
	paid := o.K == "find2" || o.K == "dht2"
	if paid && c.Plan.Par("v1") != 0 {
		return // no payments in this deployment
	}
	need := map[string]*clTup{}
	now := d.now()
	for _, t := range d.tups {
		s, ok := t.sub[k]
		if !ok || t.old || !t.live(now) || d.phase == 1 {
			continue
		}
		if o.K == "find1" || o.K == "find2" {
			if t.must[g] || t.fetch[g] {
				need[s] = t
			}
			continue
		}
		for _, h := range d.nearest(k, g) {
			if h.known && h.ready() && (t.must[h] || t.fetch[h]) {
				need[s] = t
			}
		}
	}
	var l []cidoffer.SubCIDOffer
	var err error
	run := func() {
		c.Call(d.app, "find", func() {
			x := cidN(k)
			switch o.K {
			case "find1":
				l, err = d.cl.FindOffersStandardDiscovery(x, g.id)
			case "find2":
				l, err = d.cl.FindOffersStandardDiscoveryV2(x, g.id, 1000)
			default:
				var m map[string]*[]cidoffer.SubCIDOffer
				if o.K == "dht1" {
					m, err = d.cl.FindOffersDHTDiscovery(x, g.id, 16)
				} else {
					m, err = d.cl.FindOffersDHTDiscoveryV2(x, g.id, 16, 1000)
				}
				for _, id := range sortedStr(m) {
					if m[id] != nil {
						l = append(l, *m[id]...)
					}
				}
			}
		})
	}
	if d.pw != nil && o.K == "dht2" {
		x := cidN(k).ToString()
		d.pw.reqs[x] = append(d.pw.reqs[x], &paidReq{g: g, kind: pkDHT, cid: x, price: 1, hi: 1, due: d.prices[0]}, &paidReq{g: g, kind: pkDHTOff, cid: x, price: 1, hi: 1})
	}
	if paid && d.pw != nil && c.Plan.Par("serial") == 1 {
		d.pw.serial[g].with(c, func() { d.pay.with(c, run) })
	} else if paid && d.pw != nil && o.K == "dht2" && c.Plan.Par("serial") != 1 {
		need = map[string]*clTup{} // vouchers of concurrent searches may overtake each other
		d.pay.with(c, run)
	} else if paid {
		d.pay.with(c, run)
	} else {
		run()
	}
	c.Probe("searched-" + o.K)
	if d.phase == 1 {
		return
	}
	have := map[string]bool{}
	for i := range l {
		have[subKey(&l[i])] = true
	}
	for _, s := range sortedStr(need) {
		if !have[s] && need[s].live(d.now()) {
			if paid && d.mode == clPaid {
				c.Fail("C09", "a client that pays the price gets less than the result", "client library, content %d from %s: %s is not among %d offers (%v)", k, g.name, need[s], len(l), err)
			}
			c.Fail("C23", "a published offer is not found by "+map[string]string{"find1": "the standard search", "find2": "the paid standard search", "dht1": "the distributed search", "dht2": "the paid distributed search"}[o.K],
				"content %d from %s: %s is not among %d offers (%v)", k, g.name, need[s], len(l), err)
			return
		}
	}
	if len(need) > 0 {
		c.Probe("found-" + o.K)
	}
}

func (d *clWorld) clientAck(o fw.Op) {
	c := d.c
	p := d.provs[int(o.Arg(1))%len(d.provs)]
	g := d.gws[int(o.Arg(2))%len(d.gws)]
	k := int(o.Arg(3)) % d.ncid
	if d.cl == nil || !d.app.Alive {
		return
	}
	must := ""
	for _, t := range d.tups {
		if t.prov == p && !t.old && !t.oldAck[g] && t.pinc == p.node.Inc && !t.group && t.cids[0] == k && t.live(d.now()) && (t.must[g] || t.fetch[g]) {
			must = t.String()
		}
	}
	inc := p.node.Inc
	var ok bool
	var err error
	c.Call(d.app, "ack", func() { ok, err = d.cl.FindDHTOfferAck(cidN(k), g.id, p.id) })
	if d.phase != 1 && p.ready() && p.node.Inc == inc && must != "" && g.known && !ok {
		c.Fail("C05", "a client cannot get an acknowledgement it is entitled to", "%s %s content %d (%s): %v", p.name, g.name, k, must, err)
	}
	if ok && err == nil && g.ready() && !g.rogue && d.phase != 1 {
		found, err := d.ackOf(p, g, k)
		if err == nil && !found && p.node.Inc == inc {
			c.Fail("C05", "a provider lost an acknowledgement", "%s for content %d at %s", p.name, k, g.name)
		}
	}
}

// --- fetching

func (d *clWorld) fetch(o fw.Op) {
	c := d.c
	g := d.gws[int(o.Arg(1))%len(d.gws)]
	if !g.ready() || g.rogue {
		return
	}
	inc, bad := g.node.Inc, d.bad
	ring := d.ring()
	if d.refresh(g) != nil {
		return
	}
	var want []*clTup
	for _, t := range d.tups {
		if t.done && !t.group && len(t.prov.past) == 0 && t.prov.ready() && t.pinc == t.prov.node.Inc && t.prov != d.evil {
			want = append(want, t)
		}
	}
	others := map[string]bool{}
	for id := range d.registered() {
		if id != g.ids {
			others[id] = true
		}
	}
	var err error
	c.Call(d.admin, "fetch", func() { err = d.ga.ListDHTOffer(g.id) })
	if d.phase == 1 {
		return
	}
	if err != nil {
		c.Fail("C06", "a gateway refuses to fetch", "%s: %v", g.name, err)
		return
	}
	if len(others) < 2 {
		return // no neighbours: no range
	}
	lo, hi, _ := spanOf(others, g.ids)
	if lo == nil {
		return
	}
	if c.SleepFor(2 * time.Second); ring == "" || ring != d.ring() {
		return // somebody was about to join
	}
	// the fetch goes on in the background
	c.SleepFor(time.Duration(60+10*c.Plan.Par("tmo")) * time.Second)
	if g.node.Inc != inc || !g.node.Alive || bad != d.bad {
		return
	}
	// A provider hands out no more than 500 of all it has in the range: where
	// it may have about that many nothing is demanded of it.
	inside := func(t *clTup) bool {
		x := hexInt(cidN(t.cids[0]).ToString())
		if lo.Cmp(hi) > 0 {
			return x.Cmp(lo) >= 0 || x.Cmp(hi) <= 0
		}
		return x.Cmp(lo) >= 0 && x.Cmp(hi) <= 0
	}
	per := map[*clNode]int{}
	for _, t := range d.tups {
		if !t.group && inside(t) {
			per[t.prov]++
		}
	}
	in := 0
	ks := map[int]bool{}
	for _, t := range want {
		if inside(t) && t.prov.node.Inc == t.pinc && per[t.prov] <= 400 {
			t.fetch[g] = true
			ks[t.cids[0]] = true
			in++
		}
	}
	if in > 0 {
		c.Probe("fetch-judged")
		if in > 50 {
			c.Probe("fetch-many")
		}
	}
	var l []int
	for k := range ks {
		l = append(l, k)
	}
	sort.Ints(l)
	d.judgeStores(g, l)
	d.judgeAcks(l)
}

// join brings up a gateway nobody knew.
func (d *clWorld) join(o fw.Op) {
	c := d.c
	for _, g := range d.gws {
		if !g.late {
			continue
		}
		g.late = false
		d.start(g)
		if err := d.initialise(g); err != nil {
			if d.phase != 1 {
				c.Fail("C22", "a reachable node cannot be initialised", "%s: %v", g.name, err)
			}
			return
		}
		c.Probe("joined")
		if o.Arg(1) == 1 {
			d.fetch(fw.Op{K: "fetch", A: []int64{0, int64(g.i)}})
		}
		return
	}
}

// --- attacks

// attack sends a gateway a publish message it has to refuse.
func (d *clWorld) attack(i int, o fw.Op) {
	c := d.c
	g := d.gws[int(o.Arg(1))%len(d.gws)]
	r := simrt.NewPRNG(uint64(o.Arg(2)))
	kind := int(o.Arg(3))
	group := o.Arg(4) == 1
	victim := d.provs[r.N(len(d.provs))]
	if !g.node.Alive || g.rogue {
		return
	}
	c.Injected(fmt.Sprintf("hostile-publish %d", kind))
	price := uint64(i+1)*1000 + 1_000_000_000
	nOff := 0
	off := func(id *nodeid.NodeID, key fixedKey, k int) cidoffer.CIDOffer {
		x, err := cidoffer.NewCIDOffer(id, []cid.ContentID{*cidN(k)}, price+uint64(nOff), d.now()+1_000_000, uint64(r.N(9)))
		if err != nil {
			panic(err)
		}
		nOff++
		x.Sign(key.kp, fcrcrypto.InitialKeyVersion())
		return *x
	}
	own := func(k int) cidoffer.CIDOffer { // the hostile provider's own good offer
		t := d.newTup(d.evil, []int{k}, price+uint64(nOff), d.now()+1_000_000, uint64(r.N(9)), group)
		nOff++
		d.issue(t)
		return *d.signed(t)
	}
	k := r.N(d.ncid)
	stranger := keyN(40 + r.N(3))
	claims, signer := d.evil.id, d.evil.key
	var offs []cidoffer.CIDOffer
	refuse := true
	var after func(offer map[string]any)
	breakMsg := 0
	evilOwn := func() cidoffer.CIDOffer { return off(d.evil.id, d.evil.key, k) }
	switch kind {
	case 0: // an unknown provider
		claims, signer = provN(13), stranger
		offs = append(offs, off(claims, stranger, k))
	case 1: // somebody pretends to be the victim
		claims = victim.id
		offs = append(offs, off(victim.id, d.evil.key, k))
	case 2: // the message is not by the victim, the offer is
		claims, signer = victim.id, stranger
		offs = append(offs, off(victim.id, victim.key, k))
	case 3: // a registered provider makes an offer in the victim's name
		offs = append(offs, off(victim.id, d.evil.key, k))
	case 4: // a registered provider passes on what the victim never published
		offs = append(offs, off(victim.id, victim.key, k))
	case 5: // good and forged in one message
		a, b := evilOwn(), off(victim.id, []fixedKey{d.evil.key, victim.key}[r.N(2)], r.N(d.ncid))
		offs = []cidoffer.CIDOffer{a, b}
		if group {
			offs = offs[1:]
		}
	case 6, 7, 8, 9: // altered after signing
		var old []*clTup // perhaps one the gateway accepted before
		for _, t := range d.tups {
			if t.prov == d.evil && t.group == group {
				old = append(old, t)
			}
		}
		if len(old) > 0 && r.P(0.6) {
			t := old[r.N(len(old))]
			k = t.cids[0]
			offs = append(offs, *d.signed(t))
		} else {
			offs = append(offs, evilOwn())
		}
		after = func(m map[string]any) {
			switch kind {
			case 6:
				m["price"] = 1
			case 7:
				m["expiry"] = d.now() + 2_000_000
			case 8:
				m["cids"] = []string{cidN(k + 1).ToString()}
			case 9:
				m["qos"] = 777
			}
		}
	case 10: // the message is altered after signing
		offs = append(offs, evilOwn())
		breakMsg = 1 + r.N(3)
	case 11: // signed with another key of the same provider
		offs = append(offs, evilOwn())
		signer = keyN(42)
	case 12: // the offer is signed by nobody
		x := evilOwn()
		x.SetSignature([]string{"", "00", "zz", strings.Repeat("0", 138)}[r.N(4)])
		offs = append(offs, x)
	case 13: // a good one: has to work
		offs = append(offs, own(k))
		refuse = false
	case 14: // a second, forged offer hides behind a good one for the same content
		offs = append(offs, evilOwn(), off(victim.id, d.evil.key, k))
		if group {
			offs = offs[1:]
		}
	case 16: // good ones and one that is signed by somebody else, or altered after signing, in one message
		offs = append(offs, evilOwn(), off(d.evil.id, []fixedKey{stranger, victim.key}[r.N(2)], r.N(d.ncid)))
		if r.P(0.5) {
			offs = append(offs, off(d.evil.id, d.evil.key, r.N(d.ncid)))
		}
		i := r.N(len(offs))
		offs[0], offs[i] = offs[i], offs[0]
		if group {
			offs = []cidoffer.CIDOffer{off(d.evil.id, stranger, k)}
		}
	case 15: // what a provider said earlier, again
		if len(d.seen) == 0 {
			return
		}
		refuse = false
	}
	var m *fcrmessages.FCRMessage
	if kind == 15 {
		x, err := fcrmessages.FCRMsgFromBytes(d.seen[r.N(len(d.seen))])
		if err != nil {
			return
		}
		m = x
		if r.P(0.5) { // made to look fresh
			var b map[string]any
			unjson(m.GetMessageBody(), &b)
			b["nonce"] = 77
			nb, _ := json.Marshal(b)
			y := fcrmessages.CreateFCRMessage(m.GetMessageType(), nb)
			z := map[string]any{}
			unjson(raw(y), &z)
			z["message_signature"] = m.GetSignature()
			zb, _ := json.Marshal(z)
			m, _ = fcrmessages.FCRMsgFromBytes(zb)
			refuse = true
		}
	} else {
		var err error
		if group {
			m, err = fcrmessages.EncodeProviderPublishGroupOfferRequest(claims, int64(i), &offs[0])
		} else {
			m, err = fcrmessages.EncodeProviderPublishDHTOfferRequest(claims, int64(i), offs)
		}
		if err != nil {
			c.Err("attack: %v", err)
			return
		}
		if after != nil {
			dec := json.NewDecoder(strings.NewReader(string(m.GetMessageBody())))
			dec.UseNumber()
			var b map[string]any
			dec.Decode(&b)
			if group {
				after(b["offer"].(map[string]any))
			} else {
				after(b["single_offers"].([]any)[0].(map[string]any))
			}
			nb, _ := json.Marshal(b)
			m = fcrmessages.CreateFCRMessage(m.GetMessageType(), nb)
		}
		m.Sign(signer.kp, fcrcrypto.InitialKeyVersion())
		if kind == 13 && len(d.seen) < 20 {
			d.seen = append(d.seen, raw(m))
		}
		if breakMsg > 0 {
			z := map[string]any{}
			unjson(raw(m), &z)
			switch breakMsg {
			case 1:
				z["message_signature"] = ""
			case 2:
				delete(z, "message_signature")
			case 3:
				s := m.GetSignature()
				x := "00"
				if s[len(s)-8:len(s)-6] == x {
					x = "01"
				}
				z["message_signature"] = s[:len(s)-8] + x + s[len(s)-6:]
			}
			zb, _ := json.Marshal(z)
			if m, err = fcrmessages.FCRMsgFromBytes(zb); err != nil {
				return
			}
		}
	}
	res, err := d.p2p(g, "9011", m)
	if err != nil {
		return
	}
	pos := res.GetMessageType() == fcrmessages.ProviderPublishDHTOfferResponseType || res.GetMessageType() == fcrmessages.ProviderPublishGroupOfferResponseType
	if refuse && pos && res.Verify(g.key.kp) == nil {
		c.Fail("C03", "a gateway acknowledges what it has to refuse", "kind %d (group %v) at %s", kind, group, g.name)
	}
	if kind == 13 && d.phase != 1 && !pos && g.ready() && g.known && d.evil.known {
		c.Fail("C03", "an honest offer is not accepted", "%s answers %d", g.name, res.GetMessageType())
	}
	if refuse {
		d.refused++
		c.Probe("refused")
	}
}

// p2p sends one message over a connection of the stranger and reads the answer.
func (d *clWorld) p2p(n *clNode, port string, m *fcrmessages.FCRMessage) (res *fcrmessages.FCRMessage, err error) {
	c := d.c
	if !c.Call(d.str, "p2p", func() {
		conn, e := c.DialAs(d.str, n.name+":"+port)
		if e != nil {
			err = e
			return
		}
		defer conn.Close()
		conn.SetDeadlineIn(time.Duration(30+10*c.Plan.Par("tmo")) * time.Second)
		if _, err = conn.Write(frame(raw(m))); err != nil {
			return
		}
		var b []byte
		if b, err = readFrame(conn); err == nil {
			res, err = fcrmessages.FCRMsgFromBytes(b)
		}
	}) && err == nil {
		err = errors.New("cut short")
	}
	return
}

// bootEvil starts the hostile provider: registered, with a real server and wrong answers.
func (d *clWorld) bootEvil() {
	c := d.c
	c.Boot(d.evil.node, "evil", func() {
		rm := fcrregistermgr.NewFCRRegisterMgr("http://register:9020", true, true, 10*time.Second)
		if err := rm.Start(); err != nil {
			c.Err("register manager: %v", err)
			return
		}
		s := fcrp2pserver.NewFCRP2PServer([]string{"9032"}, rm, 5*time.Second)
		s.AddHandler("9032", fcrmessages.GatewayListDHTOfferRequestType, d.evilList)
		if err := s.Start(); err != nil {
			c.Err("evil: %v", err)
		}
	})
	c.Call(d.admin, "reg", func() {
		if err := d.rm.RegisterProvider(d.evil.preg); err != nil {
			c.Err("evil: %v", err)
		}
	})
	d.evil.regd, d.evil.known, d.evil.rogue = true, true, true
}

// evilList answers a gateway that fetches.
func (d *clWorld) evilList(_ *fcrp2pserver.FCRServerReader, wr *fcrp2pserver.FCRServerWriter, m *fcrmessages.FCRMessage) error {
	c := d.c
	r := d.r
	victim := d.provs[r.N(len(d.provs))]
	d.refused++
	price := uint64(d.refused)*1000 + 2_000_000_000
	k := r.N(d.ncid)
	c.Injected("hostile-list-answer")
	mk := func(id *nodeid.NodeID, key fixedKey) *cidoffer.CIDOffer {
		x, err := cidoffer.NewCIDOffer(id, []cid.ContentID{*cidN(k)}, price, d.now()+1_000_000, 1)
		if err != nil {
			panic(err)
		}
		price++
		x.Sign(key.kp, fcrcrypto.InitialKeyVersion())
		return x
	}
	var subs []fcrmessages.FCRMessage
	sub := func(claims *nodeid.NodeID, signer fixedKey, l ...*cidoffer.CIDOffer) {
		var os []cidoffer.CIDOffer
		for _, x := range l {
			os = append(os, *x)
		}
		q, err := fcrmessages.EncodeProviderPublishDHTOfferRequest(claims, 1, os)
		if err != nil {
			panic(err)
		}
		q.Sign(signer.kp, fcrcrypto.InitialKeyVersion())
		subs = append(subs, *q)
	}
	for n := 1 + r.N(3); n > 0; n-- {
		switch r.N(8) {
		case 0: // in the victim's name
			sub(d.evil.id, d.evil.key, mk(victim.id, d.evil.key))
		case 1:
			sub(victim.id, d.evil.key, mk(victim.id, d.evil.key))
		case 2: // what the victim never published
			sub(d.evil.id, d.evil.key, mk(victim.id, victim.key))
		case 3: // unsigned offer
			x := mk(d.evil.id, d.evil.key)
			x.SetSignature("")
			sub(d.evil.id, d.evil.key, x)
		case 4: // unsigned message
			x := mk(d.evil.id, d.evil.key)
			q, _ := fcrmessages.EncodeProviderPublishDHTOfferRequest(d.evil.id, 1, []cidoffer.CIDOffer{*x})
			subs = append(subs, *q)
		case 5: // a good one
			t := d.newTup(d.evil, []int{k}, price, d.now()+1_000_000, 1, false)
			price++
			d.issue(t)
			sub(d.evil.id, d.evil.key, d.signed(t))
		case 6:
			subs = append(subs, *fcrmessages.CreateFCRMessage(fcrmessages.ProviderPublishDHTOfferRequestType, []byte(`{"single_offers":[null,{}]}`)))
		case 7: // signed by somebody else
			sub(d.evil.id, keyN(41), mk(d.evil.id, keyN(41)))
		}
	}
	res, err := fcrmessages.EncodeGatewayListDHTOfferResponse(subs)
	if err != nil {
		return err
	}
	if r.P(0.9) {
		res.Sign(d.evil.key.kp, fcrcrypto.InitialKeyVersion())
	}
	return wr.Write(res, 5*time.Second)
}

// rogueHandler is a registered gateway that acknowledges wrongly.
func (d *clWorld) bootRogue(g *clNode) {
	c := d.c
	g.rogue = true
	c.Boot(g.node, "rogue", func() {
		rm := fcrregistermgr.NewFCRRegisterMgr("http://register:9020", true, true, 10*time.Second)
		if err := rm.Start(); err != nil {
			c.Err("register manager: %v", err)
			return
		}
		s := fcrp2pserver.NewFCRP2PServer([]string{"9011", "9012"}, rm, 5*time.Second)
		h := func(_ *fcrp2pserver.FCRServerReader, wr *fcrp2pserver.FCRServerWriter, m *fcrmessages.FCRMessage) error {
			c.Injected("hostile-ack")
			r := d.r
			body := m.GetMessageBody()
			key, outer := g.key, g.key
			switch r.N(6) {
			case 0:
				return wr.WriteInvalidMessage(5 * time.Second)
			case 1:
				body = append([]byte(nil), body...)
				body[r.N(len(body))] ^= 1
			case 2:
				key = keyN(41)
			case 3:
				outer = keyN(41)
			case 4:
				key, outer = keyN(41), keyN(41)
			case 5:
				body = nil
			}
			sig, err := fcrcrypto.SignMessage(key.kp, fcrcrypto.InitialKeyVersion(), body)
			if err != nil {
				return err
			}
			var res *fcrmessages.FCRMessage
			res, err = fcrmessages.EncodeProviderPublishDHTOfferResponse(1, sig)
			if err != nil {
				return err
			}
			res.Sign(outer.kp, fcrcrypto.InitialKeyVersion())
			return wr.Write(res, 5*time.Second)
		}
		s.AddHandler("9011", fcrmessages.ProviderPublishDHTOfferRequestType, h)
		s.AddHandler("9011", fcrmessages.ProviderPublishGroupOfferRequestType, func(_ *fcrp2pserver.FCRServerReader, wr *fcrp2pserver.FCRServerWriter, m *fcrmessages.FCRMessage) error {
			c.Injected("hostile-ack")
			_, _, of, err := fcrmessages.DecodeProviderPublishGroupOfferRequest(m)
			if err != nil {
				return wr.WriteInvalidMessage(5 * time.Second)
			}
			dig := of.GetMessageDigest()
			key := g.key
			switch d.r.N(5) {
			case 0:
				return wr.WriteInvalidMessage(5 * time.Second)
			case 1:
				dig[d.r.N(len(dig))] ^= 1
			case 2:
				key = keyN(41)
			case 3:
				dig = [cidoffer.CIDOfferDigestSize]byte{}
			case 4:
				return errors.New("no answer")
			}
			res, err := fcrmessages.EncodeProviderPublishGroupOfferResponse(*g.id, cidoffer.EncodeMessageDigest(dig))
			if err != nil {
				return err
			}
			res.Sign(key.kp, fcrcrypto.InitialKeyVersion())
			return wr.Write(res, 5*time.Second)
		})
		if err := s.Start(); err != nil {
			c.Err("rogue: %v", err)
		}
	})
	c.Call(d.admin, "reg", func() {
		if err := d.rm.RegisterGateway(g.greg); err != nil {
			c.Err("rogue: %v", err)
		}
	})
	g.regd, g.known = true, true
}
