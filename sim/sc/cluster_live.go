package sc

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmerkletree"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/filecoin-project/go-state-types/big"
	"github.com/filecoin-project/specs-actors/actors/builtin/paych"

	"sim.local/h/fw"
	"sim.local/h/simrt"
)

// Lifetime and authenticity of requests (C25): requests of every kind whose lifetime ends long ago, just now, soon or never, on
// clocks that differ and jump; gateways' requests that are signed by somebody else. One registered gateway is the harness's and
// notes what the others forward to it.

const (
	lkEstablish = iota
	lkFind1
	lkFind2
	lkOffers
	lkDHT1
	lkDHT2
	lkGw1
	lkGw2
	lkList
	lkKinds
)

var lkNames = []string{"an establishment", "a standard search", "a paid standard search", "a purchase of offers", "a distributed search", "a paid distributed search", "a gateway's search", "a gateway's paid search", "a gateway's fetch"}

// clJump is a jump of a node's clock.
type clJump struct {
	at            time.Duration
	before, after int64
}

// liveReq is one request that is under way.
type liveReq struct {
	g    *clNode
	kind int
	at   time.Duration
	t0   int64
	ttl  int64
}

// clock is the span the node's clock covered since a moment.
func (d *clWorld) clock(n *clNode, since time.Duration, t0 int64) (lo, hi int64) {
	lo, hi = t0, t0
	see := func(t int64) { lo, hi = min(lo, t), max(hi, t) }
	see(d.c.TimeOn(n.node).Unix())
	for _, j := range n.jumps {
		if j.at >= since {
			see(j.before)
			see(j.after)
		}
	}
	return
}

func (d *clWorld) jump(n *clNode, by time.Duration) {
	c := d.c
	b := c.TimeOn(n.node).Unix()
	n.node.Skew += by
	n.jumps = append(n.jumps, clJump{c.Elapsed(), b, c.TimeOn(n.node).Unix()})
	c.Injected("clock-jump")
}

// setClocks ends the jumps.
func (d *clWorld) setClocks() {
	for _, n := range d.nodes() {
		if n.node.Skew != n.skew0 {
			d.jump(n, n.skew0-n.node.Skew)
		}
	}
}

// forwarded: a gateway asks the harness's one.
func (d *clWorld) forwarded(x *cid.ContentID) {
	q := d.live[x.ToString()]
	if q == nil {
		return
	}
	d.c.Probe("forwarded")
	if lo, _ := d.clock(q.g, q.at, q.t0); lo > q.ttl && q.ttl != math.MinInt64 {
		d.c.Fail("C25", "an expired request is forwarded", "%s at %s, expired for at least %d s", lkNames[q.kind], q.g.name, lo-q.ttl)
	}
}

func (d *clWorld) liveOp(o fw.Op) {
	c := d.c
	kind, r, sig, tk := int(o.Arg(2))%lkKinds, simrt.NewPRNG(uint64(o.Arg(3))), int(o.Arg(4)), int(o.Arg(5))
	var g *clNode
	if kind == lkList {
		g = d.provs[int(o.Arg(1))%len(d.provs)]
	} else {
		g = d.gws[int(o.Arg(1))%len(d.gws)]
	}
	if g.rogue || !g.node.Alive || (d.phase != 1 && (!g.ready() || !g.known)) {
		return
	}
	if kind == lkFind2 || kind == lkOffers || kind == lkDHT2 || kind == lkGw2 {
		l := d.payLane(int(o.Arg(6))%3, g, uint64(r.N(2)), false)
		l.busy.with(c, func() { d.liveReq(g, kind, r, sig, tk, l) })
		return
	}
	d.liveReq(g, kind, r, sig, tk, nil)
}

func (d *clWorld) liveReq(g *clNode, kind int, r *simrt.PRNG, sig, tk int, l *payLane) {
	c := d.c
	calm := d.phase != 1
	era, bad := g.era(), d.bad
	d.pw.n++
	x := uniqueCid(c.Plan.Par("seed"), d.pw.n)
	q := &liveReq{g: g, kind: kind, at: c.Elapsed(), t0: c.TimeOn(g.node).Unix()}
	switch tk {
	case 0, 1, 2:
		q.ttl = q.t0 + 3600
	case 3:
		q.ttl = q.t0 + int64(r.N(8)) - 4
	case 4:
		q.ttl = q.t0 - 1 - r.I64(10)
	case 5:
		q.ttl = q.t0 - r.I64(100_000)
	case 6:
		q.ttl = []int64{0, -1, math.MinInt64, 1, math.MaxInt32}[r.N(4)]
	case 7:
		q.ttl = []int64{math.MaxInt64, math.MaxInt32, 1 << 36}[r.N(3)]
	default:
		q.ttl = q.t0 + int64(r.N(30))
	}
	if kind == lkList {
		q.ttl = math.MaxInt64
	}
	d.live[x.ToString()] = q
	nonce := r.I64(1<<62) - 1<<61
	if r.P(0.1) {
		nonce = []int64{0, -1, math.MaxInt64, math.MinInt64}[r.N(4)]
	}
	// who asks
	genuine := true
	var from *clNode
	var id *nodeid.NodeID
	if kind >= lkGw1 {
		var all []*clNode
		for _, h := range d.gws {
			if (h.rogue || (h.known && h.ready())) && h != g {
				all = append(all, h)
			}
		}
		if len(all) == 0 {
			return
		}
		from = all[r.N(1+r.N(len(all)))]
		id = from.id
		if sig >= 3 {
			genuine = false
		}
		if sig == 7 { // nobody registered
			id, _ = nodeid.NewNodeIDFromHexString(uniqueCid(c.Plan.Par("seed")+1, d.pw.n).ToString())
		}
	}
	challenge := fmt.Sprintf("challenge %d %d", d.pw.n, r.N(1<<30))
	// what is asked
	chn, enc := "", ""
	amt := int64(0)
	n := int64(1 + r.N(4))
	switch kind {
	case lkFind2, lkGw2:
		amt = d.prices[0]
	case lkOffers:
		amt = d.prices[1] * n
	case lkDHT2:
		amt = d.prices[0] * n
	}
	if l != nil {
		l.nonce++
		l.amt += amt
		sv := &paych.SignedVoucher{ChannelAddr: l.ch.addr, Lane: l.n, Nonce: l.nonce, Amount: big.NewInt(l.amt)}
		signVoucher(l.ch.w, sv)
		chn, enc = l.ch.addr.String(), encVoucher(sv)
	}
	build := func(ttl int64) (m *fcrmessages.FCRMessage) {
		switch kind {
		case lkEstablish:
			m, _ = fcrmessages.EncodeClientEstablishmentRequest(g.id, challenge, ttl)
		case lkFind1:
			m, _ = fcrmessages.EncodeClientStandardDiscoverRequest(x, nonce, ttl, "", "")
		case lkFind2:
			m, _ = fcrmessages.EncodeClientStandardDiscoverRequestV2(x, nonce, ttl, chn, enc)
		case lkOffers:
			var dg []string
			for i := int64(0); i < n; i++ {
				dg = append(dg, strings.Repeat("A", 43)+"=")
			}
			m, _ = fcrmessages.EncodeClientStandardDiscoverOfferRequest(x, nonce, ttl, dg, chn, enc)
		case lkDHT1:
			m, _ = fcrmessages.EncodeClientDHTDiscoverRequest(x, nonce, ttl, 16, false, "", "")
		case lkDHT2:
			m, _ = fcrmessages.EncodeClientDHTDiscoverRequestV2(x, nonce, ttl, n, false, chn, enc)
		case lkGw1:
			m, _ = fcrmessages.EncodeGatewayDHTDiscoverRequest(id, x, nonce, ttl, "", "")
		case lkGw2:
			m, _ = fcrmessages.EncodeGatewayDHTDiscoverRequestV2(id, x, nonce, ttl, chn, enc)
		case lkList:
			lo, hi := cidBytes(0), cidBytes(255)
			m, _ = fcrmessages.EncodeGatewayListDHTOfferRequest(id, lo, hi, "block", "receipt", "root", &fcrmerkletree.FCRMerkleProof{})
		}
		return
	}
	odd := q.ttl == math.MinInt64 || (q.ttl == math.MaxInt64 && kind != lkList) // no point in time
	m := build(q.ttl)
	if m == nil {
		c.Err("cannot build %s", lkNames[kind])
		return
	}
	if kind >= lkGw1 {
		m = d.signAs(m, from, sig, r)
		if !genuine {
			c.Injected("forged-request")
		}
	}
	port := "9012"
	if kind == lkList {
		port = "9032"
	}
	ask := func(m *fcrmessages.FCRMessage) (*fcrmessages.FCRMessage, error) {
		if kind >= lkGw1 {
			return d.p2p(g, port, m)
		}
		return d.post(g, m)
	}
	var res *fcrmessages.FCRMessage
	var err error
	if kind >= lkGw1 && r.P(0.75) {
		// over a connection that served other requests before
		if res, err = d.keptAsk(g, port, m); err != nil {
			if l != nil {
				return
			}
			res, err = ask(m)
		}
	} else {
		res, err = ask(m)
	}
	lo, hi := d.clock(g, q.at, q.t0)
	where := fmt.Sprintf("%s at %s, lifetime to %d, its clock from %d to %d, signed %d", lkNames[kind], g.name, q.ttl, lo, hi, sig)
	served := err == nil && res != nil && d.liveAnswer(g, kind, res, x, nonce, challenge, where)
	if served {
		c.NonTriv = true
		c.Probe("live-served")
		if lo > q.ttl && !odd {
			c.Fail("C25", "an expired request is served", "%s", where)
		}
		if !genuine {
			c.Fail("C25", "a request that its sender did not sign is served", "%s", where)
		}
		return
	}
	same := func() bool { return calm && d.phase != 1 && bad == d.bad && g.era() == era && g.node.Alive }
	known := from == nil || from.rogue || (from.known && from.ready())
	if genuine && hi < q.ttl && !odd && same() && known {
		c.Fail("C25", "a live request is not served", "%s: %v %v", where, err, res)
		return
	}
	c.Probe("live-refused")
	if l == nil || odd || (lo <= q.ttl && genuine) || !same() || !known {
		return
	}
	// the refused request must not have cost anything
	m = build(c.TimeOn(g.node).Unix() + 100_000)
	if kind >= lkGw1 {
		id = from.id
		m = build(c.TimeOn(g.node).Unix() + 100_000)
		m.Sign(from.key.kp, fcrcrypto.InitialKeyVersion())
	}
	q.ttl = math.MaxInt64
	res, err = ask(m)
	if !same() {
		return
	}
	if err != nil || res == nil || !d.liveAnswer(g, kind, res, x, nonce, challenge, where) {
		c.Fail("C25", "a refused request is charged", "%s: asking again with the same voucher gives %v %v", where, err, res)
		return
	}
	c.Probe("refused-uncharged")
}

// keptConn is a connection to a node that is used for many requests.
type keptConn struct {
	conn       *simrt.Conn
	bad, phase int
	era        int
	busy       simMutex
}

func (d *clWorld) keptAsk(n *clNode, port string, m *fcrmessages.FCRMessage) (res *fcrmessages.FCRMessage, err error) {
	c := d.c
	key := n.name + ":" + port
	k := d.kept[key]
	if k == nil {
		k = &keptConn{}
		d.kept[key] = k
	}
	k.busy.with(c, func() {
		done := c.Call(d.str, "kept", func() {
			if k.conn != nil && (k.bad != d.bad || k.phase != d.phase || k.era != n.era()) {
				k.conn.Close()
				k.conn = nil
			}
			if k.conn == nil {
				k.bad, k.phase, k.era = d.bad, d.phase, n.era()
				if k.conn, err = c.DialAs(d.str, n.name+":"+port); err != nil {
					k.conn = nil
					return
				}
			} else {
				c.Probe("kept-connection")
			}
			k.conn.SetDeadlineIn(time.Duration(30+10*c.Plan.Par("tmo")) * time.Second)
			if _, err = k.conn.Write(frame(raw(m))); err == nil {
				var b []byte
				if b, err = readFrame(k.conn); err == nil {
					res, err = fcrmessages.FCRMsgFromBytes(b)
				}
			}
			if err != nil {
				k.conn.Close()
				k.conn = nil
			}
		})
		if !done {
			err = errors.New("cut short")
			k.conn = nil
		}
	})
	return
}

// signAs signs a gateway's message: 0-2 as the sender does, others as it does not.
func (d *clWorld) signAs(m *fcrmessages.FCRMessage, from *clNode, sig int, r *simrt.PRNG) *fcrmessages.FCRMessage {
	key := from.key
	switch sig {
	case 3:
		key = keyN(41)
	case 4:
		return m
	case 5: // another registered gateway
		for _, h := range d.gws {
			if h != from {
				key = h.key
			}
		}
		if key == from.key {
			key = keyN(41)
		}
	}
	m.Sign(key.kp, fcrcrypto.InitialKeyVersion())
	if sig != 6 {
		return m
	}
	// altered on the way
	var w map[string]any
	var b map[string]any
	dec := json.NewDecoder(strings.NewReader(string(raw(m))))
	dec.UseNumber()
	if dec.Decode(&w) != nil {
		return m
	}
	dec = json.NewDecoder(strings.NewReader(string(m.GetMessageBody())))
	dec.UseNumber()
	if dec.Decode(&b) != nil {
		return m
	}
	switch r.N(3) {
	case 0:
		b["nonce"] = int64(r.N(1000))
		b["block_hash"] = fmt.Sprint("other ", r.N(1000))
	case 1:
		b["ttl"] = d.now() + 1_000_000 + int64(r.N(1000))
		b["cid_min"] = cidBytes(1).ToString()
	case 2:
		b["piece_cid"] = uniqueCid(d.c.Plan.Par("seed")+2, d.pw.n).ToString()
		b["cid_max"] = cidBytes(254).ToString()
	}
	bb, _ := json.Marshal(b)
	w["message_body"] = bb
	wb, _ := json.Marshal(w)
	if m2, err := fcrmessages.FCRMsgFromBytes(wb); err == nil {
		return m2
	}
	return m
}

func cidBytes(b byte) *cid.ContentID {
	x, err := cid.NewContentIDFromBytes([]byte(strings.Repeat(string([]byte{b}), 32)))
	if err != nil {
		panic(err)
	}
	return x
}

// liveAnswer: the message is the service asked for, and it belongs to the request.
func (d *clWorld) liveAnswer(g *clNode, kind int, res *fcrmessages.FCRMessage, x *cid.ContentID, nonce int64, challenge, where string) bool {
	c := d.c
	var y *cid.ContentID
	var no int64
	var err error
	need := false
	switch kind {
	case lkEstablish:
		var id *nodeid.NodeID
		var ch string
		id, ch, err = fcrmessages.DecodeClientEstablishmentResponse(res)
		if err != nil {
			return false
		}
		if ch != challenge || id.ToString() != g.ids {
			c.Fail("C25", "the answer belongs to another request", "%s: challenge %q instead of %q, gateway %s", where, ch, challenge, id.ToString())
		}
		y, no = x, nonce
	case lkFind1:
		y, no, _, _, _, err = fcrmessages.DecodeClientStandardDiscoverResponse(res)
	case lkFind2:
		y, no, _, _, _, need, _, err = fcrmessages.DecodeClientStandardDiscoverResponseV2(res)
	case lkOffers:
		y, no, _, _, _, need, _, err = fcrmessages.DecodeClientStandardDiscoverOfferResponse(res)
	case lkDHT1:
		y = x
		_, _, _, no, _, _, err = fcrmessages.DecodeClientDHTDiscoverResponse(res)
	case lkDHT2:
		y = x
		_, _, _, no, _, _, err = fcrmessages.DecodeClientDHTDiscoverResponseV2(res)
	case lkGw1:
		y, no, _, _, _, err = fcrmessages.DecodeGatewayDHTDiscoverResponse(res)
	case lkGw2:
		y, no, _, _, _, need, _, err = fcrmessages.DecodeGatewayDHTDiscoverResponseV2(res)
	case lkList:
		_, err = fcrmessages.DecodeGatewayListDHTOfferResponse(res)
		y, no = x, nonce
	}
	if err != nil {
		return false
	}
	if y.ToString() != x.ToString() || no != nonce {
		c.Fail("C25", "the answer belongs to another request", "%s: content %s nonce %d instead of %s %d", where, y.ToString(), no, x.ToString(), nonce)
	}
	if e := res.Verify(g.key.kp); e != nil {
		c.Fail("C25", "an answer does not verify under the node's key", "%s: %v", where, e)
	}
	return !need
}
