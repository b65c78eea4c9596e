package sc

import (
	"crypto/sha256"
	"encoding/base64"
	"fmt"
	"math/big"
	"sort"
	"time"

	"github.com/filecoin-project/go-address"
	lotusbig "github.com/filecoin-project/go-state-types/big"
	"github.com/filecoin-project/lotus/chain/actors/builtin/paych"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrp2pserver"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrregistermgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"

	"sim.local/h/fw"
	"sim.local/h/simrt"
)

// Paid services (C09): payers with payment channels of their own ask real gateways for every paid kind of result, with full,
// short, repeated, altered and missing payments. One registered gateway is the harness's and notes what the others pay it.

const (
	pkFind     = iota // standard search
	pkOffers          // offers of a standard search
	pkDHT             // distributed search
	pkDHTOff          // offers of a distributed search
	pkGwFind          // what a gateway asks another one
	pkGwOffers        // and its offers
)

var pkNames = []string{"a standard search", "standard offers", "a distributed search", "distributed offers", "a gateway's search", "a gateway's offers"}

// payLane is one lane of a payer's channel to a gateway.
type payLane struct {
	ch    *payCh
	n     uint64
	nonce uint64
	amt   int64 // highest voucher signed
	inc   int   // incarnation of the gateway the following is about
	low   int64 // surely credited
	sent  int64 // highest valid voucher sent
	took  int64 // prices of what was served
	last  string
	busy  simMutex
}

type payCh struct {
	addr  address.Address
	w     *Wallet
	g     *clNode
	lanes map[uint64]*payLane
}

// paidReq is one paid request.
type paidReq struct {
	g     *clNode
	kind  int
	cid   string
	price int64
	hi    int64
	due   int64 // what the noting gateway may get because of it
	inc   int
	top   int64
	done  bool
}

// era changes whenever a gateway forgets what it was paid: with its process and with its identity.
func (n *clNode) era() int { return n.node.Inc*1000 + n.inits }

// credit is the most the gateway can have credited the request with.
func (q *paidReq) credit() int64 {
	if !q.done && q.inc != q.g.era() {
		return max(q.hi, q.top) // it may have reached the gateway after it forgot
	}
	return q.hi
}

type payWorld struct {
	chs    map[string]*payCh
	reqs   map[string][]*paidReq // by content
	paid   map[string]int64      // what the noting gateway got per channel and lane
	by     map[*clNode]int64
	serial map[*clNode]*simMutex
	n      int
	cl     map[string]int64 // the client library's vouchers
}

func uniqueCid(seed int64, i int) *cid.ContentID {
	h := sha256.Sum256([]byte(fmt.Sprintf("unique %d %d", seed, i)))
	x, err := cid.NewContentIDFromBytes(h[:])
	if err != nil {
		panic(err)
	}
	return x
}

func (d *clWorld) payInit() {
	c := d.c
	d.pw = &payWorld{chs: map[string]*payCh{}, reqs: map[string][]*paidReq{}, paid: map[string]int64{}, by: map[*clNode]int64{}, serial: map[*clNode]*simMutex{}, cl: map[string]int64{}}
	for i := 0; i < 4; i++ {
		d.chain.AddWallet(WalletN(61 + i))
	}
	d.live = map[string]*liveReq{}
	d.kept = map[string]*keptConn{}
	for _, g := range d.gws {
		d.pw.serial[g] = &simMutex{}
	}
	simrt.HTTPHook = d.clientPays
	c.AtEnd(func() { simrt.HTTPHook = nil })
}

// channel of a payer to a gateway, with as much money as will be needed, or next to none.
func (d *clWorld) payLane(payer int, g *clNode, lane uint64, poor bool) *payLane {
	key := fmt.Sprintf("%d %s %v", payer, g.name, poor)
	ch := d.pw.chs[key]
	if ch == nil {
		a, _ := address.NewActorAddress([]byte("payer " + key))
		bal := int64(1) << 50
		if poor {
			bal = min(d.prices[0], d.prices[1]) - 1
		}
		ch = &payCh{addr: a, w: WalletN(61 + payer), g: g, lanes: map[uint64]*payLane{}}
		cc := &ChainChannel{Addr: a, From: ch.w.Addr, To: WalletN(1 + g.i).Addr, Balance: big.NewInt(bal)}
		d.chain.Channels[a] = cc
		d.chain.Order = append(d.chain.Order, cc)
		d.pw.chs[key] = ch
	}
	l := ch.lanes[lane]
	if l == nil {
		l = &payLane{ch: ch, n: lane, nonce: 1}
		ch.lanes[lane] = l
	}
	return l
}

func (l *payLane) sync() {
	if l.inc != l.ch.g.era() {
		l.inc, l.low, l.sent, l.took = l.ch.g.era(), 0, 0, 0
	}
}

// digestsOf are the digests a gateway has to know for a content.
func (d *clWorld) digestsOf(g *clNode, k int) map[string]*clTup {
	m := map[string]*clTup{}
	for _, t := range d.tups {
		if _, ok := t.sub[k]; ok && (t.must[g] || t.fetch[g]) && t.live(d.now()) {
			dg := d.signed(t).GetMessageDigest()
			m[base64.StdEncoding.EncodeToString(dg[:])] = t
		}
	}
	return m
}

func (d *clWorld) paidOp(i int, o fw.Op) {
	c := d.c
	g := d.gws[int(o.Arg(1))%len(d.gws)]
	if g.rogue || !g.node.Alive || (d.phase != 1 && (!g.ready() || !g.known)) {
		return
	}
	kind, payer, r := int(o.Arg(2))%6, int(o.Arg(3))%3, simrt.NewPRNG(uint64(o.Arg(4)))
	how, units := int(o.Arg(5)), int(o.Arg(6))
	lane := d.payLane(payer, g, uint64(r.N(2)), how == 9)
	lane.busy.with(c, func() {
		if (kind == pkDHT || kind == pkDHTOff) && c.Plan.Par("serial") == 1 {
			d.pw.serial[g].with(c, func() { d.paidReq(g, kind, r, how, units, lane) })
			return
		}
		d.paidReq(g, kind, r, how, units, lane)
	})
}

func (d *clWorld) paidReq(g *clNode, kind int, r *simrt.PRNG, how, units int, l *payLane) {
	c := d.c
	calm := d.phase != 1
	inc, bad := g.era(), d.bad
	l.sync()
	d.pw.n++
	q := &paidReq{g: g, kind: kind, inc: inc}
	x, k := uniqueCid(c.Plan.Par("seed"), d.pw.n), -1
	if r.P(0.6) && (how <= 1 || kind < pkDHT || kind > pkDHTOff) {
		k = r.N(d.ncid)
		x = cidN(k)
	}
	q.cid = x.ToString()
	// what is asked and what it costs
	want := map[string]*clTup{}
	var digests []string
	var per [][]string
	var targets []nodeid.NodeID
	tg := map[*clNode]map[string]*clTup{}
	pick := func(at *clNode, n int) (l []string, m map[string]*clTup) {
		m = map[string]*clTup{}
		if k >= 0 && !at.rogue {
			all := d.digestsOf(at, k)
			for _, s := range sortedStr(all) {
				if len(l) < n {
					l, m[s] = append(l, s), all[s]
				}
			}
		}
		for len(l) < n {
			h := sha256.Sum256([]byte(fmt.Sprint("unknown ", d.pw.n, len(l))))
			s := base64.StdEncoding.EncodeToString(h[:])
			if r.P(0.2) {
				s = []string{"", "!!", "AAAA"}[r.N(3)]
			}
			l = append(l, s)
		}
		return
	}
	switch kind {
	case pkFind, pkGwFind:
		q.price = d.prices[0]
		if k >= 0 {
			want = d.digestsOf(g, k)
		}
	case pkOffers, pkGwOffers:
		digests, want = pick(g, 1+units%4)
		q.price = d.prices[1] * int64(len(digests))
	case pkDHT:
		units = []int{1, 2, 3, 16, 20, 0, -1, -5}[units%8]
		q.price = d.prices[0] * int64(units)
		if units > 0 {
			q.due = d.prices[0]
		}
		for _, h := range d.gws {
			if k >= 0 && h != g {
				tg[h] = d.digestsOf(h, k)
			}
		}
	case pkDHTOff:
		n := 0
		for _, h := range d.gws {
			if h == g || h.late || !r.P(0.7) {
				continue
			}
			l, m := pick(h, 1+r.N(3))
			if h.rogue {
				q.due += d.prices[1] * int64(len(l))
			}
			n += len(l)
			per, targets = append(per, l), append(targets, *h.id)
			tg[h] = m
		}
		q.price = d.prices[1] * int64(n)
	}
	// the payment
	amount := q.price
	valid := true
	chn, enc := l.ch.addr.String(), ""
	sign := func(w *Wallet, a int64) {
		l.nonce++
		sv := &paych.SignedVoucher{ChannelAddr: l.ch.addr, Lane: l.n, Nonce: l.nonce, Amount: lotusbig.NewInt(l.amt + a)}
		signVoucher(w, sv)
		enc = encVoucher(sv)
		amount = a
	}
	switch how {
	case 0, 8:
		sign(l.ch.w, max(q.price, 1))
	case 1:
		sign(l.ch.w, max(q.price, 0)+1+r.I64(1000))
	case 2:
		sign(l.ch.w, max(q.price-1, 1))
	case 3: // no payment
		valid = false
		if r.P(0.5) {
			chn = ""
		}
	case 4: // paid before
		valid, enc = false, l.last
		if enc == "" {
			return
		}
	case 5: // a voucher the payer never signed
		sign(WalletN(60), q.price)
		valid = false
	case 6: // for another gateway
		valid = false
		var o *clNode
		for _, h := range d.gws {
			if h != g {
				o = h
			}
		}
		if o == nil {
			return
		}
		l2 := d.payLane(3, o, 0, false)
		sv := &paych.SignedVoucher{ChannelAddr: l2.ch.addr, Lane: 0, Nonce: uint64(d.pw.n), Amount: lotusbig.NewInt(1 << 40)}
		signVoucher(l2.ch.w, sv)
		enc = encVoucher(sv)
		if r.P(0.5) {
			chn = l2.ch.addr.String()
		}
	case 7: // garbage
		valid = false
		enc = []string{"x", "AAAA", "gA"}[r.N(3)]
		if r.P(0.5) {
			chn = []string{"f01", "zz", "f2", WalletN(0).Addr.String()}[r.N(4)]
		}
	case 9: // more than is in the channel
		sign(l.ch.w, max(q.price, 1))
		valid = false
	case 10: // less than one unit
		sign(l.ch.w, 1+r.I64(max(d.prices[0]/2, 1)))
	case 11: // a new voucher for the old amount
		sign(l.ch.w, 0)
	}
	lo := int64(0)
	top := l.amt + amount
	if valid {
		if l.sent < top {
			lo = top - l.sent
		}
		q.hi = top - l.low
		l.sent = max(l.sent, top)
		l.amt, l.last = top, enc
	} else if how == 4 {
		q.hi = l.amt - l.low // the first time may not have arrived, or the gateway has forgotten it
		top = l.amt
		l.sent = max(l.sent, top)
	}
	if valid || how == 4 {
		q.top = top
	}
	d.pw.reqs[q.cid] = append(d.pw.reqs[q.cid], q)
	var m *fcrmessages.FCRMessage
	nonce := r.I64(1 << 40)
	ttl := d.now() + 100000
	switch kind {
	case pkFind:
		m, _ = fcrmessages.EncodeClientStandardDiscoverRequestV2(x, nonce, ttl, chn, enc)
	case pkOffers:
		m, _ = fcrmessages.EncodeClientStandardDiscoverOfferRequest(x, nonce, ttl, digests, chn, enc)
	case pkDHT:
		m, _ = fcrmessages.EncodeClientDHTDiscoverRequestV2(x, nonce, ttl, int64(units), false, chn, enc)
	case pkDHTOff:
		m, _ = fcrmessages.EncodeClientDHTDiscoverOfferRequest(x, nonce, per, targets, chn, enc)
	case pkGwFind:
		rec := d.recorder()
		if rec == nil {
			return
		}
		m, _ = fcrmessages.EncodeGatewayDHTDiscoverRequestV2(rec.id, x, nonce, ttl, chn, enc)
		m.Sign(rec.key.kp, fcrcrypto.InitialKeyVersion())
	case pkGwOffers:
		m, _ = fcrmessages.EncodeGatewayDHTDiscoverOfferRequest(x, nonce, digests, chn, enc)
		if rec := d.recorder(); rec != nil {
			m.Sign(rec.key.kp, fcrcrypto.InitialKeyVersion())
		}
	}
	if m == nil {
		return
	}
	c.Injected(fmt.Sprintf("payment-kind %d", how))
	times := 1
	if how == 8 {
		times = 2
	}
	type answer struct {
		res *fcrmessages.FCRMessage
		err error
	}
	as := make([]answer, times)
	var fs []func()
	for j := range as {
		j := j
		fs = append(fs, func() {
			if kind >= pkGwFind {
				as[j].res, as[j].err = d.p2p(g, "9012", m)
			} else {
				as[j].res, as[j].err = d.post(g, m)
			}
		})
	}
	if times == 1 {
		fs[0]()
	} else {
		c.Parallel(fs...)
	}
	q.hi = q.credit()
	q.done = true
	served := 0
	same := g.era() == inc && g.node.Alive
	where := fmt.Sprintf("%s from %s for %d, payment kind %d of %d (credit %d to %d)", pkNames[kind], g.name, q.price, how, amount, lo, q.hi)
	for _, a := range as {
		if a.err != nil || a.res == nil {
			continue
		}
		ok, inner := d.judgePaid(g, kind, a.res, x, nonce, where)
		if !ok {
			continue
		}
		served++
		if how == 8 && same && served > 1 && q.price > 0 && q.hi < 2*q.price {
			c.Fail("C09", "one payment buys two results", "%s", where)
		}
		if q.hi < q.price {
			c.Fail("C09", "a result is given out without full payment", "%s", where)
		}
		if calm && d.phase != 1 && bad == d.bad && same {
			d.judgeResult(g, kind, k, units, inner, want, tg, where)
		}
	}
	if served > 0 {
		c.NonTriv = true
		c.Probe(fmt.Sprintf("served-%d", kind))
	}
	l.sync()
	if !same {
		l.sent = max(l.sent, q.top) // what was served may have been served before
		return
	}
	if (valid || how == 4) && (served > 0 || (calm && as[0].err == nil)) {
		l.low = max(l.low, top)
	}
	l.took += int64(served) * max(q.price, 0)
	if l.took > l.sent {
		c.Fail("C09", "more is given out than was paid", "%s: served worth %d for vouchers worth %d", where, l.took, l.sent)
	}
	if calm && d.phase != 1 && bad == d.bad && valid && lo >= max(q.price, 1) && served == 0 {
		c.Fail("C09", "a client that pays the price is not served", "%s: %v", where, as[0].err)
	}
	if q.price > 0 && served == 0 {
		c.Probe("refused-paid")
	}
}

// judgePaid decodes an answer: whether it is the paid result, and what is in it.
func (d *clWorld) judgePaid(g *clNode, kind int, res *fcrmessages.FCRMessage, x *cid.ContentID, nonce int64, where string) (bool, any) {
	c := d.c
	if res.Verify(g.key.kp) != nil {
		return false, nil
	}
	leak := func(req bool, n int) bool {
		if req && n > 0 {
			c.Fail("C09", "a result is given out although a payment is asked for", "%s: %d results", where, n)
		}
		return !req
	}
	wrong := func(y *cid.ContentID, no int64) {
		if y.ToString() != x.ToString() || no != nonce {
			c.Fail("C09", "the answer to a paid request belongs to another one", "%s: content %s nonce %d instead of %s %d", where, y.ToString(), no, x.ToString(), nonce)
		}
	}
	switch kind {
	case pkFind:
		y, no, _, dg, _, req, _, err := fcrmessages.DecodeClientStandardDiscoverResponseV2(res)
		if err != nil {
			return false, nil
		}
		wrong(y, no)
		return leak(req, len(dg)), dg
	case pkGwFind:
		y, no, _, dg, _, req, _, err := fcrmessages.DecodeGatewayDHTDiscoverResponseV2(res)
		if err != nil {
			return false, nil
		}
		wrong(y, no)
		return leak(req, len(dg)), dg
	case pkOffers:
		y, no, _, of, _, req, _, err := fcrmessages.DecodeClientStandardDiscoverOfferResponse(res)
		if err != nil {
			return false, nil
		}
		wrong(y, no)
		m := map[string]bool{}
		for i := range of {
			m[subKey(&of[i])] = true
		}
		return leak(req, len(of)), m
	case pkGwOffers:
		y, no, _, of, _, req, _, err := fcrmessages.DecodeGatewayDHTDiscoverOfferResponse(res)
		if err != nil {
			return false, nil
		}
		wrong(y, no)
		m := map[string]bool{}
		for i := range of {
			m[subKey(&of[i])] = true
		}
		return leak(req, len(of)), m
	case pkDHT:
		ids, rs, un, no, req, _, err := fcrmessages.DecodeClientDHTDiscoverResponseV2(res)
		if err != nil {
			return false, nil
		}
		wrong(x, no)
		return leak(req, len(rs)), [3]any{ids, rs, un}
	case pkDHTOff:
		y, no, ids, rs, req, _, err := fcrmessages.DecodeClientDHTDiscoverOfferResponse(res)
		if err != nil {
			return false, nil
		}
		wrong(y, no)
		return leak(req, len(rs)), [3]any{ids, rs, []nodeid.NodeID(nil)}
	}
	return false, nil
}

// judgeResult: a paid result is the whole result.
func (d *clWorld) judgeResult(g *clNode, kind, k, units int, inner any, want map[string]*clTup, tg map[*clNode]map[string]*clTup, where string) {
	c := d.c
	lack := func(have func(string, *clTup) bool, want map[string]*clTup, at string) {
		for _, s := range sortedStr(want) {
			if t := want[s]; t.live(d.now()) && !have(s, t) {
				c.Fail("C09", "a client that pays the price gets less than the result", "%s%s: %s is missing", where, at, t)
				return
			}
		}
		if len(want) > 0 {
			c.Probe("paid-result-judged")
		}
	}
	switch kind {
	case pkFind, pkGwFind:
		m := map[string]bool{}
		for _, s := range inner.([]string) {
			m[s] = true
		}
		lack(func(s string, _ *clTup) bool { return m[s] }, want, "")
	case pkOffers, pkGwOffers:
		m := inner.(map[string]bool)
		lack(func(_ string, t *clTup) bool { return m[t.sub[k]] }, want, "")
	case pkDHT, pkDHTOff:
		if c.Plan.Par("serial") != 1 {
			return // vouchers of concurrent searches may overtake each other
		}
		x := inner.([3]any)
		ids, rs, un := x[0].([]nodeid.NodeID), x[1].([]fcrmessages.FCRMessage), x[2].([]nodeid.NodeID)
		if len(ids) != len(rs) {
			c.Fail("C09", "a client that pays the price gets less than the result", "%s: %d gateways, %d answers", where, len(ids), len(rs))
			return
		}
		got := map[string]*fcrmessages.FCRMessage{}
		for i := range ids {
			got[ids[i].ToString()] = &rs[i]
		}
		_ = un
		var at []*clNode
		if kind == pkDHT {
			if k < 0 {
				return
			}
			at = d.nearest(k, g)
			if units < len(at) {
				at = at[:max(units, 0)]
			}
		} else {
			for h := range tg {
				at = append(at, h)
			}
			sort.Slice(at, func(i, j int) bool { return at[i].i < at[j].i })
		}
		for _, h := range at {
			if h.rogue || !h.known || !h.ready() {
				continue
			}
			m := got[h.ids]
			if m == nil {
				c.Fail("C09", "a client that pays the price gets less than the result", "%s: no answer of %s", where, h.name)
				return
			}
			if m.Verify(h.key.kp) != nil {
				c.Fail("C09", "a client that pays the price gets less than the result", "%s: the answer of %s does not verify", where, h.name)
				return
			}
			if kind == pkDHT {
				_, _, _, dg, _, req, _, err := fcrmessages.DecodeGatewayDHTDiscoverResponseV2(m)
				if err != nil || req {
					c.Fail("C09", "a gateway does not pay another one what the client paid for", "%s: %s wants more (%v)", where, h.name, err)
					return
				}
				mm := map[string]bool{}
				for _, s := range dg {
					mm[s] = true
				}
				lack(func(s string, _ *clTup) bool { return mm[s] }, tg[h], " at "+h.name)
				continue
			}
			_, _, _, of, _, req, _, err := fcrmessages.DecodeGatewayDHTDiscoverOfferResponse(m)
			if err != nil || req {
				c.Fail("C09", "a gateway does not pay another one what the client paid for", "%s: %s wants more (%v)", where, h.name, err)
				return
			}
			mm := map[string]bool{}
			for i := range of {
				mm[subKey(&of[i])] = true
			}
			lack(func(_ string, t *clTup) bool { return mm[t.sub[k]] }, tg[h], " at "+h.name)
		}
	}
}

func (d *clWorld) recorder() *clNode {
	for _, g := range d.gws {
		if g.rogue {
			return g
		}
	}
	return nil
}

// bootRecorder starts the gateway that notes what the others pay it.
func (d *clWorld) bootRecorder(g *clNode) {
	c := d.c
	g.rogue = true
	c.Boot(g.node, "recorder", func() {
		rm := fcrregistermgr.NewFCRRegisterMgr("http://register:9020", true, true, 10*time.Second)
		if err := rm.Start(); err != nil {
			c.Err("register manager: %v", err)
			return
		}
		s := fcrp2pserver.NewFCRP2PServer([]string{"9011", "9012"}, rm, 60*time.Second)
		s.AddHandler("9012", fcrmessages.GatewayDHTDiscoverRequestV2Type, func(_ *fcrp2pserver.FCRServerReader, wr *fcrp2pserver.FCRServerWriter, m *fcrmessages.FCRMessage) error {
			_, x, no, _, ch, v, err := fcrmessages.DecodeGatewayDHTDiscoverRequestV2(m)
			if err != nil {
				return err
			}
			d.forwarded(x)
			if d.mode == clPaid {
				d.noted(g, pkDHT, x, ch, v)
			}
			return d.recAnswer(g, wr, func() (*fcrmessages.FCRMessage, error) {
				return fcrmessages.EncodeGatewayDHTDiscoverResponseV2(x, no, false, nil, nil, d.r.P(0.1), "")
			})
		})
		s.AddHandler("9012", fcrmessages.GatewayDHTDiscoverRequestType, func(_ *fcrp2pserver.FCRServerReader, wr *fcrp2pserver.FCRServerWriter, m *fcrmessages.FCRMessage) error {
			_, x, no, _, _, _, err := fcrmessages.DecodeGatewayDHTDiscoverRequest(m)
			if err != nil {
				return err
			}
			d.forwarded(x)
			return d.recAnswer(g, wr, func() (*fcrmessages.FCRMessage, error) {
				return fcrmessages.EncodeGatewayDHTDiscoverResponse(x, no, false, nil, nil)
			})
		})
		s.AddHandler("9012", fcrmessages.GatewayDHTDiscoverOfferRequestType, func(_ *fcrp2pserver.FCRServerReader, wr *fcrp2pserver.FCRServerWriter, m *fcrmessages.FCRMessage) error {
			x, no, _, ch, v, err := fcrmessages.DecodeGatewayDHTDiscoverOfferRequest(m)
			if err != nil {
				return err
			}
			d.forwarded(x)
			if d.mode == clPaid {
				d.noted(g, pkDHTOff, x, ch, v)
			}
			return d.recAnswer(g, wr, func() (*fcrmessages.FCRMessage, error) {
				return fcrmessages.EncodeGatewayDHTDiscoverOfferResponse(x, no, false, nil, nil, d.r.P(0.1), "")
			})
		})
		if err := s.Start(); err != nil {
			c.Err("recorder: %v", err)
		}
	})
	c.Call(d.admin, "reg", func() {
		if err := d.rm.RegisterGateway(g.greg); err != nil {
			c.Err("recorder: %v", err)
		}
	})
	g.regd, g.known = true, true
}

func (d *clWorld) recAnswer(g *clNode, wr *fcrp2pserver.FCRServerWriter, f func() (*fcrmessages.FCRMessage, error)) error {
	switch d.r.N(8) {
	case 0:
		return wr.WriteInvalidMessage(5 * time.Second)
	case 1: // no answer
		d.c.Injected("peer-without-answer")
		return fmt.Errorf("gone")
	}
	m, err := f()
	if err != nil {
		return err
	}
	if !d.r.P(0.1) {
		m.Sign(g.key.kp, fcrcrypto.InitialKeyVersion())
	}
	return wr.Write(m, 5*time.Second)
}

// noted: another gateway pays.
func (d *clWorld) noted(g *clNode, kind int, x *cid.ContentID, ch, v string) {
	c := d.c
	var from *clNode
	a, err := address.NewFromString(ch)
	if err == nil {
		if cc := d.chain.Channels[a]; cc != nil {
			for _, h := range d.gws {
				if cc.From == WalletN(1+h.i).Addr {
					from = h
				}
			}
		}
	}
	sv, err2 := paych.DecodeSignedVoucher(v)
	if from == nil || err2 != nil {
		c.Probe("noted-without-payment")
		return
	}
	c.Probe("noted-payment")
	ok := false
	for _, q := range d.pw.reqs[x.ToString()] {
		if q.g == from && q.kind == kind && q.credit() >= q.price && q.price > 0 {
			ok = true
		}
	}
	if !ok {
		c.Fail("C09", "a gateway pays another one for a request that was not fully paid", "%s pays %s %s for %s", from.name, g.name, sv.Amount, pkNames[kind])
		return
	}
	key := fmt.Sprintf("%s %d", ch, sv.Lane)
	if n := sv.Amount.Int64(); n > d.pw.paid[key] {
		d.pw.by[from] += n - d.pw.paid[key]
		d.pw.paid[key] = n
	}
	sum := int64(0)
	for _, l := range d.pw.reqs {
		for _, q := range l {
			if q.g == from && q.credit() >= q.price && q.price > 0 {
				sum += q.due
			}
		}
	}
	if d.pw.by[from] > sum {
		c.Fail("C09", "a gateway pays another one more than was asked for", "%s paid %s %d, paid requests allow %d", from.name, g.name, d.pw.by[from], sum)
	}
}

// clientPays watches what the client library pays.
func (d *clWorld) clientPays(ev *simrt.HTTPEvent) {
	c := d.c
	if ev.From != d.app || ev.Port != "9010" {
		return
	}
	m, err := fcrmessages.FCRMsgFromBytes(ev.ReqBody)
	if err != nil {
		return
	}
	var v, what string
	var price int64
	switch m.GetMessageType() {
	case fcrmessages.ClientStandardDiscoverRequestV2Type:
		_, _, _, _, v, err = fcrmessages.DecodeClientStandardDiscoverRequestV2(m)
		price, what = d.prices[0], "a standard search"
	case fcrmessages.ClientStandardDiscoverOfferRequestType:
		var dg []string
		_, _, _, dg, _, v, err = fcrmessages.DecodeClientStandardDiscoverOfferRequest(m)
		price, what = d.prices[1]*int64(len(dg)), fmt.Sprintf("%d offers", len(dg))
	case fcrmessages.ClientDHTDiscoverRequestV2Type:
		var n int64
		_, _, _, n, _, _, v, err = fcrmessages.DecodeClientDHTDiscoverRequestV2(m)
		price, what = d.prices[0]*n, fmt.Sprintf("a search at %d gateways", n)
	case fcrmessages.ClientDHTDiscoverOfferRequestType:
		var dg [][]string
		_, _, dg, _, _, v, err = fcrmessages.DecodeClientDHTDiscoverOfferRequest(m)
		n := 0
		for _, l := range dg {
			n += len(l)
		}
		price, what = d.prices[1]*int64(n), fmt.Sprintf("%d offers of other gateways", n)
	default:
		return
	}
	if err != nil {
		return
	}
	sv, err := paych.DecodeSignedVoucher(v)
	if err != nil {
		return
	}
	key := fmt.Sprintf("%s %d", sv.ChannelAddr, sv.Lane)
	old := d.pw.cl[key]
	paid := sv.Amount.Int64() - old
	d.pw.cl[key] = sv.Amount.Int64()
	if d.phase == 1 {
		d.pw.cl[key+" rough"] = 1
		return
	}
	if d.pw.cl[key+" rough"] == 1 {
		delete(d.pw.cl, key+" rough") // vouchers may have got lost
		return
	}
	if paid != price {
		c.Fail("C09", "the client library pays another price", "%s costs %d, it pays %d", what, price, paid)
	}
	c.Probe("client-payment-judged")
}
