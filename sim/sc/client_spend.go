package sc

import (
	"encoding/json"
	"fmt"
	"math/big"
	"sort"

	"github.com/filecoin-project/lotus/chain/actors/builtin/paych"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"

	"sim.local/h/fw"
	"sim.local/h/simrt"
)

// What the client library spends (C26): searches that are paid, at gateways that demand payment again and again, list far too
// many offers, the same one many times or unknown ones, on a chain that fails at times.

// spend is a request that carries a payment.
type spend struct {
	price int64
	nonce uint64
	amt   int64
}

// cliSpendState is what is known about the client's payments.
type cliSpendState struct {
	search, offer, topup int64
	th                   int64
	lanes                map[string][]spend // by channel and lane
	demands              map[int]int64      // by gateway
	pmax                 map[int]int64      // the most a request can have cost
	active               map[*cliCall]bool
	chain                *Chain
}

// running: a paid call begins.
func (s *cliSpendState) running(call *cliCall) {
	for x := range s.active {
		if x.gw == call.gw {
			x.overlaps++
			call.overlaps++
		}
	}
	s.active[call] = true
}

// paidMsg is the payment a request carries, and the number of units it asks for.
func paidMsg(q *fcrmessages.FCRMessage) (chn, v string, searches, offers int64, digs map[string][]string, ok bool) {
	var err error
	switch q.GetMessageType() {
	case fcrmessages.ClientStandardDiscoverRequestV2Type:
		_, _, _, chn, v, err = fcrmessages.DecodeClientStandardDiscoverRequestV2(q)
		searches = 1
	case fcrmessages.ClientDHTDiscoverRequestV2Type:
		_, _, _, searches, _, chn, v, err = fcrmessages.DecodeClientDHTDiscoverRequestV2(q)
	case fcrmessages.ClientStandardDiscoverOfferRequestType:
		var l []string
		_, _, _, l, chn, v, err = fcrmessages.DecodeClientStandardDiscoverOfferRequest(q)
		offers, digs = int64(len(l)), map[string][]string{"": l}
	case fcrmessages.ClientDHTDiscoverOfferRequestType:
		digs = map[string][]string{}
		_, _, ll, gids, c, w, e := fcrmessages.DecodeClientDHTDiscoverOfferRequest(q)
		chn, v, err = c, w, e
		for i, l := range ll {
			offers += int64(len(l))
			if i < len(gids) {
				digs[gids[i].ToString()] = append(digs[gids[i].ToString()], l...)
			}
		}
	default:
		return
	}
	return chn, v, searches, offers, digs, err == nil
}

// spent: a request arrived at a gateway.
func (d *cliWorld) spent(g *cliGw, q *fcrmessages.FCRMessage, call *cliCall) {
	c, s := d.c, d.sp
	chn, v, n, k, digs, ok := paidMsg(q)
	if !ok || call == nil {
		return
	}
	price := n*s.search + k*s.offer
	what := fmt.Sprintf("%s: request %d", call.kind, q.GetMessageType())
	if call.gw != g.i {
		c.Fail("C26", "another gateway is paid", "%s", what)
		return
	}
	if n > 0 {
		call.searches++
		if call.searches > 1+call.demands || call.searches > 2 {
			c.Fail("C26", "one search is paid for too often", "%s: %d times, %d demands", what, call.searches, call.demands)
		}
		if n != call.numDHT {
			c.Fail("C26", "another search is paid for", "%s: %d gateways instead of %d", what, n, call.numDHT)
		}
	} else {
		if call.bought++; call.bought > 1 {
			c.Fail("C26", "offers are bought twice in one call", "%s", what)
		}
		if k > int64(call.limit) {
			c.Fail("C26", "more offers are bought than the caller allows", "%s: %d, limit %d", what, k, call.limit)
		}
		for _, id := range sortedStr(digs) {
			have := map[string]int{}
			for _, x := range digs[id] {
				if have[x]++; have[x] > call.listed[id+" "+x] {
					c.Fail("C26", "an offer is bought that was not listed", "%s: %q of %q", what, x, id)
					break
				}
			}
		}
		c.Probe("offers-bought")
	}
	sv, err := paych.DecodeSignedVoucher(v)
	if err != nil {
		c.Fail("C26", "a payment is none", "%s: voucher %q: %v", what, v, err)
		return
	}
	cc := s.chain.Channels[sv.ChannelAddr]
	if cc == nil || chn != sv.ChannelAddr.String() || cc.To != WalletN(1+g.i).Addr || cc.From != WalletN(0).Addr {
		c.Fail("C26", "another party is paid", "%s: channel %s, voucher for %s", what, chn, sv.ChannelAddr)
		return
	}
	key := fmt.Sprintf("%s %d", sv.ChannelAddr, sv.Lane)
	s.lanes[key] = append(s.lanes[key], spend{price, sv.Nonce, sv.Amount.Int64()})
	c.Probe("payment-seen")
}

// told: the client gets an answer.
func (d *cliWorld) told(g *cliGw, q *fcrmessages.FCRMessage, call *cliCall, body []byte) {
	m, err := fcrmessages.FCRMsgFromBytes(body)
	if err != nil || call == nil || m.Verify(g.key.kp) != nil {
		return
	}
	list := func(id string, l []string) {
		for _, x := range l {
			call.listed[id+" "+x]++
		}
		call.nlist += int64(len(l))
		d.sp.pmax[g.i] = max(d.sp.pmax[g.i], min(call.nlist, int64(call.limit))*d.sp.offer)
	}
	demand := func(b bool) {
		if b {
			call.demands++
			d.sp.demands[g.i]++
			d.c.Probe("payment-demanded")
		}
	}
	switch q.GetMessageType() {
	case fcrmessages.ClientStandardDiscoverRequestV2Type:
		_, _, _, l, _, need, _, err := fcrmessages.DecodeClientStandardDiscoverResponseV2(m)
		if err == nil {
			list("", l)
			demand(need)
		}
	case fcrmessages.ClientDHTDiscoverRequestV2Type:
		ids, ms, _, _, need, _, err := fcrmessages.DecodeClientDHTDiscoverResponseV2(m)
		if err != nil {
			return
		}
		demand(need)
		for i := range ms {
			if i >= len(ids) {
				break
			}
			for _, o := range d.gws {
				if o.ids == ids[i].ToString() && ms[i].Verify(o.key.kp) == nil {
					if _, _, _, l, _, _, _, err := fcrmessages.DecodeGatewayDHTDiscoverResponseV2(&ms[i]); err == nil {
						list(o.ids, l)
					}
				}
			}
		}
	}
}

// greedy is what a gateway that wants money makes of its answer.
func (d *cliWorld) greedy(o map[string]any) {
	r := d.r
	if r.P(0.6) {
		d.c.Probe("greedy-demand")
		o["payment_required"] = true
		o["payment_channel"] = []string{"", "junk", WalletN(9).Addr.String()}[r.N(3)]
	}
	if l, _ := o["sub_cid_offers"].([]any); len(l) > 0 {
		// more than was bought
		d.c.Probe("more-than-bought")
		for n := r.N(8); n > 0; n-- {
			l = append(l, l[r.N(len(l))])
		}
		o["sub_cid_offers"] = l
		o["funded_payment_channel"] = make([]bool, len(l))
	}
	for _, f := range []string{"sub_cid_offer_digests", "sub_cid_offer_digest"} {
		v, ok := o[f]
		if !ok {
			continue
		}
		l, _ := v.([]any)

		for n := r.N([]int{2, 6, 150}[r.N(3)]); n > 0; n-- {
			var v any = fmt.Sprintf("%044d", r.N(1000))
			if len(d.offers) > 0 && r.P(0.7) {
				v = d.offers[r.N(len(d.offers))].digest
			}
			l = append(l, v)
		}
		o[f] = l
		o["found"] = r.P(0.9)
		o["funded_payment_channel"] = make([]bool, len(l))
	}
}

// demand is an answer that demands payment (again).
func (d *cliWorld) demand(g *cliGw, m *fcrmessages.FCRMessage) *fcrmessages.FCRMessage {
	var o map[string]any
	if unjson(m.GetMessageBody(), &o) != nil {
		return m
	}
	o["payment_required"] = true
	body, _ := json.Marshal(o)
	return g.sign(fcrmessages.CreateFCRMessage(m.GetMessageType(), body))
}

// tally judges all payments of a run.
func (d *cliWorld) tally() {
	c, s := d.c, d.sp
	for _, key := range sortedStr(s.lanes) {
		l := s.lanes[key]
		sort.Slice(l, func(i, j int) bool { return l[i].nonce < l[j].nonce })
		var last spend
		for i, x := range l {
			gap := int64(x.nonce)
			if i > 0 {
				gap = int64(x.nonce) - int64(last.nonce) - 1
			}
			if paid := x.amt - last.amt; gap == 0 && paid != x.price {
				c.Fail("C26", "a request is not paid with its price", "%s: voucher %d pays %d for a request that costs %d", key, x.nonce, paid, x.price)
				return
			}
			if gap < 0 {
				c.Fail("C26", "a payment is used twice", "%s: voucher %d", key, x.nonce)
				return
			}
			last = x
		}
		c.Probe("lane-judged")
	}
	for _, g := range d.gws {
		to := WalletN(1 + g.i).Addr
		bal, owed := new(big.Int), int64(0)
		for _, cc := range s.chain.Order {
			if cc.From != WalletN(0).Addr || cc.To != to {
				continue
			}
			bal.Add(bal, cc.Balance)
			for key, l := range s.lanes {
				if len(l) > 0 && len(key) > len(cc.Addr.String()) && key[:len(cc.Addr.String())] == cc.Addr.String() {
					owed += l[len(l)-1].amt
				}
			}
		}
		if bal.Sign() == 0 {
			continue
		}
		most := owed + s.pmax[g.i] + s.topup*(1+s.demands[g.i]+2*s.th)
		if bal.Cmp(big.NewInt(most)) > 0 {
			c.Fail("C26", "more is deposited than is needed", "gateway %d: %s deposited, %d paid, requests cost up to %d, %d demands, top-ups of %d, %d threads", g.i, bal, owed, s.pmax[g.i], s.demands[g.i], s.topup, s.th)
		}
		c.Probe("deposits-judged")
	}
}

// spendJudge judges one paid call.
func (d *cliWorld) spendJudge(o fw.Op, call *cliCall, n int, err error) {
	c := d.c
	if o.K == "find2" && n > call.limit {
		c.Fail("C26", "more offers are returned than the caller allows", "%s: %d, limit %d", o, n, call.limit)
	}
	if c.Plan.Par("evil") > 0 || call.demands > 0 || d.chainBad || call.hits == 0 || d.sp.topup < d.sp.pmax[call.gw] {
		return
	}
	// Calls that pay the same gateway meanwhile may use up what this one deposited, twice.
	if err != nil && call.overlaps > 0 && d.sp.topup < d.sp.pmax[call.gw]*(3*call.overlaps+1) {
		return
	}
	if err != nil {
		c.Fail("C26", "a search that was paid for fails", "%s: %v", o, err)
		return
	}
	if want := min(int(call.nlist), call.limit); n != want {
		c.Fail("C26", "a search that was paid for is incomplete", "%s: %d offers of %d listed, limit %d", o, n, call.nlist, call.limit)
	}
	c.Probe("paid-call-judged")
}

var _ = simrt.Cur
