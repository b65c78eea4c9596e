package sc

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"

	lotusbig "github.com/filecoin-project/go-state-types/big"
	"github.com/filecoin-project/lotus/chain/actors/builtin/paych"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrpaymentmgr"

	"sim.local/h/fw"
	"sim.local/h/simrt"
)

// The payment scenario: payers and payees with the real payment manager on a simulated chain.

type payVoucher struct {
	channel string // canonical channel it is drawn on
	enc     string
	lane    uint64
	nonce   uint64
	amount  int64
	payee   int
	valid   bool // signed by the channel's payer over exactly this content
}

type recvIn struct {
	Chan           string
	Lane, Nonce    uint64
	Amount         int64
	Valid, MayFail bool
	BalLo, BalHi   int64
	Note           string
}

func (r recvIn) String() string {
	return fmt.Sprintf("receive(ch=%.8s lane=%d nonce=%d amount=%d valid=%v mayfail=%v bal=%d..%d %s)", r.Chan, r.Lane, r.Nonce, r.Amount, r.Valid, r.MayFail, r.BalLo, r.BalHi, r.Note)
}

type payIn struct {
	Kind    string // pay, topup
	Lane    uint64
	Amount  int64
	Failed  bool // topup that reported an error
	Mined   bool
	Apierrs int
}

type payOut struct {
	Topup bool
	Err   bool
	V     *paych.SignedVoucher
}

func (o payOut) String() string {
	if o.V != nil {
		return fmt.Sprintf("voucher(lane=%d nonce=%d amount=%s)", o.V.Lane, o.V.Nonce, o.V.Amount)
	}
	return fmt.Sprintf("needTopup=%v err=%v", o.Topup, o.Err)
}

type apiTag struct{ errs int }

func encVoucher(sv *paych.SignedVoucher) string {
	var b bytes.Buffer
	if err := sv.MarshalCBOR(&b); err != nil {
		panic(err)
	}
	return base64.RawURLEncoding.EncodeToString(b.Bytes())
}

func signVoucher(w *Wallet, sv *paych.SignedVoucher) {
	sv.Signature = nil
	vb, err := sv.SigningBytes()
	if err != nil {
		panic(err)
	}
	sv.Signature = w.sign(vb)
}

func genPay(r *simrt.PRNG, p *fw.Plan) {
	knobs(r, p)
	payers, payees := 1+r.N(2), 1+r.N(2)
	th := 2 + r.N(4)
	lanes := 1 + r.N(3)
	p.P["payers"], p.P["payees"], p.P["lanes"] = int64(payers), int64(payees), int64(lanes)
	if r.P(0.4) {
		p.P["perr"] = int64(1 + r.N(60)) // per mille
	}
	if r.P(0.3) {
		p.P["plate"] = int64(1 + r.N(60))
	}
	if r.P(0.25) {
		p.P["pexit"] = int64(20 + r.N(200))
	}
	if r.P(0.7) {
		p.P["lat"] = int64(1 + r.N(2000)) // ms
	}
	p.P["block"] = int64(r.N(40)) // s
	p.P["shared"] = int64(r.N(2)) // callers share one amount object per payer
	// a warm-up in order
	if r.P(0.8) {
		for a := 0; a < payers; a++ {
			for b := 0; b < payees; b++ {
				if r.P(0.8) {
					p.Ops = append(p.Ops, fw.Op{K: "topup0", A: []int64{-1, int64(a), int64(b), int64(10 + r.N(400))}})
				}
			}
		}
	}
	n := 4 + r.N(28)
	restarts := r.P(0.15)
	wPay, wTop, wRecv, wBad, wCraft := 1+r.N(8), r.N(3), 1+r.N(8), r.N(4), r.N(4)
	for i := 0; i < n; i++ {
		t := int64(r.N(th))
		a, b, l := int64(r.N(payers)), int64(r.N(payees)), int64(r.N(lanes))
		if restarts && r.P(0.08) {
			p.Ops = append(p.Ops, fw.Op{K: "restart", A: []int64{t, b, int64(r.N(300))}})
		}
		switch r.Weighted([]int{wPay, wTop, wRecv, wBad, wCraft}) {
		case 0:
			p.Ops = append(p.Ops, fw.Op{K: "pay", A: []int64{t, a, b, l, int64(1 + r.N(60))}})
		case 1:
			p.Ops = append(p.Ops, fw.Op{K: "topup", A: []int64{t, a, b, int64(1 + r.N(200))}})
		case 2:
			p.Ops = append(p.Ops, fw.Op{K: "recv", A: []int64{t, int64(r.N(40)), int64(r.N(3))}})
		case 3:
			p.Ops = append(p.Ops, fw.Op{K: "bad", A: []int64{t, int64(r.N(40)), int64(r.N(10)), int64(r.N(1000))}})
		case 4:
			p.Ops = append(p.Ops, fw.Op{K: "craft", A: []int64{t, a, b, l, int64(r.N(12)), int64(1 + r.N(500))}})
		}
	}
}

type payRun struct {
	c      *fw.Ctx
	ch     *Chain
	payer  []*fcrpaymentmgr.FCRPaymentMgr
	payee  []*fcrpaymentmgr.FCRPaymentMgr
	pn, en []*simrt.Node
	pool   []*payVoucher
	recv   map[string][]fw.HOp // per payee/channel
	pays   map[[2]int][]fw.HOp
	used   map[*payVoucher]bool
	shared []*big.Int
	ambig  map[[2]int]bool
	anyErr bool
	inc    map[int]int // restarts of a payee
	busy   map[int]int // calls in progress
	rest   map[int]bool // being restarted
}

func runPay(c *fw.Ctx) {
	p := c.Plan
	d := &payRun{c: c, recv: map[string][]fw.HOp{}, pays: map[[2]int][]fw.HOp{}, used: map[*payVoucher]bool{}, ambig: map[[2]int]bool{}, inc: map[int]int{}, busy: map[int]int{}, rest: map[int]bool{}}
	d.ch = NewChain(c, ChainFaults{PErr: float64(p.Par("perr")) / 1000, PErrLate: float64(p.Par("plate")) / 1000, PExit: float64(p.Par("pexit")) / 1000,
		Lat: time.Duration(p.Par("lat")) * time.Millisecond, Block: time.Duration(p.Par("block")) * time.Second})
	d.ch.OnErr = func(tag any, call string) {
		d.anyErr = true
		if t, ok := tag.(*apiTag); ok {
			t.errs++
		}
	}
	mk := func(name string, w *Wallet) (*simrt.Node, *fcrpaymentmgr.FCRPaymentMgr) {
		n := c.AddNode(name)
		d.ch.AddWallet(w)
		var m *fcrpaymentmgr.FCRPaymentMgr
		c.Boot(n, "idle", func() {})
		c.Call(n, "new", func() {
			var err error
			if m, err = fcrpaymentmgr.NewFCRPaymentMgr(w.Hex, "http://lotus", "token"); err != nil {
				c.Err("NewFCRPaymentMgr: %v", err)
			}
		})
		return n, m
	}
	for i := int64(0); i < p.Par("payers"); i++ {
		n, m := mk(fmt.Sprintf("payer%d", i), WalletN(int(i)))
		d.pn, d.payer = append(d.pn, n), append(d.payer, m)
		d.shared = append(d.shared, big.NewInt(int64(50+17*i)))
	}
	for i := int64(0); i < p.Par("payees"); i++ {
		n, m := mk(fmt.Sprintf("payee%d", i), WalletN(int(10+i)))
		d.en, d.payee = append(d.en, n), append(d.payee, m)
	}
	c.Data = d
	var pre, main []fw.Op
	for _, o := range p.Ops {
		if o.K == "topup0" {
			pre = append(pre, o)
		} else {
			main = append(main, o)
		}
	}
	f := d.ch.F
	d.ch.F.PErr, d.ch.F.PErrLate, d.ch.F.PExit = 0, 0, 0
	for _, o := range pre {
		d.topup(o.Arg(1), o.Arg(2), o.Arg(3))
	}
	d.ch.F = f
	threads(c, main, func(int64) *simrt.Node { return nil }, func(th int64, i int, o fw.Op) {
		switch o.K {
		case "pay":
			d.pay(o.Arg(1), o.Arg(2), uint64(o.Arg(3)), o.Arg(4))
		case "topup":
			d.topup(o.Arg(1), o.Arg(2), o.Arg(3))
		case "recv":
			if v := d.pick(o.Arg(1), o.Arg(2)); v != nil {
				d.present(v, v.channel, "")
			}
		case "craft":
			d.craft(o)
		case "bad":
			d.bad(o)
		case "restart":
			d.restart(int(o.Arg(1)), uint64(o.Arg(2)))
		}
	})
	// quiet end: what is left can be paid out exactly
	d.ch.F.PErr, d.ch.F.PErrLate, d.ch.F.PExit = 0, 0, 0
	d.settle()
}

// restart kills the payee somewhere in what it is doing and starts it again.
func (d *payRun) restart(b int, k uint64) {
	n := d.en[b]
	if !n.Alive || d.rest[b] {
		return
	}
	d.rest[b] = true
	defer func() { d.rest[b] = false }()
	if k > 0 && d.busy[b] > 0 {
		d.c.CrashAfterSteps(n, k)
		d.c.WaitUntil(20*time.Second, 100*time.Millisecond, func() bool { return !n.Alive })
	}
	d.c.CrashNode(n, "injected")
	d.c.Injected("crash payee")
	d.inc[b]++
	d.payee[b] = nil
	d.c.Boot(n, "idle", func() {})
	d.c.Call(n, "new", func() {
		m, err := fcrpaymentmgr.NewFCRPaymentMgr(WalletN(10+b).Hex, "http://lotus", "token")
		if err != nil {
			d.c.Err("NewFCRPaymentMgr: %v", err)
		}
		d.payee[b] = m
	})
}

func (d *payRun) pick(k, mode int64) *payVoucher {
	if len(d.pool) == 0 {
		return nil
	}
	switch mode {
	case 0: // the oldest one not presented yet
		for _, v := range d.pool {
			if !d.used[v] {
				return v
			}
		}
	case 1: // the newest
		return d.pool[len(d.pool)-1]
	}
	return d.pool[int(k)%len(d.pool)]
}

func (d *payRun) amountObj(a int64, amt int64) (*big.Int, int64) {
	if d.c.Plan.Par("shared") == 1 {
		return d.shared[a], d.shared[a].Int64()
	}
	return big.NewInt(amt), amt
}

func (d *payRun) topup(a, b, amt int64) {
	obj, amt := d.amountObj(a, amt)
	want := new(big.Int).Set(obj)
	if d.c.Plan.Par("shared") == 1 {
		want = big.NewInt(int64(50 + 17*a))
		amt = want.Int64()
	}
	tag := &apiTag{}
	var err error
	h := fw.HOp{Call: d.c.Seq(), Who: fmt.Sprintf("payer%d", a)}
	pushed := d.ch.Pushed
	d.c.Call(d.pn[a], "topup", func() {
		simrt.Cur().Tag = tag
		err = d.payer[a].Topup(WalletN(int(10+b)).Addr.String(), obj)
	})
	h.Ret = d.c.Seq()
	in := payIn{Kind: "topup", Amount: amt, Failed: err != nil, Apierrs: tag.errs}
	if err != nil {
		d.ambig[[2]int{int(a), int(b)}] = d.ambig[[2]int{int(a), int(b)}] || d.ch.Pushed != pushed
		d.c.Probe("topup-failed")
	} else {
		d.c.Probe("topup-ok")
	}
	h.In, h.Out = in, payOut{Err: err != nil}
	k := [2]int{int(a), int(b)}
	d.pays[k] = append(d.pays[k], h)
	if obj.Cmp(want) != 0 {
		d.c.Fail("C08", "caller's amount altered", "the amount object passed to Topup was %s and is now %s", want, obj)
		d.shared[a].Set(big.NewInt(int64(50 + 17*a)))
	}
}

func (d *payRun) pay(a, b int64, lane uint64, amt int64) *payVoucher {
	var chn, vs string
	var need bool
	var err error
	obj := big.NewInt(amt)
	h := fw.HOp{Call: d.c.Seq(), Who: fmt.Sprintf("payer%d", a)}
	d.c.Call(d.pn[a], "pay", func() {
		chn, vs, need, err = d.payer[a].Pay(WalletN(int(10+b)).Addr.String(), lane, obj)
	})
	h.Ret = d.c.Seq()
	out := payOut{Topup: need, Err: err != nil}
	k := [2]int{int(a), int(b)}
	h.In = payIn{Kind: "pay", Lane: lane, Amount: amt}
	if obj.Cmp(big.NewInt(amt)) != 0 {
		d.c.Fail("C08", "caller's amount altered", "the amount object passed to Pay was %d and is now %s", amt, obj)
	}
	var pv *payVoucher
	if err == nil && !need {
		sv, e := paych.DecodeSignedVoucher(vs)
		if e != nil {
			d.c.Fail("C08", "undecodable voucher", "Pay returned %q: %v", vs, e)
			return nil
		}
		out.V = sv
		d.c.NonTriv = true
		if sv.ChannelAddr.String() != chn {
			d.c.Fail("C08", "voucher for another channel", "Pay returned channel %s and a voucher for %s", chn, sv.ChannelAddr)
		}
		cc := d.ch.Channels[sv.ChannelAddr]
		if cc == nil || cc.From != WalletN(int(a)).Addr || cc.To != WalletN(int(10+b)).Addr {
			d.c.Fail("C08", "voucher on a foreign channel", "payer%d to payee%d: voucher on %s", a, b, sv.ChannelAddr)
		}
		if sv.Lane != lane {
			d.c.Fail("C08", "voucher on another lane", "asked for lane %d, got %d", lane, sv.Lane)
		}
		sig := sv.Signature
		sv2 := *sv
		sv2.Signature = nil
		vb, _ := sv2.SigningBytes()
		if sig == nil || (secp{}).verify(sig.Data, WalletN(int(a)).Addr, vb) != nil {
			d.c.Fail("C08", "voucher signature invalid", "voucher %s", out)
		}
		pv = &payVoucher{channel: chn, enc: vs, lane: lane, nonce: sv.Nonce, amount: sv.Amount.Int64(), payee: int(b), valid: true}
		d.pool = append(d.pool, pv)
	}
	h.Out = out
	d.pays[k] = append(d.pays[k], h)
	return pv
}

func (d *payRun) bal(chn string) int64 {
	for _, c := range d.ch.Order {
		if c.Addr.String() == chn {
			return c.Balance.Int64()
		}
	}
	return 0
}

// present gives a voucher to the payee under the given channel name and records the outcome.
func (d *payRun) present(v *payVoucher, chn string, note string) {
	d.used[v] = true
	tag := &apiTag{}
	in := recvIn{Chan: v.channel, Lane: v.lane, Nonce: v.nonce, Amount: v.amount, Valid: v.valid && chn == v.channel, Note: note}
	alias := chn != v.channel && len(chn) == len(v.channel) && chn[1:] == v.channel[1:]
	if alias && v.valid {
		in.Valid, in.MayFail = true, true
	}
	in.BalLo = d.bal(v.channel)
	h := fw.HOp{Call: d.c.Seq(), Who: fmt.Sprintf("payee%d", v.payee)}
	var got *big.Int
	var err error
	inc, ran := 0, false
	d.busy[v.payee]++
	lived := d.c.Call(d.en[v.payee], "receive", func() {
		simrt.Cur().Tag = tag
		m := d.payee[v.payee]
		if inc = d.inc[v.payee]; m == nil {
			return // just started, not ready yet
		}
		ran = true
		defer func() {
			if r := recover(); r != nil {
				err = fmt.Errorf("panic: %v", r)
				d.c.Fail("C07", "receive panics", "Receive(%s, %s) panics: %v", chn, note, r)
			}
		}()
		got, err = m.Receive(chn, v.enc)
	})
	d.busy[v.payee]--
	if !ran {
		return
	}
	if !lived { // the payee died: the voucher may or may not have been taken
		in.BalHi, in.MayFail = d.bal(v.channel), true
		h.In, h.Out = in, int64(-1)
		if in.Valid {
			k := fmt.Sprintf("%d/%s#%d", v.payee, v.channel, inc)
			d.recv[k] = append(d.recv[k], h)
		}
		return
	}
	h.Ret = d.c.Seq()
	in.BalHi = d.bal(v.channel)
	if tag.errs > 0 {
		in.MayFail = true
	}
	cr := int64(0)
	if err == nil && got != nil {
		cr = got.Int64()
		d.c.Probe("credited")
	} else {
		d.c.Probe("refused")
	}
	if err == nil && cr <= 0 {
		d.c.Fail("C07", "nonsensical credit", "%v credited %v without error", in, got)
	}
	if !in.Valid && err == nil {
		d.c.Fail("C07", "invalid voucher credited", "%v credited %d", in, cr)
	}
	d.c.NonTriv = true
	h.In, h.Out = in, cr
	if in.Valid {
		k := fmt.Sprintf("%d/%s#%d", v.payee, v.channel, inc)
		d.recv[k] = append(d.recv[k], h)
	}
}

func (d *payRun) chanFor(a, b int64) *ChainChannel {
	l := d.ch.Between(WalletN(int(a)).Addr, WalletN(int(10+b)).Addr)
	if len(l) == 0 {
		return nil
	}
	return l[0]
}

// craft makes a voucher a dishonest (or differently implemented) payer could sign.
func (d *payRun) craft(o fw.Op) {
	a, b := o.Arg(1), o.Arg(2)
	cc := d.chanFor(a, b)
	if cc == nil {
		return
	}
	sv := &paych.SignedVoucher{ChannelAddr: cc.Addr, Lane: uint64(o.Arg(3)), Nonce: uint64(o.Arg(4)), Amount: lotusbig.NewInt(o.Arg(5))}
	signVoucher(WalletN(int(a)), sv)
	v := &payVoucher{channel: cc.Addr.String(), enc: encVoucher(sv), lane: sv.Lane, nonce: sv.Nonce, amount: o.Arg(5), payee: int(b), valid: true}
	d.pool = append(d.pool, v)
	d.present(v, v.channel, "crafted by the payer")
}

// bad presents something that must not be credited.
func (d *payRun) bad(o fw.Op) {
	v0 := d.pick(o.Arg(1), 2)
	if v0 == nil {
		return
	}
	v := *v0
	chn := v.channel
	note := ""
	dec := func() *paych.SignedVoucher { sv, _ := paych.DecodeSignedVoucher(v0.enc); return sv }
	switch o.Arg(2) {
	case 0:
		sv := dec()
		sv.Signature.Data[int(o.Arg(3))%len(sv.Signature.Data)] ^= 1 << (uint(o.Arg(3)) % 8)
		v.enc, note = encVoucher(sv), "signature altered"
	case 1:
		sv := dec()
		sv.Amount = lotusbig.Add(sv.Amount, lotusbig.NewInt(1+o.Arg(3)))
		v.enc, note = encVoucher(sv), "amount altered"
		v.amount = sv.Amount.Int64()
	case 2:
		sv := dec()
		sv.Nonce += uint64(1 + o.Arg(3)%5)
		sv.Amount = lotusbig.Add(sv.Amount, lotusbig.NewInt(1))
		signVoucher(WalletN(20), sv)
		v.enc, note = encVoucher(sv), "signed by a stranger"
		v.amount, v.nonce = sv.Amount.Int64(), sv.Nonce
	case 3: // presented under another channel
		var l []*ChainChannel
		for _, c := range d.ch.Order {
			if c.Addr.String() != v.channel {
				l = append(l, c)
			}
		}
		if len(l) == 0 {
			return
		}
		chn, note = l[int(o.Arg(3))%len(l)].Addr.String(), "presented for another channel"
	case 4: // presented to another payee
		if len(d.payee) < 2 {
			return
		}
		v.payee, note = (v.payee+1)%len(d.payee), "presented to another payee"
		v.valid = false
	case 5:
		sv := dec()
		sv.Signature = nil
		v.enc, note = encVoucher(sv), "unsigned"
	case 6:
		v.enc, note = v.enc[:len(v.enc)/2], "truncated"
	case 7: // the same channel under its other textual form
		x := []byte(chn)
		if x[0] == 't' {
			x[0] = 'f'
		} else {
			x[0] = 't'
		}
		chn, note = string(x), "alias of the channel address"
		d.present(&v, chn, note)
		return
	case 8: // not a payment channel at all
		chn, note = WalletN(0).Addr.String(), "channel is an account"
	case 9:
		sv := dec()
		sv.Lane += 1 + uint64(o.Arg(3)%3)
		v.enc, note = encVoucher(sv), "lane altered"
		v.lane = sv.Lane
	}
	v.valid = false
	d.present(&v, chn, note)
}

func (d *payRun) settle() {
	for a := range d.payer {
		for b := range d.payee {
			k := [2]int{a, b}
			dep, paid := int64(0), int64(0)
			for _, h := range d.pays[k] {
				in, out := h.In.(payIn), h.Out.(payOut)
				if in.Kind == "topup" && !in.Failed {
					dep += in.Amount
				}
				if in.Kind == "pay" && out.V != nil {
					paid += in.Amount
				}
			}
			if dep == 0 || d.ambig[k] {
				continue
			}
			left := dep - paid
			if left < 0 {
				d.c.Fail("C08", "overspent", "payer%d to payee%d: deposited %d, vouchers worth %d", a, b, dep, paid)
				continue
			}
			if left > 0 {
				if d.pay(int64(a), int64(b), 7, left) == nil {
					d.c.Fail("C08", "deposit not spendable", "payer%d to payee%d: deposited %d, paid %d, but %d is refused\n%s", a, b, dep, paid, left, fw.HistText(d.pays[k]))
				}
			}
			if d.pay(int64(a), int64(b), 8, 1) != nil {
				d.c.Fail("C08", "overspent", "payer%d to payee%d: deposited %d, paid all, and one more is still granted\n%s", a, b, dep, fw.HistText(d.pays[k]))
			}
			d.c.Probe("settled")
		}
	}
}

type laneSt struct {
	nonce uint64
	red   int64
}

type chSt struct {
	red   int64
	lanes map[uint64]laneSt
}

func afterPay(c *fw.Ctx) {
	d, ok := c.Data.(*payRun)
	if !ok || c.Ended != "done" {
		return
	}
	tot := map[string]int64{}
	for _, k := range sortedStr(d.recv) {
		h := d.recv[k]
		// hard limits, independent of any order
		sum, last := int64(0), int64(0)
		for _, o := range h {
			if cr := o.Out.(int64); cr > 0 {
				sum += cr
			}
			if b := o.In.(recvIn).BalHi; b > last {
				last = b
			}
		}
		ck := k[:strings.IndexByte(k, '#')]
		tot[ck] += sum
		if sum <= last && tot[ck] > last {
			c.Fail("C07", "accounts forgotten on restart", "channel %s: credited %d over several lives of the payee, balance %d", ck, tot[ck], last)
		}
		if sum > last {
			c.Fail("C07", "credited more than the channel holds", "channel %s: credited %d, balance %d\n%s", k, sum, last, fw.HistText(h))
			continue
		}
		m := fw.Model[chSt]{Init: chSt{lanes: map[uint64]laneSt{}}, Key: func(s chSt) string { return fmt.Sprint(s.red, s.lanes) },
			Next: func(s chSt, o *fw.HOp) []chSt {
				in, cr := o.In.(recvIn), o.Out.(int64)
				l := s.lanes[in.Lane]
				good := in.Nonce >= l.nonce && in.Amount > l.red
				diff := in.Amount - l.red
				if cr == 0 {
					if in.MayFail || !good || s.red+diff > in.BalLo {
						return []chSt{s}
					}
					return nil
				}
				if cr < 0 {
					cr = diff
				}
				if !good || cr != diff || s.red+diff > in.BalHi {
					return nil
				}
				n := chSt{red: s.red + diff, lanes: map[uint64]laneSt{}}
				for k, v := range s.lanes {
					n.lanes[k] = v
				}
				n.lanes[in.Lane] = laneSt{in.Nonce + 1, in.Amount}
				return []chSt{n}
			}}
		ok, dec := fw.Linearizable(m, h, 200000)
		if dec && !ok {
			c.Fail("C07", "credits fit no order of the vouchers", "channel %s\n%s", k, fw.HistText(h))
		}
	}
	for a := range d.payer {
		for b := range d.payee {
			d.judgePayer(a, b)
		}
	}
}

func (d *payRun) judgePayer(a, b int) {
	c := d.c
	k := [2]int{a, b}
	h := d.pays[k]
	chans := map[string]bool{}
	byLane := map[string][]fw.HOp{}
	for _, o := range h {
		if v := o.Out.(payOut).V; v != nil {
			chans[v.ChannelAddr.String()] = true
			lk := fmt.Sprintf("%s/%d", v.ChannelAddr, v.Lane)
			byLane[lk] = append(byLane[lk], o)
		}
		in, out := o.In.(payIn), o.Out.(payOut)
		if in.Kind == "pay" && out.Err {
			c.Fail("C08", "payment fails", "Pay returned an error\n%s", fw.HistText(h))
		}
		if in.Kind == "topup" && in.Failed && in.Apierrs == 0 && c.Plan.Par("pexit") == 0 {
			c.Fail("C08", "top-up fails without reason", "%v\n%s", o, fw.HistText(h))
		}
	}
	if len(chans) > 1 {
		c.Fail("C08", "more than one channel to a recipient", "payer%d to payee%d uses %v\n%s", a, b, sortedStr(chans), fw.HistText(h))
	}
	if n := len(d.ch.Between(WalletN(a).Addr, WalletN(10+b).Addr)); n > 1 && !d.ambig[k] {
		c.Fail("C08", "more than one channel to a recipient", "payer%d opened %d channels to payee%d\n%s", a, n, b, fw.HistText(h))
	}
	for _, lk := range sortedStr(byLane) {
		l := byLane[lk]
		sort.SliceStable(l, func(i, j int) bool { return l[i].Out.(payOut).V.Nonce < l[j].Out.(payOut).V.Nonce })
		prev := int64(0)
		for i, o := range l {
			v := o.Out.(payOut).V
			if i > 0 && v.Nonce == l[i-1].Out.(payOut).V.Nonce {
				c.Fail("C08", "two vouchers with one sequence number", "lane %s\n%s", lk, fw.HistText(l))
				break
			}
			if v.Amount.Int64()-prev != o.In.(payIn).Amount {
				c.Fail("C08", "voucher amount wrong", "lane %s: %v after %d\n%s", lk, o, prev, fw.HistText(l))
				break
			}
			prev = v.Amount.Int64()
		}
	}
	type st struct {
		dep, red int64
	}
	m := fw.Model[st]{Key: func(s st) string { return fmt.Sprint(s) }, Next: func(s st, o *fw.HOp) []st {
		in, out := o.In.(payIn), o.Out.(payOut)
		if in.Kind == "topup" {
			if in.Failed {
				return []st{s}
			}
			return []st{{s.dep + in.Amount, s.red}}
		}
		if out.V != nil {
			if s.red+in.Amount > s.dep {
				return nil
			}
			return []st{{s.dep, s.red + in.Amount}}
		}
		if s.red+in.Amount <= s.dep {
			return nil
		}
		return []st{s}
	}}
	ok, dec := fw.Linearizable(m, h, 200000)
	if dec && !ok {
		c.Fail("C08", "payments fit no order of payments and top-ups", "payer%d to payee%d\n%s", a, b, fw.HistText(h))
	}
}

func init() {
	fw.Register(&fw.Scenario{Name: "pay", Gen: genPay, Run: runPay, After: afterPay, HangProp: []string{"C07", "C08"}, CrashProp: []string{"C07", "C08"},
		Real: []string{"common/pkg/fcrpaymentmgr", "lotus voucher encoding and signatures"}, Stub: []string{"lotus node and chain (simulated accounts, payment channel actors, mining delay)"}})
	fw.Checks["C07"] = []fw.Use{{Scenario: "pay", Weight: 1}}
	fw.Checks["C08"] = []fw.Use{{Scenario: "pay", Weight: 1}}
}
