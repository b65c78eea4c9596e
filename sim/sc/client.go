package sc

import (
	"bytes"
	"crypto/sha256"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"net/http"
	"sort"
	"strings"
	"time"

	"github.com/ConsenSys/fc-retrieval/client/pkg/fcrclient"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrregistermgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"

	"sim.local/h/fw"
	"sim.local/h/simrt"
)

// The real client library against gateways and providers that are scripted: they answer honestly, wrongly, late or not at
// all, with every key they own and everything they ever saw.

// keyN is the n-th fixed signing key.
type fixedKey struct {
	kp  *fcrcrypto.KeyPair
	pub string
	hex string
}

var keyPool []fixedKey

func keyN(n int) fixedKey { return keyPool[n%len(keyPool)] }

func init() {
	fw.BeforeRun = append(fw.BeforeRun, func(uint64) {
		for n := len(keyPool); n < 84; n++ {
			h := sha256.Sum256([]byte(fmt.Sprintf("signing key %d", n)))
			x := "01" + hex.EncodeToString(h[:])
			kp, err := fcrcrypto.DecodePrivateKey(x)
			if err != nil {
				panic(err)
			}
			pub, err := kp.EncodePublicKey()
			if err != nil {
				panic(err)
			}
			keyPool = append(keyPool, fixedKey{kp, pub, x})
		}
	})
}

const (
	cliOffers = iota
	cliSets
	cliSession
	cliSpending
)

type cliGw struct {
	i    int
	id   *nodeid.NodeID
	ids  string
	key  fixedKey
	node *simrt.Node
	reg  register.GatewayRegister
	seen [][]byte // its own signed messages so far
}

type cliProv struct {
	id  *nodeid.NodeID
	ids string
	key fixedKey
	reg register.ProviderRegister
}

type cliOffer struct {
	off    *cidoffer.CIDOffer
	digest string
	prov   int
	cids   []int
	gws    map[int]bool
}

// cliCall is one find-offers call in progress.
type cliCall struct {
	kind     string
	cid      int
	gw       int
	outerBad bool              // the entry gateway misbehaved
	evil     int               // misbehaving answers within the call
	want     map[string]string // gateway -> genuine offers delivered
	skip     map[string]bool   // gateways whose part misbehaved
	total    int
	hits     int
	// what it pays
	searches, bought, demands int
	numDHT, nlist             int64
	limit                     int
	listed                    map[string]int // gateway and digest
	overlaps                  int64          // paid calls on the same gateway meanwhile
}

type proof struct {
	gw    int
	seq   uint64
	inc   int
	slack int64 // seconds left of its time-to-live
	by    *cliCall
}

type cliWorld struct {
	c        *fw.Ctx
	mode     int64
	gws      []*cliGw
	provs    []*cliProv
	cids     []*cid.ContentID
	offers   []*cliOffer
	evilO    []json.RawMessage
	n        *simrt.Node
	cl       *fcrclient.FilecoinRetrievalClient
	rm       *fcrregistermgr.FCRRegisterMgr
	reg      *simrt.Node
	r        *simrt.PRNG
	quiet    bool
	ttl      int64
	h        map[int][]fw.HOp
	proofs   []proof
	chal     map[string]bool
	signed   map[string]int // genuine establishment answers -> gateway
	last     map[int]string // last challenge that reached a gateway
	byCid    map[string]int
	hits     map[string]int // requests per content and gateway
	busy     int
	sp       *cliSpendState
	chainBad bool
}

func genClient(mode int64) func(r *simrt.PRNG, p *fw.Plan) {
	return func(r *simrt.PRNG, p *fw.Plan) {
		knobs(r, p)
		p.MaxTime = 12 * time.Hour
		p.P["mode"] = mode
		ng := 1 + r.N(5)
		th := 1 + r.N(4)
		p.P["gws"], p.P["provs"], p.P["cids"], p.P["offers"] = int64(ng), int64(1+r.N(3)), int64(1+r.N(4)), int64(r.N(9))
		p.P["seed"] = r.I64(1 << 40)
		p.P["lat"] = int64([]int{0, 5, 100, 2000}[r.N(4)])
		p.P["ttl"] = []int64{1, 5, 100}[r.N(3)]
		p.P["evil"] = int64([]int{0, 100, 300, 600, 900}[r.N(5)])
		n := 3 + r.N(15)
		if mode == cliSpending {
			p.P["evil"] = int64([]int{0, 0, 150, 500}[r.N(4)])
			p.P["search"], p.P["offer"] = 1+r.I64(40), 1+r.I64(60)
			p.P["topup"] = []int64{1 + r.I64(60), 100 + r.I64(900), 100_000}[r.N(3)]
			p.P["chain"] = int64([]int{0, 0, 30, 200}[r.N(4)])
			p.P["th"] = int64(th)
		}
		if mode == cliOffers || mode == cliSpending {
			p.P["ttl"] = 100
			for i := 0; i < n; i++ {
				t, g, k := int64(r.N(th)), int64(r.N(ng)), int64(r.N(int(p.P["cids"])+1))
				w := []int{4, 6, 4, 6, 3}
				if mode == cliSpending {
					w = []int{1, 1, 10, 10, 0}
				}
				switch r.Weighted(w) {
				case 0:
					p.Ops = append(p.Ops, fw.Op{K: "find1", A: []int64{t, g, k}})
				case 1:
					p.Ops = append(p.Ops, fw.Op{K: "dht1", A: []int64{t, g, k, int64(1 + r.N(6))}})
				case 2:
					p.Ops = append(p.Ops, fw.Op{K: "find2", A: []int64{t, g, k, int64(r.N(12))}})
				case 3:
					p.Ops = append(p.Ops, fw.Op{K: "dht2", A: []int64{t, g, k, int64(1 + r.N(6)), int64([]int{0, 1, 2, 5, 100}[r.N(5)])}})
				case 4:
					p.Ops = append(p.Ops, fw.Op{K: "ack", A: []int64{t, g, k, int64(r.N(int(p.P["provs"])))}})
				}
			}
			return
		}
		if mode == cliSets {
			if r.P(0.5) {
				p.P["evil"] = 0
			}
			p.P["offers"] = int64(r.N(3))
			n = 4 + r.N(26)
		}
		for i := 0; i < n; i++ {
			t, g := int64(r.N(th)), int64(r.N(ng+1))
			// several gateways in one call
			ids := []int64{t, g}
			for r.P(0.25) {
				ids = append(ids, int64(r.N(ng+1)))
			}
			w := []int{6, 3, 1, 3, 10, 3, 1, 3, 6, 1, 0}
			if mode == cliSession {
				w = []int{6, 1, 0, 0, 16, 4, 1, 3, 1, 2, 2}
			}
			switch r.Weighted(w) {
			case 0:
				p.Ops = append(p.Ops, fw.Op{K: "use", A: ids})
			case 1:
				p.Ops = append(p.Ops, fw.Op{K: "unuse", A: ids})
			case 2:
				p.Ops = append(p.Ops, fw.Op{K: "unuseall", A: []int64{t}})
			case 3:
				p.Ops = append(p.Ops, fw.Op{K: "used", A: []int64{t}})
			case 4:
				p.Ops = append(p.Ops, fw.Op{K: "act", A: ids})
			case 5:
				p.Ops = append(p.Ops, fw.Op{K: "unact", A: ids})
			case 6:
				p.Ops = append(p.Ops, fw.Op{K: "unactall", A: []int64{t}})
			case 7:
				p.Ops = append(p.Ops, fw.Op{K: "active", A: []int64{t}})
			case 8:
				p.Ops = append(p.Ops, fw.Op{K: "search", A: []int64{t, g, int64(i)}})
			case 9:
				p.Ops = append(p.Ops, fw.Op{K: "sleep", A: []int64{t, r.I64(20000)}})
			case 10:
				p.Ops = append(p.Ops, fw.Op{K: "restart", A: []int64{t}})
			}
		}
		if mode == cliSession {
			for i := range p.Ops {
				p.Ops[i].A[0] = p.Ops[i].A[0] % 2
			}
		}
	}
}

// --- the register

func (d *cliWorld) serveRegister(w http.ResponseWriter, r *http.Request) {
	if strings.Contains(r.URL.Path, "/provider") {
		var l []register.ProviderRegister
		for _, p := range d.provs {
			l = append(l, p.reg)
		}
		json.NewEncoder(w).Encode(l)
		return
	}
	var l []register.GatewayRegister
	for _, g := range d.gws {
		l = append(l, g.reg)
	}
	json.NewEncoder(w).Encode(l)
}

// --- honest answers

func (d *cliWorld) genuine(gw, k int) (subs []cidoffer.SubCIDOffer, digests []string, keys []string) {
	for _, o := range d.offers {
		if !o.gws[gw] {
			continue
		}
		for _, x := range o.cids {
			if x == k {
				so, err := o.off.GenerateSubCIDOffer(d.cids[k])
				if err != nil {
					panic(err)
				}
				subs = append(subs, *so)
				digests = append(digests, o.digest)
				keys = append(keys, subKey(so))
				break
			}
		}
	}
	return
}

// subKey names what was signed, and the content.
func subKey(o *cidoffer.SubCIDOffer) string {
	if o.GetProviderID() == nil || o.GetSubCID() == nil {
		return "offer without provider or content"
	}
	return fmt.Sprintf("%s %s %s %d %d %d", o.GetProviderID().ToString(), o.GetSubCID().ToString(), o.GetMerkleRoot(), o.GetPrice(), o.GetExpiry(), o.GetQoS())
}

func sortedJoin(l []string) string {
	l = append([]string(nil), l...)
	sort.Strings(l)
	return strings.Join(l, "\n")
}

func (g *cliGw) sign(m *fcrmessages.FCRMessage) *fcrmessages.FCRMessage {
	m.Sign(g.key.kp, fcrcrypto.InitialKeyVersion())
	if b, err := m.FCRMsgToBytes(); err == nil && len(g.seen) < 40 {
		g.seen = append(g.seen, b)
	}
	return m
}

func (d *cliWorld) cidIdx(x *cid.ContentID) int {
	if i, ok := d.byCid[x.ToString()]; ok {
		return i
	}
	return -1
}

func funded(n int) []bool { return make([]bool, n) }

// subAnswer is what contacted gateway g signs for the entry gateway; bad when it misbehaves.
func (d *cliWorld) subAnswer(g *cliGw, typ int32, k int, x *cid.ContentID, nonce int64, ask []string) (m *fcrmessages.FCRMessage, bad bool) {
	subs, digs, _ := d.genuine(g.i, k)
	switch typ {
	case fcrmessages.GatewayDHTDiscoverResponseType:
		m, _ = fcrmessages.EncodeGatewayDHTDiscoverResponse(x, nonce, len(subs) > 0, subs, funded(len(subs)))
	case fcrmessages.GatewayDHTDiscoverResponseV2Type:
		m, _ = fcrmessages.EncodeGatewayDHTDiscoverResponseV2(x, nonce, len(digs) > 0, digs, funded(len(digs)), false, "")
	case fcrmessages.GatewayDHTDiscoverOfferResponseType:
		var out []cidoffer.SubCIDOffer
		for _, a := range ask {
			for i := range subs {
				if digs[i] == a {
					out = append(out, subs[i])
				}
			}
		}
		m, _ = fcrmessages.EncodeGatewayDHTDiscoverOfferResponse(x, nonce, len(out) > 0, out, funded(len(out)), false, "")
	}
	g.sign(m)
	if d.evil("evil-sub-answer") {
		return d.twist(g, m), true
	}
	return m, false
}

func (d *cliWorld) evil(kind string) bool {
	return !d.quiet && d.c.Fault(d.r, kind, float64(d.c.Plan.Par("evil"))/1000)
}

// honest makes the answer of g to a request.
func (d *cliWorld) honest(g *cliGw, q *fcrmessages.FCRMessage, call *cliCall) *fcrmessages.FCRMessage {
	c := d.c
	now := c.TimeOn(g.node).Unix()
	switch q.GetMessageType() {
	case fcrmessages.ClientEstablishmentRequestType:
		_, ch, ttl, err := fcrmessages.DecodeClientEstablishmentRequest(q)
		if err != nil || now > ttl {
			return nil
		}
		return d.proofOf(g, ch)
	case fcrmessages.ClientStandardDiscoverRequestType:
		x, nonce, ttl, _, _, err := fcrmessages.DecodeClientStandardDiscoverRequest(q)
		if err != nil || now > ttl {
			return nil
		}
		subs, _, _ := d.genuine(g.i, d.cidIdx(x))
		m, _ := fcrmessages.EncodeClientStandardDiscoverResponse(x, nonce, len(subs) > 0, subs, funded(len(subs)))
		return g.sign(m)
	case fcrmessages.ClientStandardDiscoverRequestV2Type:
		x, nonce, ttl, _, _, err := fcrmessages.DecodeClientStandardDiscoverRequestV2(q)
		if err != nil || now > ttl {
			return nil
		}
		_, digs, _ := d.genuine(g.i, d.cidIdx(x))
		m, _ := fcrmessages.EncodeClientStandardDiscoverResponseV2(x, nonce, len(digs) > 0, digs, funded(len(digs)), false, "")
		return g.sign(m)
	case fcrmessages.ClientStandardDiscoverOfferRequestType:
		x, nonce, ttl, ask, _, _, err := fcrmessages.DecodeClientStandardDiscoverOfferRequest(q)
		if err != nil || now > ttl {
			return nil
		}
		subs, digs, _ := d.genuine(g.i, d.cidIdx(x))
		var out []cidoffer.SubCIDOffer
		for _, a := range ask {
			for i := range subs {
				if digs[i] == a {
					out = append(out, subs[i])
				}
			}
		}
		m, _ := fcrmessages.EncodeClientStandardDiscoverOfferResponse(x, nonce, len(out) > 0, out, funded(len(out)), false, "")
		return g.sign(m)
	case fcrmessages.ClientDHTDiscoverRequestType, fcrmessages.ClientDHTDiscoverRequestV2Type:
		v2 := q.GetMessageType() == fcrmessages.ClientDHTDiscoverRequestV2Type
		var x *cid.ContentID
		var nonce, ttl, num int64
		var err error
		if v2 {
			x, nonce, ttl, num, _, _, _, err = fcrmessages.DecodeClientDHTDiscoverRequestV2(q)
		} else {
			x, nonce, ttl, num, _, _, _, err = fcrmessages.DecodeClientDHTDiscoverRequest(q)
		}
		if err != nil || now > ttl {
			return nil
		}
		k := d.cidIdx(x)
		var ids, un []nodeid.NodeID
		var ms []fcrmessages.FCRMessage
		for _, i := range d.r.Perm(len(d.gws)) {
			o := d.gws[i]
			if int64(len(ids)+len(un)) >= num {
				break
			}
			if d.r.P(0.1) {
				un = append(un, *o.id)
				continue
			}
			typ := int32(fcrmessages.GatewayDHTDiscoverResponseType)
			if v2 {
				typ = fcrmessages.GatewayDHTDiscoverResponseV2Type
			}
			m, bad := d.subAnswer(o, typ, k, x, nonce, nil)
			ids, ms = append(ids, *o.id), append(ms, *m)
			_, digs, keys := d.genuine(o.i, k)
			if call != nil {
				if bad {
					call.skip[o.ids] = true
					call.evil++
					if _, _, found, dg, _, _, _, err := fcrmessages.DecodeGatewayDHTDiscoverResponseV2(m); v2 && err == nil && found {
						call.total += len(dg) // may count towards the limit
					}
				} else {
					call.total += len(digs)
					call.want[o.ids] = sortedJoin(keys)
				}
			}
		}
		var m *fcrmessages.FCRMessage
		if v2 {
			m, _ = fcrmessages.EncodeClientDHTDiscoverResponseV2(ids, ms, un, nonce, false, "")
		} else {
			m, _ = fcrmessages.EncodeClientDHTDiscoverResponse(ids, ms, un, nonce, false, "")
		}
		return g.sign(m)
	case fcrmessages.ClientDHTDiscoverOfferRequestType:
		x, nonce, digs, gids, _, _, err := fcrmessages.DecodeClientDHTDiscoverOfferRequest(q)
		if err != nil || len(digs) > len(gids) {
			return nil
		}
		k := d.cidIdx(x)
		var ids []nodeid.NodeID
		var ms []fcrmessages.FCRMessage
		for i := range digs {
			for _, o := range d.gws {
				if o.ids == gids[i].ToString() {
					m, bad := d.subAnswer(o, fcrmessages.GatewayDHTDiscoverOfferResponseType, k, x, nonce, digs[i])
					ids, ms = append(ids, *o.id), append(ms, *m)
					if bad && call != nil {
						call.skip[o.ids] = true
						call.evil++
					}
				}
			}
		}
		m, _ := fcrmessages.EncodeClientDHTDiscoverOfferResponse(x, nonce, ids, ms, false, "")
		return g.sign(m)
	}
	return nil
}

// proofOf is the genuine establishment answer of g.
func (d *cliWorld) proofOf(g *cliGw, ch string) *fcrmessages.FCRMessage {
	m, _ := fcrmessages.EncodeClientEstablishmentResponse(g.id, ch)
	return g.sign(m)
}

// --- misbehaviour

func raw(m *fcrmessages.FCRMessage) []byte { b, _ := m.FCRMsgToBytes(); return b }

// twist is a well-formed message that is wrong in some way.
func (d *cliWorld) twist(g *cliGw, m *fcrmessages.FCRMessage) *fcrmessages.FCRMessage {
	r := d.r
	body := m.GetMessageBody()
	typ := m.GetMessageType()
	w := []int{10, 10, 2, 2, 2, 2, 2, 2}
	if d.sp != nil {
		w = append(w, 60)
	}
	switch r.Weighted(w) {
	case 8: // wants money
		var o map[string]any
		if unjson(body, &o) == nil {
			d.greedy(o)
			body, _ = json.Marshal(o)
		}
	case 0: // other offers, signed properly
		var o map[string]any
		if unjson(body, &o) == nil {
			l, _ := o["sub_cid_offers"].([]any)
			if _, ok := o["sub_cid_offers"]; ok {
				for i := 0; i < 1+r.N(3) && len(d.evilO) > 0; i++ {
					var v any
					unjson(d.evilO[r.N(len(d.evilO))], &v)
					at := r.N(len(l) + 1)
					l = append(l[:at:at], append([]any{v}, l[at:]...)...)
				}
				if r.P(0.3) && len(l) > 0 {
					l = append(l, l[r.N(len(l))])
				}
				o["sub_cid_offers"] = l
				o["found"] = true
				fl := make([]any, len(l))
				for i := range fl {
					fl[i] = false
				}
				o["funded_payment_channel"] = fl
				body, _ = json.Marshal(o)
			} else {
				body = d.mutate(body)
			}
		}
	case 1: // a field changed, signed properly
		body = d.mutate(body)
	case 2: // unsigned
		return fcrmessages.CreateFCRMessage(typ, body)
	case 3: // signed by somebody else
		m = fcrmessages.CreateFCRMessage(typ, body)
		m.Sign(keyN(40+r.N(4)).kp, fcrcrypto.InitialKeyVersion())
		return m
	case 4: // of another type
		typ = int32(100 + r.N(16))
	case 5: // something said before
		if len(g.seen) > 0 {
			if x, err := fcrmessages.FCRMsgFromBytes(g.seen[r.N(len(g.seen))]); err == nil {
				return x
			}
		}
	case 6: // says: pay, nothing found
		var o map[string]any
		if unjson(body, &o) == nil {
			if r.P(0.5) {
				o["payment_required"] = true
				o["payment_channel"] = []string{"", "junk", WalletN(9).Addr.String()}[r.N(3)]
			} else {
				o["found"] = false
			}
			body, _ = json.Marshal(o)
		}
	case 7: // altered after signing
		b := raw(m)
		var o map[string]any
		if unjson(b, &o) == nil {
			switch r.N(4) {
			case 0:
				o["message_body"] = base64.StdEncoding.EncodeToString(d.mutate(body))
			case 1:
				s, _ := o["message_signature"].(string)
				o["message_signature"] = []string{"", s[:len(s)/2], s + "00", strings.Repeat("f", len(s)), "zz" + s, s[:8]}[r.N(6)]
			case 2:
				o["protocol_version"] = r.N(5)
			case 3:
				o["message_type"] = 100 + r.N(16)
			}
			nb, _ := json.Marshal(o)
			if x, err := fcrmessages.FCRMsgFromBytes(nb); err == nil {
				return x
			}
		}
	}
	m = fcrmessages.CreateFCRMessage(typ, body)
	m.Sign(g.key.kp, fcrcrypto.InitialKeyVersion())
	return m
}

// mutate changes a JSON document somewhere.
func (d *cliWorld) mutate(body []byte) []byte {
	return mutateJSON(d.r, body, d.gws[d.r.N(len(d.gws))].ids)
}

// mutateJSON damages a JSON text.
func mutateJSON(r *simrt.PRNG, body []byte, id string) []byte {
	if r.P(0.05) {
		return [][]byte{nil, []byte("null"), []byte("{}"), []byte("[]"), []byte(`""`), body[:len(body)/2], bytes.Repeat([]byte("["), 2000)}[r.N(7)]
	}
	dec := json.NewDecoder(bytes.NewReader(body))
	dec.UseNumber()
	var v any
	if dec.Decode(&v) != nil {
		return body
	}
	for n := 1 + r.N(2); n > 0; n-- {
		v = mutAny(r, id, v, 0)
	}
	b, err := json.Marshal(v)
	if err != nil {
		return body
	}
	return b
}

func oddJSON(r *simrt.PRNG, id string) any {
	return []any{nil, "", 0, -1, true, []any{}, map[string]any{}, "zz", "00", strings.Repeat("ab", 40), json.Number("1e400"), json.Number("18446744073709551615"), []any{nil}, []any{"", "x"}, base64.StdEncoding.EncodeToString([]byte("x")), id}[r.N(16)]
}

func mutAny(r *simrt.PRNG, id string, v any, depth int) any {
	switch x := v.(type) {
	case map[string]any:
		if len(x) == 0 || (depth > 0 && r.P(0.05)) {
			return oddJSON(r, id)
		}
		k := sortedStr(x)[r.N(len(x))]
		switch r.N(6) {
		case 0:
			delete(x, k)
		case 1:
			x[k] = oddJSON(r, id)
		default:
			x[k] = mutAny(r, id, x[k], depth+1)
		}
		return x
	case []any:
		if len(x) == 0 {
			return []any{oddJSON(r, id)}
		}
		i := r.N(len(x))
		switch r.N(7) {
		case 0:
			return append(x[:i:i], x[i+1:]...)
		case 1:
			return append(x, x[i])
		case 2:
			x[i] = oddJSON(r, id)
		case 3:
			return []any{}
		case 4:
			j := r.N(len(x))
			x[i], x[j] = x[j], x[i]
		default:
			x[i] = mutAny(r, id, x[i], depth+1)
		}
		return x
	case string:
		if x == "" || r.P(0.2) {
			return oddJSON(r, id)
		}
		b := []byte(x)
		switch r.N(3) {
		case 0:
			b[r.N(len(b))] = "0123456789abcdefABCz="[r.N(21)]
		case 1:
			b = b[:r.N(len(b))]
		case 2:
			b = append(b, b[r.N(len(b))])
		}
		return string(b)
	case json.Number:
		n, _ := x.Int64()
		return []any{0, -1, n + 1, n - 1, n * 2, json.Number("9223372036854775807"), json.Number("9223372036854775808"), "7", 1.5}[r.N(9)]
	}
	return oddJSON(r, id)
}

// evilOffers prepares offers that nobody may accept for the content they are given for.
func (d *cliWorld) evilOffers() {
	r := d.r
	add := func(m map[string]any) { b, _ := json.Marshal(m); d.evilO = append(d.evilO, b) }
	d.evilO = append(d.evilO, json.RawMessage("null"), json.RawMessage("{}"))
	for _, o := range d.offers {
		k := o.cids[r.N(len(o.cids))]
		so, err := o.off.GenerateSubCIDOffer(d.cids[k])
		if err != nil {
			continue
		}
		b, _ := json.Marshal(so)
		get := func() map[string]any {
			dec := json.NewDecoder(bytes.NewReader(b))
			dec.UseNumber()
			var m map[string]any
			dec.Decode(&m)
			return m
		}
		other := d.cids[r.N(len(d.cids))]
		m := get()
		add(m) // genuine, perhaps for other content
		m = get()
		m["sub_cid"] = other.ToString()
		add(m)
		for _, f := range []string{"price", "expiry", "qos"} {
			m = get()
			m[f] = []any{0, 1, json.Number("18446744073709551615")}[r.N(3)]
			if f == "expiry" {
				m[f] = []any{0, 1, json.Number("9223372036854775807")}[r.N(3)]
			}
			add(m)
		}
		m = get()
		m["provider_id"] = []any{"", "zz", "00", strings.Repeat("1", 70), d.gws[0].ids, d.provs[r.N(len(d.provs))].ids, nil, 5}[r.N(8)]
		add(m)
		m = get()
		m["signature"] = []any{"", "00", "zz", "00000001", strings.Repeat("0", 138), nil}[r.N(6)]
		add(m)
		m = get()
		m["merkle_root"] = []any{"", "zz", other.ToString(), nil}[r.N(4)]
		add(m)
		m = get()
		m["sub_cid"] = []any{"", "zz", strings.Repeat("1", 70), nil}[r.N(4)]
		add(m)
		m = get()
		m["merkle_proof"] = d.oddProof(so)
		add(m)
		// forged by a provider or a stranger over other content
		for _, kk := range []fixedKey{keyN(41), d.provs[r.N(len(d.provs))].key} {
			f, err := cidoffer.NewCIDOffer(d.provs[o.prov].id, []cid.ContentID{*other, *d.cids[k]}, 1, o.off.GetExpiry(), 1)
			if err != nil || kk.pub == d.provs[o.prov].key.pub {
				continue
			}
			f.Sign(kk.kp, fcrcrypto.InitialKeyVersion())
			if fs, err := f.GenerateSubCIDOffer(d.cids[k]); err == nil {
				fb, _ := json.Marshal(fs)
				d.evilO = append(d.evilO, fb)
			}
		}
	}
}

// oddProof builds proofs of odd shapes.
func (d *cliWorld) oddProof(o *cidoffer.SubCIDOffer) any {
	r := d.r
	enc := func(path, index string) any {
		b := make([]byte, 4)
		binary.BigEndian.PutUint32(b, uint32(len(path)))
		b = append(b, path...)
		l := make([]byte, 4)
		binary.BigEndian.PutUint32(l, uint32(len(index)))
		return append(append(b, l...), index...)
	}
	p := `["` + base64.StdEncoding.EncodeToString(o.GetSubCID().ToBytes()) + `","AAAA"]`
	switch r.N(10) {
	case 0:
		return nil
	case 1:
		return ""
	case 2:
		return enc(p, "[]")
	case 3:
		return enc(p, "[1]")
	case 4:
		return enc("null", "null")
	case 5:
		return enc("[]", "[]")
	case 6:
		return enc("[null,null]", "[0,1]")
	case 7:
		return enc(p, "[1,7]")
	case 8:
		return base64.StdEncoding.EncodeToString([]byte{0xff, 0xff, 0xff, 0xff, 1, 2, 3})
	}
	return base64.StdEncoding.EncodeToString([]byte{0, 0, 0, 1, '[', 0xff, 0xff, 0xff, 0xff, 1})
}

// --- the gateways' port for clients

func (d *cliWorld) gwHandler(g *cliGw) http.HandlerFunc {
	return func(w http.ResponseWriter, rq *http.Request) {
		c := d.c
		body, _ := io.ReadAll(rq.Body)
		q, err := fcrmessages.FCRMsgFromBytes(body)
		if err != nil {
			w.WriteHeader(400)
			return
		}
		ev, _ := simrt.Cur().Tag.(*simrt.HTTPEvent)
		var call *cliCall
		if ev != nil {
			call, _ = ev.By.(*cliCall)
		}
		est := q.GetMessageType() == fcrmessages.ClientEstablishmentRequestType
		if est {
			if _, ch, _, err := fcrmessages.DecodeClientEstablishmentRequest(q); err == nil {
				d.challenge(g, ch)
			}
		} else if call != nil && call.gw == g.i {
			call.hits++
		}
		if l := c.Plan.Par("lat"); l > 0 && !d.quiet {
			c.SleepFor(time.Duration(1+d.r.I64(l)) * time.Millisecond)
		}
		if d.sp != nil && !est {
			d.spent(g, q, call)
		}
		bad := false
		if est {
			bad = d.mode != cliOffers && d.mode != cliSpending && d.evil("evil-establishment")
		} else {
			bad = d.mode != cliSets && d.evil("evil-answer")
		}
		again := !est && d.sp != nil && call != nil && call.demands > 0 && !d.quiet && d.c.Fault(d.r, "demands-again", 0.6)
		var m *fcrmessages.FCRMessage
		if est && bad {
			m = d.fakeProof(w, g, q)
		} else {
			m = d.honest(g, q, call)
			if again {
				call.outerBad = true
				call.evil++
				if m != nil {
					m = d.demand(g, m)
				}
			} else if bad {
				if call != nil {
					call.outerBad = true
					call.evil++
				}
				c.Probe("outer-misbehaviour")
				switch d.r.Weighted([]int{12, 1, 1, 1, 1, 1, 1, 1}) {
				case 0:
					if m != nil {
						m = d.twist(g, m)
					}
				case 1:
					w.WriteHeader([]int{500, 404, 302, 204}[d.r.N(4)])
				case 2:
					w.Write([]byte([]string{"", "null", "[]", "{", "{}", "\x00", `{"message_body":"!!"}`, `{"message_type":"x"}`}[d.r.N(8)]))
					return
				case 3:
					c.SleepFor(time.Duration(d.r.N(200)) * time.Second)
				case 4:
					w.Write(body) // the request, mirrored
					return
				case 5:
					panic("connection dropped")
				case 6:
					if b := raw(m); m != nil {
						w.Write(b[:d.r.N(len(b))])
						return
					}
				case 7: // mirrored, and signed
					m, _ = fcrmessages.FCRMsgFromBytes(body)
					m.Sign(g.key.kp, fcrcrypto.InitialKeyVersion())
				}
			}
		}
		if m == nil {
			return
		}
		b := raw(m)
		w.Write(b)
	}
}

// challenge notes what a client asked.
func (d *cliWorld) challenge(g *cliGw, ch string) {
	key := fmt.Sprintf("%s", ch)
	if d.chal[key] && d.last[g.i] != ch {
		d.c.Fail("C21", "a challenge is used twice", "%s to gateway %d", ch, g.i)
	} else if d.chal[key] {
		d.c.Fail("C21", "a challenge is used twice", "%s to gateway %d again", ch, g.i)
	}
	d.chal[key] = true
	d.last[g.i] = ch
}

// sigCore is the part of a signature that matters: neither the key version nor the recovery byte is checked by anybody.
func sigCore(s string) string {
	b, err := hex.DecodeString(s)
	if err != nil || (len(b) != 4+64 && len(b) != 4+65) {
		return "? " + s
	}
	return hex.EncodeToString(b[4 : 4+64])
}

func estKey(m *fcrmessages.FCRMessage) string {
	v := m.GetProtocolVersion()
	s := sigCore(m.GetSignature())
	return fmt.Sprintf("%d %d %v %s %s", m.GetMessageType(), v, m.GetProtocolSupported(), m.GetMessageBody(), s)
}

// genuineProof tells whether b is g's own answer to the challenge.
func (d *cliWorld) genuineProof(g *cliGw, ch string, b []byte) bool {
	m, err := fcrmessages.FCRMsgFromBytes(b)
	if err != nil {
		return false
	}
	x, _ := fcrmessages.EncodeClientEstablishmentResponse(g.id, ch)
	x.Sign(g.key.kp, fcrcrypto.InitialKeyVersion())
	return estKey(x) == estKey(m)
}

// fakeProof is what a misbehaving party at g's address answers to a challenge.
func (d *cliWorld) fakeProof(w http.ResponseWriter, g *cliGw, q *fcrmessages.FCRMessage) *fcrmessages.FCRMessage {
	r, c := d.r, d.c
	_, ch, _, err := fcrmessages.DecodeClientEstablishmentRequest(q)
	if err != nil {
		return nil
	}
	other := d.gws[r.N(len(d.gws))]
	switch r.N(16) {
	case 0: // an earlier answer
		if len(g.seen) > 0 {
			m, _ := fcrmessages.FCRMsgFromBytes(g.seen[r.N(len(g.seen))])
			return m
		}
	case 1: // the request, mirrored
		m, _ := fcrmessages.FCRMsgFromBytes(raw(q))
		return m
	case 2: // another gateway's answer to the challenge
		return d.proofOf(other, ch)
	case 3: // signed by another gateway in g's name
		m, _ := fcrmessages.EncodeClientEstablishmentResponse(g.id, ch)
		if other != g {
			m.Sign(other.key.kp, fcrcrypto.InitialKeyVersion())
		}
		return m
	case 4: // g's answer to a challenge that differs a little
		b := []byte(ch)
		switch r.N(5) {
		case 0:
			b[r.N(len(b))] ^= 1
		case 1:
			b = b[:len(b)-1-r.N(len(b)-1)]
		case 2:
			b = nil
		case 3:
			b = bytes.ToLower(b)
		case 4:
			b = append(b, 'A')
		}
		if string(b) == ch {
			return nil
		}
		return d.proofOf(g, string(b))
	case 5: // unsigned
		m, _ := fcrmessages.EncodeClientEstablishmentResponse(g.id, ch)
		return m
	case 6: // of another type, with the same content
		m, _ := fcrmessages.EncodeClientEstablishmentResponse(g.id, ch)
		m = fcrmessages.CreateFCRMessage(int32(100+2*r.N(8)), m.GetMessageBody())
		m.Sign(g.key.kp, fcrcrypto.InitialKeyVersion())
		return m
	case 7: // genuine, late
		c.SleepFor(time.Duration(1+d.r.N(150)) * time.Second)
		return d.proofOf(g, ch)
	case 8: // genuine, of another gateway at this address
		m, _ := fcrmessages.EncodeClientEstablishmentResponse(other.id, ch)
		if other != g {
			m.Sign(g.key.kp, fcrcrypto.InitialKeyVersion())
		}
		return m
	case 9:
		w.WriteHeader(500)
		return d.proofOf(g, ch)
	case 10:
		w.Write([]byte("null"))
		return nil
	case 11: // signed by a stranger
		m, _ := fcrmessages.EncodeClientEstablishmentResponse(g.id, ch)
		m.Sign(keyN(42).kp, fcrcrypto.InitialKeyVersion())
		return m
	case 12: // altered after signing
		m := d.proofOf(g, ch)
		var o map[string]any
		unjson(raw(m), &o)
		switch r.N(4) {
		case 0:
			o["protocol_version"] = 2
		case 1:
			o["protocol_supported"] = []int{1, 2}
		case 2:
			s := []byte(o["message_signature"].(string))
			i := 8 + r.N(len(s)-8)
			s[i] = "0123456789abcdef"[(strings.IndexByte("0123456789abcdef", s[i])+1+r.N(15))%16]
			o["message_signature"] = string(s)
		case 3:
			x, _ := fcrmessages.EncodeClientEstablishmentResponse(g.id, ch+" ")
			o["message_body"] = x.GetMessageBody()
		}
		b, _ := json.Marshal(o)
		x, err := fcrmessages.FCRMsgFromBytes(b)
		if err != nil {
			return nil
		}
		return x
	case 13: // the last challenge of this gateway answered again
		if o := d.last[other.i]; o != ch {
			return d.proofOf(g, o)
		}
		return nil
	case 14:
		panic("connection dropped")
	case 15: // relayed to the real gateway
		return d.proofOf(g, ch)
	}
	return nil
}

// --- providers' port for clients: acknowledgement queries

func (d *cliWorld) provHandler(p *cliProv) http.HandlerFunc {
	return func(w http.ResponseWriter, rq *http.Request) {
		r := d.r
		body, _ := io.ReadAll(rq.Body)
		q, err := fcrmessages.FCRMsgFromBytes(body)
		if err != nil {
			return
		}
		x, gid, err := fcrmessages.DecodeClientDHTOfferAckRequest(q)
		if err != nil {
			return
		}
		g := d.gws[r.N(len(d.gws))]
		for _, o := range d.gws {
			if o.ids == gid.ToString() {
				g = o
			}
		}
		pg := &cliGw{key: p.key, ids: p.ids, id: p.id}
		o, err := cidoffer.NewCIDOffer(p.id, []cid.ContentID{*x}, 5, d.c.TimeOn(nil).Unix()+1000, 5)
		if err != nil {
			return
		}
		o.Sign(p.key.kp, fcrcrypto.InitialKeyVersion())
		req, _ := fcrmessages.EncodeProviderPublishDHTOfferRequest(p.id, 7, []cidoffer.CIDOffer{*o})
		pg.sign(req)
		if d.evil("evil-ack") {
			req = d.twist(pg, req)
		}
		sig, _ := fcrcrypto.SignMessage(g.key.kp, fcrcrypto.InitialKeyVersion(), req.GetMessageBody())
		res, _ := fcrmessages.EncodeProviderPublishDHTOfferResponse(7, sig)
		g.sign(res)
		if d.evil("evil-ack") {
			res = d.twist(g, res)
		}
		m, _ := fcrmessages.EncodeClientDHTOfferAckResponse(x, gid, true, req, res)
		if m == nil {
			return
		}
		pg.sign(m)
		if d.evil("evil-ack") {
			m = d.twist(pg, m)
		}
		w.Write(raw(m))
	}
}

// --- the client

func (d *cliWorld) boot() bool {
	c := d.c
	d.cl, d.rm = nil, nil
	done := false
	c.Boot(d.n, "client", func() {
		rm := fcrregistermgr.NewFCRRegisterMgr("http://register:9020", true, true, time.Minute)
		if err := rm.Start(); err != nil {
			c.Err("register manager: %v", err)
			return
		}
		b := fcrclient.CreateSettings()
		b.SetLogging("panic", "STDOUT", "client")
		b.SetEstablishmentTTL(d.ttl)
		b.SetRegisterURL("http://register:9020")
		b.SetBlockchainPrivateKey(keyN(46).kp)
		b.SetRetrievalPrivateKey(keyN(47).kp, fcrcrypto.InitialKeyVersion())
		b.SetWalletPrivateKey(WalletN(0).Hex)
		b.SetLotusAP("http://lotus")
		b.SetLotusAuthToken("token")
		if d.sp != nil {
			b.SetSearchPrice(big.NewInt(d.sp.search))
			b.SetOfferPrice(big.NewInt(d.sp.offer))
			b.SetTopUpAmount(big.NewInt(d.sp.topup))
		} else {
			b.SetSearchPrice(big.NewInt(10))
			b.SetOfferPrice(big.NewInt(20))
			b.SetTopUpAmount(new(big.Int).Mul(big.NewInt(1_000_000_000_000_000), big.NewInt(1000)))
		}
		cl, err := fcrclient.NewFilecoinRetrievalClient(*b.Build(), rm)
		if err != nil {
			c.Err("client: %v", err)
			return
		}
		d.rm, d.cl = rm, cl
		done = true
	})
	return c.WaitUntil(time.Minute, time.Millisecond, func() bool { return done || !d.n.Alive }) && done
}

func (d *cliWorld) idOf(i int64) *nodeid.NodeID {
	if int(i) < len(d.gws) {
		return d.gws[i].id
	}
	return provN(5) // not registered
}

type setOp struct {
	K string
}

func (o setOp) String() string { return o.K }

type setState struct{ use, act bool }

// setNext is one gateway in the client's two sets. Out: 1/0 for what the call reported about this gateway, -1 unknown.
// An activation additionally needs proof (flag 4) - without it, it must fail.
func setNext(s setState, o *fw.HOp) []setState {
	out := o.Out.(int)
	known := func(v bool) bool { return out < 0 || (out&1 == 1) == v }
	t := s
	switch o.In.(setOp).K {
	case "use":
		if !known(!s.use) {
			return nil
		}
		t.use = true
	case "unuse":
		if !known(s.use) {
			return nil
		}
		t = setState{}
		if !s.use {
			t = s
		}
	case "unuseall":
		t = setState{}
	case "used":
		if !known(s.use) {
			return nil
		}
	case "act":
		if s.act || !s.use {
			if !known(false) {
				return nil
			}
			return []setState{s}
		}
		t.act = true
		switch out {
		case -1: // proven or not
			return []setState{s, t}
		case 0: // reported as not added: has to have failed
			return []setState{s}
		}
		return []setState{t}
	case "act!":
		if !s.act && s.use {
			return nil
		}
	case "unact":
		if !known(s.act) {
			return nil
		}
		t.act = false
	case "unactall":
		t.act = false
	case "active", "search":
		if !known(s.act) {
			return nil
		}
	}
	return []setState{t}
}

func (d *cliWorld) rec(g int, call uint64, k string, out int, ret uint64) {
	d.h[g] = append(d.h[g], fw.HOp{Call: call, Ret: ret, Who: fmt.Sprint(simrt.Cur().ID), In: setOp{k}, Out: out})
}

func (d *cliWorld) proven(g int, by *cliCall, to uint64) bool {
	for _, p := range d.proofs {
		if p.gw == g && (by == nil || p.by == by) && p.seq <= to && p.inc == d.n.Inc {
			return true
		}
	}
	return false
}

// inTime: the proof came with time to spare.
func (d *cliWorld) inTime(g int, by *cliCall, to uint64) bool {
	for _, p := range d.proofs {
		if p.gw == g && p.by == by && p.seq <= to && p.inc == d.n.Inc && p.slack >= 1 {
			return true
		}
	}
	return false
}

func (d *cliWorld) setOps(o fw.Op) {
	c := d.c
	ids := o.A[1:]
	var l []*nodeid.NodeID
	cnt := map[int]int{}
	for _, i := range ids {
		l = append(l, d.idOf(i))
		if int(i) < len(d.gws) {
			cnt[int(i)]++
		}
	}
	var gs []int
	for g := range d.gws {
		if cnt[g] > 0 {
			gs = append(gs, g)
		}
	}
	by := &cliCall{kind: o.K, gw: -1}
	simrt.Cur().Tag = by
	call := c.Seq()
	inc := d.n.Inc
	n := 0
	switch o.K {
	case "use":
		n = d.cl.AddGatewaysToUse(l)
	case "unuse":
		n = d.cl.RemoveGatewaysToUse(l)
	case "act":
		n = d.cl.AddActiveGateways(l)
	case "unact":
		n = d.cl.RemoveActiveGateways(l)
	case "unuseall":
		d.cl.RemoveAllGatewaysToUse()
		gs = nil
		for g := range d.gws {
			gs = append(gs, g)
		}
	case "unactall":
		d.cl.RemoveAllActiveGateways()
		gs = nil
		for g := range d.gws {
			gs = append(gs, g)
		}
	}
	ret := c.Seq()
	if inc != d.n.Inc {
		return
	}
	known := 0
	for _, k := range cnt {
		known += k
	}
	if n > known {
		c.Fail("C20", "a call reports more gateways than it was given", "%s: %d", o, n)
	}
	for _, g := range gs {
		out := -1
		if known == 1 {
			out = n
		}
		for i := 1; i < cnt[g]; i++ { // named several times: several steps
			d.rec(g, call, o.K, -1, ret)
		}
		if o.K == "act" {
			pr := d.proven(g, by, ret)
			if out == 1 && !pr {
				c.Fail("C21", "a gateway becomes active without proof", "gateway %d: %s", g, o)
			}
			if out != 1 && !pr && cnt[g] == 1 { // cannot have become active
				out = 0
			}
			if out == 0 && pr { // proven, but reported as not added: was active already, or is not to be used
				if d.inTime(g, by, ret) {
					d.rec(g, call, "act!", 0, ret)
				}
				continue
			}
		}
		d.rec(g, call, o.K, out, ret)
	}
}

func (d *cliWorld) listOp(o fw.Op) {
	c := d.c
	call := c.Seq()
	inc := d.n.Inc
	var l []*nodeid.NodeID
	if o.K == "used" {
		l = d.cl.GetGatewaysToUse()
	} else {
		l = d.cl.GetActiveGateways()
	}
	ret := c.Seq()
	if inc != d.n.Inc {
		return
	}
	seen := map[string]bool{}
	for _, x := range l {
		if seen[x.ToString()] {
			c.Fail("C20", "a gateway is listed twice", "%s %s", o.K, x.ToString())
		}
		seen[x.ToString()] = true
	}
	for g := range d.gws {
		out := 0
		if seen[d.gws[g].ids] {
			out = 1
			if o.K == "active" && !d.proven(g, nil, ret) {
				c.Fail("C21", "a gateway becomes active without proof", "gateway %d is listed as active", g)
			}
		}
		delete(seen, d.gws[g].ids)
		d.rec(g, call, o.K, out, ret)
	}
	for id := range seen {
		c.Fail("C20", "a gateway is used that was never added", "%s", id)
	}
}

func (d *cliWorld) do(th int64, o fw.Op) {
	c := d.c
	c.Probe("op-" + o.K)
	run := func(f func()) {
		if d.cl == nil || !d.n.Alive {
			return
		}
		c.Call(d.n, "app", f)
	}
	switch o.K {
	case "sleep":
		c.SleepFor(time.Duration(o.Arg(1)) * time.Millisecond)
	case "restart":
		if d.busy > 0 {
			return
		}
		if d.n.Alive {
			c.CrashNode(d.n, "injected")
		}
		c.Injected("client-restart")
		d.h = map[int][]fw.HOp{}
		d.boot()
	case "use", "unuse", "unuseall", "act", "unact", "unactall":
		run(func() { c.NonTriv = true; d.setOps(o) })
	case "used", "active":
		run(func() { d.listOp(o) })
	case "search":
		g := int(o.Arg(1))
		if g >= len(d.gws) {
			return
		}
		run(func() {
			call := &cliCall{kind: "search", gw: g, want: map[string]string{}, skip: map[string]bool{}}
			simrt.Cur().Tag = call
			s := c.Seq()
			inc := d.n.Inc
			d.cl.FindOffersStandardDiscovery(d.cids[0], d.gws[g].id)
			ret := c.Seq()
			if inc != d.n.Inc {
				return
			}
			if call.hits > 1 {
				c.Fail("C20", "one search contacts a gateway several times", "%d requests", call.hits)
			}
			d.rec(g, s, "search", call.hits, ret)
			if call.hits > 0 && !d.proven(g, nil, ret) {
				c.Fail("C21", "a gateway becomes active without proof", "gateway %d is searched", g)
			}
		})
	case "find1", "find2", "dht1", "dht2":
		run(func() { d.find(o) })
	case "ack":
		run(func() {
			ok, err := d.cl.FindDHTOfferAck(d.content(o.Arg(2)), d.idOf(o.Arg(1)), d.provs[int(o.Arg(3))%len(d.provs)].id)
			if ok && err == nil {
				c.Probe("ack-accepted")
			}
		})
	}
}

func (d *cliWorld) content(i int64) *cid.ContentID {
	if int(i) < len(d.cids) {
		return d.cids[i]
	}
	return cidN(40)
}

func (d *cliWorld) find(o fw.Op) {
	c := d.c
	g, k := int(o.Arg(1)), o.Arg(2)
	x := d.content(k)
	call := &cliCall{kind: o.K, gw: g, cid: int(k), want: map[string]string{}, skip: map[string]bool{}}
	call.listed, call.numDHT = map[string]int{}, 1
	simrt.Cur().Tag = call
	res := map[string][]cidoffer.SubCIDOffer{}
	var err error
	limit := 1 << 30
	if o.K == "find2" {
		call.limit = int(o.Arg(3))
	}
	if o.K == "dht2" {
		call.limit, call.numDHT = int(o.Arg(4)), o.Arg(3)
	}
	if s := d.sp; s != nil && (o.K == "find2" || o.K == "dht2") {
		c.Atomically(func() {
			s.pmax[g] = max(s.pmax[g], s.search*call.numDHT)
			s.running(call)
		})
	}
	switch o.K {
	case "find1":
		res[""], err = d.cl.FindOffersStandardDiscovery(x, d.gws[g].id)
	case "find2":
		limit = int(o.Arg(3))
		res[""], err = d.cl.FindOffersStandardDiscoveryV2(x, d.gws[g].id, limit)
	case "dht1", "dht2":
		var m map[string]*[]cidoffer.SubCIDOffer
		if o.K == "dht1" {
			m, err = d.cl.FindOffersDHTDiscovery(x, d.gws[g].id, o.Arg(3))
		} else {
			limit = int(o.Arg(4))
			m, err = d.cl.FindOffersDHTDiscoveryV2(x, d.gws[g].id, o.Arg(3), limit)
		}
		for k, v := range m {
			if v != nil {
				res[k] = *v
			}
		}
	}
	c.NonTriv = true
	if d.sp != nil {
		if o.K == "find2" || o.K == "dht2" {
			n := 0
			for _, l := range res {
				n += len(l)
			}
			c.Atomically(func() {
				delete(d.sp.active, call)
				d.spendJudge(o, call, n, err)
			})
		}
		return
	}
	c.Atomically(func() { d.judge(o, call, x, res, err, limit) })
}

func (d *cliWorld) judge(o fw.Op, call *cliCall, x *cid.ContentID, res map[string][]cidoffer.SubCIDOffer, err error, limit int) {
	c := d.c
	issued := map[string]bool{}
	k := d.cidIdx(x)
	for _, of := range d.offers {
		for _, y := range of.cids {
			if y == k {
				so, _ := of.off.GenerateSubCIDOffer(d.cids[k])
				issued[subKey(so)] = true
			}
		}
	}
	n := 0
	for _, gid := range sortedStr(res) {
		for i := range res[gid] {
			of := &res[gid][i]
			n++
			c.Probe("offer-accepted")
			switch {
			case of.GetProviderID() == nil || of.GetSubCID() == nil || of.GetMerkleProof() == nil:
				c.Fail("C04", "an offer is accepted that is none", "%s: %+v", o, of)
			case of.GetSubCID().ToString() != x.ToString():
				c.Fail("C04", "an offer for other content is accepted", "%s: asked %s got %s", o, x.ToString(), subKey(of))
			case !issued[subKey(of)]:
				c.Fail("C04", "an offer is accepted that its provider never made", "%s: %s", o, subKey(of))
			case !d.signedOver(of):
				c.Fail("C04", "an offer is accepted whose signature is wrong", "%s: %s %s", o, subKey(of), of.GetSignature())
			case !proofOK(of):
				c.Fail("C04", "an offer is accepted that does not prove its content", "%s: %s %s", o, subKey(of), js(of.GetMerkleProof()))
			}
		}
	}
	if err != nil {
		c.Probe("find-error")
	}
	if call.evil > 0 && err == nil {
		c.Probe("find-despite-misbehaviour")
	}
	if call.outerBad || call.hits == 0 || call.gw != int(o.Arg(1)) || call.total > limit {
		return
	}
	if o.K != "dht1" && o.K != "dht2" {
		return
	}
	if o.K == "dht2" && call.hits < 2 && len(call.want) == 0 {
		return
	}
	for _, gid := range sortedStr(call.want) {
		if call.want[gid] == "" || call.skip[gid] {
			continue
		}
		if err != nil {
			c.Fail("C04", "genuine offers are lost to another gateway's answer", "%s: %v; wanted from %s:\n%s", o, err, gid[:8], call.want[gid])
			return
		}
		have := map[string]bool{}
		for i := range res[gid] {
			have[subKey(&res[gid][i])] = true
		}
		for _, w := range strings.Split(call.want[gid], "\n") {
			if !have[w] {
				c.Fail("C04", "genuine offers are lost to another gateway's answer", "%s: gateway %s delivered\n%s\nbut %s is missing", o, gid[:8], call.want[gid], w)
				return
			}
		}
		c.Probe("kept-genuine")
		if call.evil > 0 {
			c.Probe("kept-genuine-despite-misbehaviour")
		}
	}
}

// signedOver checks the signature against the key in the register.
func (d *cliWorld) signedOver(o *cidoffer.SubCIDOffer) bool {
	for _, p := range d.provs {
		if p.ids == o.GetProviderID().ToString() {
			// the signature must be the one over exactly this content
			for _, of := range d.offers {
				if d.provs[of.prov] == p && sigCore(of.off.GetSignature()) == sigCore(o.GetSignature()) {
					return true
				}
			}
		}
	}
	return false
}

// proofOK recomputes the proof.
func proofOK(o *cidoffer.SubCIDOffer) bool {
	b, err := json.Marshal(o.GetMerkleProof())
	if err != nil {
		return false
	}
	var cur []byte
	if json.Unmarshal(b, &cur) != nil || len(cur) < 8 {
		return false
	}
	n := binary.BigEndian.Uint32(cur)
	var path [][]byte
	var index []int64
	if json.Unmarshal(cur[4:4+n], &path) != nil || json.Unmarshal(cur[8+n:], &index) != nil || len(index) < len(path) {
		return false
	}
	h := o.GetSubCID().ToBytes()
	for i, p := range path {
		var s [32]byte
		if index[i] == 1 {
			s = sha256.Sum256(append(append([]byte(nil), h...), p...))
		} else {
			s = sha256.Sum256(append(append([]byte(nil), p...), h...))
		}
		h = s[:]
	}
	return hex.EncodeToString(h) == o.GetMerkleRoot()
}

func runClient(c *fw.Ctx) {
	p := c.Plan
	d := &cliWorld{c: c, mode: p.Par("mode"), r: c.NetR.Fork(3), ttl: p.Par("ttl"), h: map[int][]fw.HOp{}, chal: map[string]bool{}, last: map[int]string{}, byCid: map[string]int{}}
	c.Data = d
	r := simrt.NewPRNG(uint64(p.Par("seed")))
	d.reg = c.AddNode("register")
	c.Boot(d.reg, "register", func() {})
	c.ServeHTTPOn(d.reg, "9020", http.HandlerFunc(d.serveRegister))
	d.n = c.AddNode("client")
	ch := NewChain(c, ChainFaults{Block: time.Second, PErr: float64(p.Par("chain")) / 1000, PExit: float64(p.Par("chain")) / 2000})
	ch.AddWallet(WalletN(0))
	if d.mode == cliSpending {
		d.sp = &cliSpendState{search: p.Par("search"), offer: p.Par("offer"), topup: p.Par("topup"), th: p.Par("th"), lanes: map[string][]spend{}, demands: map[int]int64{}, pmax: map[int]int64{}, active: map[*cliCall]bool{}, chain: ch}
		d.chainBad = p.Par("chain") > 0
	}
	for _, i := range r.Perm(8)[:p.Par("cids")] {
		d.byCid[cidN(i).ToString()] = len(d.cids)
		d.cids = append(d.cids, cidN(i))
	}
	for i := 0; i < int(p.Par("gws")); i++ {
		id := regIDs(uint64(p.Par("seed")), 0, 8)[i]
		nid, _ := nodeid.NewNodeIDFromHexString(id)
		g := &cliGw{i: i, id: nid, ids: id, key: keyN(i), node: c.AddNode(fmt.Sprintf("gw%d", i))}
		ch.AddWallet(WalletN(1 + i))
		h := g.node.Name
		g.reg = register.GatewayRegister{NodeID: id, Address: WalletN(1 + i).Addr.String(), RootSigningKey: keyN(20 + i).pub, SigningKey: g.key.pub, RegionCode: "AU",
			NetworkInfoGateway: h + ":9012", NetworkInfoProvider: h + ":9011", NetworkInfoClient: h + ":9010", NetworkInfoAdmin: h + ":9013"}
		c.Boot(g.node, "gw", func() {})
		c.ServeHTTPOn(g.node, "9010", d.gwHandler(g))
		d.gws = append(d.gws, g)
	}
	for i := 0; i < int(p.Par("provs")); i++ {
		n := c.AddNode(fmt.Sprintf("prov%d", i))
		pr := &cliProv{id: provN(i), ids: provN(i).ToString(), key: keyN(10 + i)}
		pr.reg = register.ProviderRegister{NodeID: pr.ids, Address: "addr", RootSigningKey: keyN(30 + i).pub, SigningKey: pr.key.pub, RegionCode: "AU",
			NetworkInfoGateway: n.Name + ":9032", NetworkInfoClient: n.Name + ":9030", NetworkInfoAdmin: n.Name + ":9033"}
		c.Boot(n, "prov", func() {})
		c.ServeHTTPOn(n, "9030", d.provHandler(pr))
		d.provs = append(d.provs, pr)
	}
	now := c.TimeOn(d.n).Unix()
	for i := 0; i < int(p.Par("offers")); i++ {
		o := &cliOffer{prov: r.N(len(d.provs)), gws: map[int]bool{}}
		var l []cid.ContentID
		for _, k := range r.Perm(len(d.cids))[:1+r.N(len(d.cids))] {
			o.cids = append(o.cids, k)
			l = append(l, *d.cids[k])
		}
		for j := r.N(3); j > 0 && r.P(0.5); j-- {
			l = append(l, *cidN(20 + r.N(8)))
		}
		off, err := cidoffer.NewCIDOffer(d.provs[o.prov].id, l, uint64(r.N(100)), now+int64(100000+r.N(1000)), uint64(i))
		if err != nil {
			c.Err("offer: %v", err)
			return
		}
		off.Sign(d.provs[o.prov].key.kp, fcrcrypto.InitialKeyVersion())
		o.off = off
		dg := off.GetMessageDigest()
		o.digest = cidoffer.EncodeMessageDigest(dg)
		for g := range d.gws {
			if r.P(0.5) {
				o.gws[g] = true
			}
		}
		d.offers = append(d.offers, o)
	}
	d.evilOffers()
	simrt.HTTPHook = func(ev *simrt.HTTPEvent) {
		if d.sp != nil && ev.From == d.n && ev.Err == nil && ev.Port == "9010" {
			if q, err := fcrmessages.FCRMsgFromBytes(ev.ReqBody); err == nil {
				for _, g := range d.gws {
					if g.node == ev.To {
						by, _ := ev.By.(*cliCall)
						d.told(g, q, by, ev.RespBody)
					}
				}
			}
		}
		if ev.From != d.n || ev.Err != nil || ev.Port != "9010" || ev.Status != 200 {
			return
		}
		q, err := fcrmessages.FCRMsgFromBytes(ev.ReqBody)
		if err != nil || q.GetMessageType() != fcrmessages.ClientEstablishmentRequestType {
			return
		}
		_, chal, ttl, err := fcrmessages.DecodeClientEstablishmentRequest(q)
		if err != nil {
			return
		}
		for _, g := range d.gws {
			if g.node == ev.To && d.genuineProof(g, chal, ev.RespBody) {
				if c.TimeOn(d.n).Unix() <= ttl {
					by, _ := ev.By.(*cliCall)
					d.proofs = append(d.proofs, proof{g.i, c.Seq(), d.n.Inc, ttl - c.TimeOn(d.n).Unix(), by})
					c.Probe("proof-delivered")
				} else {
					c.Probe("proof-late")
				}
			}
		}
	}
	c.AtEnd(func() { simrt.HTTPHook = nil })
	if !d.boot() {
		c.Err("client did not start")
		return
	}
	if d.mode == cliOffers || d.mode == cliSpending || (d.mode == cliSession && r.P(0.7)) {
		var l []*nodeid.NodeID
		for _, g := range d.gws {
			l = append(l, g.id)
		}
		ok := false
		c.Call(d.n, "app", func() {
			if ok = d.cl.AddGatewaysToUse(l) == len(l); d.mode == cliOffers || d.mode == cliSpending {
				ok = ok && d.cl.AddActiveGateways(l) == len(l)
			} else {
				for g := range d.gws {
					d.rec(g, 0, "use", 1, c.Seq())
				}
			}
		})
		if !ok && len(c.Crashes) == 0 {
			c.Fail("C20", "an honest gateway is not accepted", "%d gateways", len(l))
			return
		}
	}
	threads(c, p.Ops, func(int64) *simrt.Node { return nil }, func(th int64, i int, o fw.Op) {
		d.busy++
		if o.K == "restart" {
			d.busy--
			d.do(th, o)
			return
		}
		d.do(th, o)
		d.busy--
	})
	d.quiet = true
	if d.sp != nil {
		d.tally()
		return
	}
	if d.mode != cliOffers && d.n.Alive {
		d.do(99, fw.Op{K: "used", A: []int64{99}})
		d.do(99, fw.Op{K: "active", A: []int64{99}})
		for g := range d.gws {
			d.do(99, fw.Op{K: "use", A: []int64{99, int64(g)}})
			d.do(99, fw.Op{K: "act", A: []int64{99, int64(g)}})
			d.do(99, fw.Op{K: "search", A: []int64{99, int64(g)}})
		}
		d.do(99, fw.Op{K: "active", A: []int64{99}})
	}
}

func afterClient(c *fw.Ctx) {
	d, ok := c.Data.(*cliWorld)
	if !ok || c.Ended != "done" || len(c.Fails) > 0 || d.mode == cliOffers || d.mode == cliSpending {
		return
	}
	m := fw.Model[setState]{Next: setNext, Key: func(s setState) string { return fmt.Sprint(s) }}
	for g := range d.gws {
		ok, dec := fw.Linearizable(m, d.h[g], 300000)
		if !dec {
			c.Probe("undecided")
			continue
		}
		c.Probe("history-judged")
		if !ok {
			c.Fail("C20", "the sets of gateways fit no order of the calls", "gateway %d\n%s", g, fw.HistText(d.h[g]))
			return
		}
	}
}

func init() {
	real := []string{"client/pkg/fcrclient", "client/pkg/api/clientapi", "common/pkg/request", "common/pkg/fcrregistermgr", "common/pkg/fcrmessages", "common/pkg/fcrcrypto", "common/pkg/cidoffer", "common/pkg/fcrpaymentmgr"}
	stub := []string{"gateways and providers (scripted, hostile)", "register", "chain", "HTTP transport"}
	for i, x := range []struct{ n, p string }{{"client-offers", "C04"}, {"client-sets", "C20"}, {"client-sessions", "C21"}, {"client-spending", "C26"}} {
		fw.Register(&fw.Scenario{Name: x.n, Gen: genClient(int64(i)), Run: runClient, After: afterClient, HangProp: []string{x.p}, CrashProp: []string{x.p}, Real: real, Stub: stub})
		fw.Checks[x.p] = []fw.Use{{Scenario: x.n, Weight: 1}}
	}
}

// unjson is json.Unmarshal that keeps large numbers as they are.
func unjson(b []byte, v any) error {
	dec := json.NewDecoder(bytes.NewReader(b))
	dec.UseNumber()
	return dec.Decode(v)
}
