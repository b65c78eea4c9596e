package sc

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"net/http"
	"runtime"
	"strings"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrp2pserver"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrregistermgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"

	"sim.local/h/fw"
	"sim.local/h/simrt"
)

// The peer-to-peer scenario: nodes with the real p2p server and register manager, all-purpose message types with handlers and
// requesters of the harness on top.

const (
	mEcho  = 7001 // one request, one answer
	mAck   = 7002 // request, answer, acknowledgement (no answer to it)
	mMulti = 7003 // request, then several answers
	mOther = 7999 // nobody handles it
)

type p2pReq struct {
	From  string `json:"f"`
	To    string `json:"t"`
	N     int64  `json:"n"`
	Slow  int64  `json:"s"` // ms before the answer
	Fail  bool   `json:"x"` // the handler reports an error
	Parts int    `json:"p"`
	Back  int    `json:"b"` // size of the answer
	Body  string `json:"o"`
}

type p2pResp struct {
	N    int64  `json:"n"`
	Part int    `json:"p"`
	Peer string `json:"w"`
	Sum  string `json:"s"`
	Fill string `json:"f"`
}

func filler(n int64, k int) string {
	if k <= 0 {
		return ""
	}
	b := make([]byte, (k+1)/2)
	simrt.NewPRNG(uint64(n)*31 + 7).Read(b)
	return hex.EncodeToString(b)[:k]
}

func answerTo(peer string, q *p2pReq, part int) []byte {
	h := sha256.Sum256([]byte(js(q)))
	b, _ := json.Marshal(p2pResp{N: q.N, Part: part, Peer: peer, Sum: hex.EncodeToString(h[:]), Fill: filler(q.N*16+int64(part), q.Back)})
	return b
}

func genP2P(r *simrt.PRNG, p *fw.Plan) {
	knobs(r, p)
	n := 2 + r.N(4)
	p.P["n"] = int64(n)
	p.P["prov"] = int64(r.N(n)) // the last ones are providers
	p.P["tmo"] = int64(2 + r.N(28))
	p.P["ids"] = r.I64(1 << 40)
	mode := r.Weighted([]int{3, 3, 5}) // nothing faulty, one faulty, all faulty
	p.P["mode"] = int64(mode)
	p.Net = simrt.NetConfig{MinLat: time.Duration(r.N(20)) * time.Millisecond, Jitter: time.Duration(1+r.N(200)) * time.Millisecond}
	if r.P(0.6) {
		p.Net.Window = 1024 << r.N(7)
		if r.P(0.2) {
			p.Net.Window = 64 << r.N(5)
		}
	}
	if r.P(0.5) {
		p.Net.PShortRead = 0.3
	}
	if r.P(0.6) {
		p.Net.PSplit = 0.4
		p.Net.SplitGap = time.Duration(1+r.N(40)) * time.Millisecond
	}
	if mode > 0 {
		p.P["bad"] = int64(r.N(n))
		if r.P(0.5) {
			p.Net.PReset = 0.05 * r.F()
		}
		if r.P(0.4) {
			p.Net.PStall = 0.08
			p.Net.StallFor = time.Duration(1+r.N(80)) * time.Second
		}
		if r.P(0.3) {
			p.Net.PDialFail = 0.2
		}
		if r.P(0.2) {
			p.Net.PAcceptErr = 0.05
		}
		if r.P(0.4) {
			p.Net.SplitGap = time.Duration(1+r.N(40)) * time.Second
		}
	}
	th := 1 + r.N(6)
	ops := 6 + r.N(40)
	junk := r.P(0.5)
	hot := r.P(0.3) // most requests go one way
	ha, hb := int64(r.N(n)), int64(r.N(n))
	for i := 0; i < ops; i++ {
		t := int64(r.N(th))
		a := int64(r.N(n))
		b := int64(r.N(n))
		if hot && r.P(0.75) {
			a, b = ha, hb
		}
		if a == b {
			b = (b + 1) % int64(n)
		}
		if mode > 0 && r.P(0.2) {
			k := r.Weighted([]int{4, 4, 3, 3, 3, 2})
			p.Ops = append(p.Ops, fw.Op{K: []string{"cut", "heal", "crash", "boot", "break", "stall"}[k], A: []int64{t, a, b, int64(r.N(2000))}})
			continue
		}
		if junk && r.P(0.3) {
			kind := int64(r.N(16))
			if r.P(0.03) {
				kind = 16
			}
			p.Ops = append(p.Ops, fw.Op{K: "junk", A: []int64{t, b, kind, r.I64(1 << 30), int64(r.N(2))}})
			continue
		}
		switch r.Weighted([]int{10, 5, 4, 4, 1, 3, 1}) {
		case 0:
			p.Ops = append(p.Ops, fw.Op{K: "echo", A: []int64{t, a, b, int64(1) << r.N(17), int64(1) << r.N(16)}})
		case 1:
			p.Ops = append(p.Ops, fw.Op{K: "ack", A: []int64{t, a, b, int64(1) << r.N(10), int64(1) << r.N(10)}})
		case 2:
			p.Ops = append(p.Ops, fw.Op{K: "multi", A: []int64{t, a, b, int64(1) << r.N(10), int64(1) << r.N(10), 1 + r.I64(6)}})
		case 3:
			p.Ops = append(p.Ops, fw.Op{K: "slow", A: []int64{t, a, b, int64(r.N(200)), int64(r.N(200)), r.I64(2*p.P["tmo"]*1000 + 500)}})
		case 4:
			p.Ops = append(p.Ops, fw.Op{K: "fail", A: []int64{t, a, b, int64(r.N(200))}})
		case 5:
			p.Ops = append(p.Ops, fw.Op{K: "sleep", A: []int64{t, r.I64([]int64{200, 3000, 120000}[r.N(3)])}})
		case 6:
			p.Ops = append(p.Ops, fw.Op{K: "none", A: []int64{t, a, b}})
		}
	}
}

type p2pRun struct {
	c     *fw.Ctx
	n     int
	prov  int
	tmo   time.Duration
	ids   []string
	nodes []*simrt.Node
	reg   *simrt.Node
	str   *simrt.Node
	srv   []*fcrp2pserver.FCRP2PServer // of the running process
	inc   []int
	boots []bool
	reqN  int64
	slowN int // ops that may time out by themselves
	total int
	conns int
}

func (d *p2pRun) isProv(i int) bool { return i >= d.n-d.prov }

func (d *p2pRun) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	l := []any{}
	for i, id := range d.ids {
		h := fmt.Sprintf("n%d", i)
		if strings.Contains(r.URL.Path, "/provider") == d.isProv(i) {
			if d.isProv(i) {
				l = append(l, register.ProviderRegister{NodeID: id, Address: "a", RootSigningKey: "r", SigningKey: "s", RegionCode: "AU", NetworkInfoGateway: h + ":9013", NetworkInfoClient: h + ":9010", NetworkInfoAdmin: h + ":9011"})
			} else {
				l = append(l, register.GatewayRegister{NodeID: id, Address: "a", RootSigningKey: "r", SigningKey: "s", RegionCode: "AU", NetworkInfoGateway: h + ":9012", NetworkInfoProvider: h + ":9013", NetworkInfoClient: h + ":9010", NetworkInfoAdmin: h + ":9011"})
			}
		}
	}
	if r.Method != "GET" {
		return
	}
	if i := strings.LastIndexByte(r.URL.Path, '/'); i >= 0 && i < len(r.URL.Path)-10 && len(r.URL.Path)-i > 40 {
		for _, x := range l {
			s := js(x)
			if strings.Contains(s, r.URL.Path[i+1:]) {
				w.Write([]byte(s))
				return
			}
		}
		w.WriteHeader(404)
		return
	}
	b, _ := json.Marshal(l)
	w.Write(b)
}

func (d *p2pRun) boot(i int) {
	if d.boots[i] || d.nodes[i].Alive {
		return
	}
	c, nd := d.c, d.nodes[i]
	d.boots[i] = true
	d.inc[i]++
	inc := d.inc[i]
	c.Boot(nd, "idle", func() {})
	c.Call(nd, "start", func() {
		m := fcrregistermgr.NewFCRRegisterMgr("http://register:9020", true, true, 60*time.Second)
		if err := m.Start(); err != nil {
			c.Err("register manager: %v", err)
		}
		m.Refresh()
		ports := []string{"9012", "9013"}
		if d.isProv(i) {
			ports = []string{"9013"}
		}
		s := fcrp2pserver.NewFCRP2PServer(ports, m, d.tmo)
		for _, p := range ports {
			s.AddHandler(p, mEcho, d.handler(i, mEcho)).AddHandler(p, mAck, d.handler(i, mAck)).AddHandler(p, mMulti, d.handler(i, mMulti))
		}
		s.AddRequester(mEcho, d.echo).AddRequester(mAck, d.ack).AddRequester(mMulti, d.multi).AddRequester(mOther, d.echo)
		if err := s.Start(); err != nil {
			c.Fail("C11", "server does not start", "node %d: %v", i, err)
		}
		if d.inc[i] == inc {
			d.srv[i] = s
		}
	})
	d.boots[i] = false
}

func (d *p2pRun) handler(i int, typ int32) func(*fcrp2pserver.FCRServerReader, *fcrp2pserver.FCRServerWriter, *fcrmessages.FCRMessage) error {
	return func(rd *fcrp2pserver.FCRServerReader, wr *fcrp2pserver.FCRServerWriter, m *fcrmessages.FCRMessage) error {
		var q p2pReq
		if err := json.Unmarshal(m.GetMessageBody(), &q); err != nil {
			return wr.WriteInvalidMessage(d.tmo)
		}
		if m.GetMessageType() != typ {
			d.c.Fail("C10", "message reaches the wrong handler", "handler %d got type %d", typ, m.GetMessageType())
		}
		if q.Slow > 0 {
			d.c.SleepFor(time.Duration(q.Slow) * time.Millisecond)
		}
		if q.Fail {
			return errors.New("handler fails")
		}
		parts := 1
		if typ == mMulti {
			parts = q.Parts
		}
		for k := 0; k < parts && k < 16; k++ {
			if err := wr.Write(fcrmessages.CreateFCRMessage(typ, answerTo(fmt.Sprint("n", i), &q, k)), d.tmo); err != nil {
				return err
			}
		}
		if typ == mAck {
			a, err := rd.Read(d.tmo)
			if err != nil {
				return err
			}
			if a.GetMessageType() != mAck || string(a.GetMessageBody()) != fmt.Sprint("ack ", q.N) {
				d.c.Fail("C10", "handler got something that is not part of its exchange", "request %d: acknowledgement is type %d %.100q", q.N, a.GetMessageType(), a.GetMessageBody())
				return errors.New("no ack")
			}
			d.c.Probe("acked")
		}
		return nil
	}
}

func (d *p2pRun) send(wr *fcrp2pserver.FCRServerWriter, typ int32, args []interface{}) error {
	b, _ := json.Marshal(args[0].(*p2pReq))
	return wr.Write(fcrmessages.CreateFCRMessage(typ, b), d.tmo)
}

func (d *p2pRun) echo(rd *fcrp2pserver.FCRServerReader, wr *fcrp2pserver.FCRServerWriter, args ...interface{}) (*fcrmessages.FCRMessage, error) {
	if err := d.send(wr, args[1].(int32), args); err != nil {
		return nil, err
	}
	return rd.Read(d.tmo)
}

func (d *p2pRun) ack(rd *fcrp2pserver.FCRServerReader, wr *fcrp2pserver.FCRServerWriter, args ...interface{}) (*fcrmessages.FCRMessage, error) {
	m, err := d.echo(rd, wr, args...)
	if err != nil {
		return nil, err
	}
	if m.GetMessageType() != mAck {
		return m, nil
	}
	return m, wr.Write(fcrmessages.CreateFCRMessage(mAck, []byte(fmt.Sprint("ack ", args[0].(*p2pReq).N))), d.tmo)
}

func (d *p2pRun) multi(rd *fcrp2pserver.FCRServerReader, wr *fcrp2pserver.FCRServerWriter, args ...interface{}) (*fcrmessages.FCRMessage, error) {
	q := args[0].(*p2pReq)
	m, err := d.echo(rd, wr, args...)
	for k := 0; err == nil; k++ {
		if why := d.wrong(m, mMulti, q, k); why != "" {
			d.c.Fail("C10", "answer of another request", "part %d of %d: %s", k, q.Parts, why)
		}
		if k == q.Parts-1 {
			return m, nil
		}
		m, err = rd.Read(d.tmo)
	}
	return nil, err
}

func (d *p2pRun) wrong(m *fcrmessages.FCRMessage, typ int32, q *p2pReq, part int) string {
	if m == nil {
		return "no message and no error"
	}
	want := string(answerTo(q.To, q, part))
	if m.GetMessageType() != typ || string(m.GetMessageBody()) != want {
		return fmt.Sprintf("request %d to %s: answer type %d %.120q (%d bytes), wanted type %d %.120q (%d bytes)", q.N, q.To, m.GetMessageType(), m.GetMessageBody(), len(m.GetMessageBody()), typ, want, len(want))
	}
	return ""
}

// request sends one request and judges the answer. It returns whether it was answered, and how long it took.
func (d *p2pRun) request(a, b int, o fw.Op) (ok, ran bool, took time.Duration, err error) {
	c := d.c
	typ := int32(mEcho)
	d.reqN++
	q := &p2pReq{From: fmt.Sprint("n", a), To: fmt.Sprint("n", b), N: d.reqN, Body: filler(d.reqN, int(o.Arg(3))), Back: int(o.Arg(4))}
	switch o.K {
	case "ack":
		typ = mAck
	case "multi":
		typ, q.Parts = mMulti, int(o.Arg(5))
	case "slow":
		q.Slow = o.Arg(5)
	case "fail":
		q.Fail = true
	case "none":
		typ = mOther
	}
	id, _ := nodeid.NewNodeIDFromHexString(d.ids[b])
	t0 := c.Elapsed()
	var m *fcrmessages.FCRMessage
	lived := c.Call(d.nodes[a], fmt.Sprintf("req%d", q.N), func() {
		s := d.srv[a]
		if s == nil {
			return
		}
		ran = true
		switch {
		case d.isProv(b):
			m, err = s.RequestProvider(id, typ, q, typ)
		case d.isProv(a):
			m, err = s.RequestGatewayFromProvider(id, typ, q, typ)
		default:
			m, err = s.RequestGatewayFromGateway(id, typ, q, typ)
		}
	})
	took = c.Elapsed() - t0
	if !lived || !ran {
		return false, false, took, nil
	}
	if err != nil {
		c.Logf("request %d n%d->n%d: %v", q.N, a, b, err)
		c.Probe("request-failed")
		return false, true, took, err
	}
	c.NonTriv = true
	switch o.K {
	case "none":
		if m == nil || m.GetMessageType() != fcrmessages.InvalidMessageResponseType {
			c.Fail("C10", "answer of another request", "request %d of a type nobody handles: got %v", q.N, m)
		}
		return true, true, took, nil
	case "fail":
		c.Fail("C10", "a failed request was answered", "request %d: got type %d %.100q", q.N, m.GetMessageType(), m.GetMessageBody())
		return true, true, took, nil
	case "multi":
		if why := d.wrong(m, typ, q, q.Parts-1); why != "" {
			c.Fail("C10", "answer of another request", "%s", why)
		}
	default:
		if why := d.wrong(m, typ, q, 0); why != "" {
			c.Fail("C10", "answer of another request", "%s", why)
		}
	}
	c.Probe("answered " + o.K)
	return true, true, took, nil
}

// touched tells whether faults may concern the pair.
func (d *p2pRun) touched(a, b int) bool {
	switch d.c.Plan.Par("mode") {
	case 0:
		return false
	case 1:
		x := int(d.c.Plan.Par("bad"))
		return a == x || b == x
	}
	return true
}

func (d *p2pRun) do(th int64, o fw.Op) {
	c := d.c
	a, b := int(o.Arg(1)), int(o.Arg(2))
	if c.Plan.Par("mode") == 1 { // faults concern one node only
		switch o.K {
		case "cut", "heal", "break":
			a = int(c.Plan.Par("bad"))
			if a == b {
				b = (b + 1) % d.n
			}
		case "crash", "boot", "stall":
			a = int(c.Plan.Par("bad"))
		}
	}
	switch o.K {
	case "sleep":
		c.SleepFor(time.Duration(o.Arg(1)) * time.Millisecond)
	case "cut":
		c.Cut(d.nodes[a], d.nodes[b])
	case "heal":
		c.Heal(d.nodes[a], d.nodes[b])
	case "break":
		c.BreakConns(d.nodes[a], d.nodes[b])
	case "stall":
		c.Injected("stall")
		c.Stall(d.nodes[a], time.Duration(o.Arg(3)*20)*time.Millisecond)
	case "crash":
		if !d.boots[a] && d.nodes[a].Alive {
			if o.Arg(3)%2 == 0 {
				c.CrashAfterSteps(d.nodes[a], uint64(o.Arg(3)))
			} else {
				c.CrashNode(d.nodes[a], "injected")
			}
			c.Injected("crash")
		}
	case "boot":
		d.boot(a)
	case "junk":
		d.junk(int(o.Arg(1)), int(o.Arg(2)), uint64(o.Arg(3)), o.Arg(4))
	default:
		if !d.nodes[a].Alive {
			d.boot(a)
		}
		ok, ran, took, err := d.request(a, b, o)
		if !ran {
			return
		}
		if !d.touched(a, b) {
			// only requests on the same connection may come first
			bound := 10 * time.Second
			for _, x := range c.Plan.Ops {
				if x.Arg(1) == o.Arg(1) && x.Arg(2) == o.Arg(2) {
					switch x.K {
					case "echo", "ack", "multi", "slow", "fail", "none":
						bound += 3*d.tmo + 8*time.Second
					}
					switch x.K {
					case "multi":
						bound += time.Duration(x.Arg(5)) * d.tmo
					case "slow":
						bound += time.Duration(x.Arg(5)) * time.Millisecond
					}
				}
			}
			mine := o.K == "fail" || o.K == "slow" && time.Duration(o.Arg(5))*time.Millisecond+5*time.Second > d.tmo
			if !ok && !mine && !d.slowNet(o.Arg(3)+o.Arg(4)) {

				cl := "request fails though nothing is wrong with the two nodes"
				c.Fail("C11", cl, "n%d -> n%d %v: %v", a, b, o, err)
				c.Fail("C10", cl, "n%d -> n%d %v: %v", a, b, o, err)
				if c.Plan.Par("mode") == 0 {
					c.Fail("C12", cl, "n%d -> n%d %v: %v", a, b, o, err)
				}
			}
			if took > bound {
				c.Fail("C11", "request takes unreasonably long", "n%d -> n%d took %v", a, b, took)
			}
			if ok {
				c.Probe("judged-strictly")
			}
		}
	}
}

// slowNet: the ordinary latency alone may exceed the time-outs (big messages through a tiny window).
func (d *p2pRun) slowNet(bytes int64) bool {
	n := d.c.Plan.Net
	w := int64(n.Window)
	if w == 0 {
		w = 1 << 16
	}
	bytes = bytes*3/2 + 1000
	pieces := time.Duration(4*bytes/w + 4)
	per := 2*(n.MinLat+n.Jitter) + n.SplitGap
	if n.PSplit > 0 {
		pieces += time.Duration(bytes / 256)
	}
	return pieces*per*2 > d.tmo
}

func (d *p2pRun) junk(b, kind int, seed uint64, port int64) {
	c := d.c
	nd := d.nodes[b]
	p := "9013"
	if port == 0 && !d.isProv(b) {
		p = "9012"
	}
	r := simrt.NewPRNG(seed)
	msg := func(b []byte) []byte { return append(binary.BigEndian.AppendUint32(nil, uint32(len(b))), b...) }
	fm := func(typ int32, body []byte) []byte {
		x, _ := fcrmessages.CreateFCRMessage(typ, body).FCRMsgToBytes()
		return x
	}
	var data []byte
	gap, keep, answer := time.Duration(0), false, false
	switch kind {
	case 0:
		data = make([]byte, 1+r.N(300))
		r.Read(data)
	case 1:
		data = append([]byte{0xff, 0xff, 0xff, 0xff}, fm(mEcho, []byte("x"))...)
	case 2:
		data = msg(fm(mEcho, []byte(`{"n":1}`)))
		data = data[:1+r.N(len(data)-1)]
	case 3:
		data = msg(fm(mEcho, []byte(`{"n":1}`)))
		gap = time.Duration(1+r.N(int(d.tmo/time.Millisecond))) * time.Millisecond
	case 4:
		data, answer = msg([]byte(`{}`)), true
	case 5:
		data = msg([]byte(`null`))
		answer = true
	case 6:
		data = msg([]byte(`[1,2`))
	case 7:
		data = msg(nil)
	case 8:
		data, answer = msg(fm(mOther, nil)), true
	case 9:
		data, keep = nil, true
	case 10:
		data = []byte("GET / HTTP/1.1\r\nHost: x\r\n\r\n")
	case 11:
		data = msg(fm(mEcho, []byte(`{"n":-5,"s":10,"b":100}`)))
		answer = true
	case 12: // many requests, never reading the answers
		for i := 0; i < 40; i++ {
			data = append(data, msg(fm(mEcho, []byte(fmt.Sprintf(`{"n":%d,"b":60000}`, i))))...)
		}
	case 13:
		data = msg(fm(mAck, []byte(`{"n":1}`)))
		answer = true
	case 14:
		x := fm(mEcho, []byte(`{"n":1,"p":1}`))
		x[r.N(len(x))] ^= byte(1 << r.N(8))
		data = msg(x)
	case 15:
		data, answer = msg(append([]byte(strings.Repeat(`{"message_type":`, 2000)), '1')), false
	}
	c.Injected(fmt.Sprintf("stranger-bytes %d", kind))
	var m0 runtime.MemStats
	big := kind == 1 || kind == 0
	if big {
		runtime.ReadMemStats(&m0)
	}
	alive, inc := nd.Alive && d.srv[b] != nil, d.inc[b]
	if kind == 16 { // a crowd of idle connections
		for i, n := 0, 120+r.N(200); i < n; i++ {
			conn, err := c.DialAs(d.str, fmt.Sprintf("n%d:%s", b, p))
			if err != nil {
				break
			}
			defer conn.Close()
		}
		c.SleepFor(time.Duration(30+r.N(400)) * time.Second)
		return
	}
	conn, err := c.DialAs(d.str, fmt.Sprintf("n%d:%s", b, p))
	if err != nil {
		return
	}
	if gap > 0 {
		for i := range data {
			if _, err := conn.Write(data[i : i+1]); err != nil {
				break
			}
			c.SleepFor(gap)
			if i > 6 {
				gap = time.Millisecond
			}
		}
	} else if len(data) > 0 {
		conn.SetDeadlineIn(5 * time.Second)
		conn.Write(data)
	}
	if keep {
		c.SleepFor(time.Duration(r.N(100)) * time.Second)
		conn.Close()
		return
	}
	if kind == 12 {
		c.SleepFor(time.Duration(r.N(100)) * time.Second)
	} else {
		// an error, an answer or a closed connection within bounded time
		got := 0
		buf := make([]byte, 4096)
		conn.SetDeadlineIn(3*d.tmo + 60*time.Second)
		var e error
		for got == 0 && e == nil {
			var k int
			k, e = conn.Read(buf)
			got += k
		}
		if d.c.Plan.Par("mode") == 0 && alive && nd.Alive && inc == d.inc[b] && !d.slowNet(500) {
			if got == 0 && isTimeout(e) {
				c.Fail("C12", "stranger neither answered nor cut off", "kind %d, %d bytes sent to n%d:%s", kind, len(data), b, p)
			}
			if answer && got == 0 {
				c.Fail("C12", "complete message got no answer", "kind %d to n%d:%s: %v", kind, b, p, e)
			}
			c.Probe("stranger-judged")
		}
	}
	conn.Close()
	if big {
		var m1 runtime.MemStats
		runtime.ReadMemStats(&m1)
		if m1.TotalAlloc-m0.TotalAlloc > 2<<30 {
			c.Fail("C12", "a few bytes make the node take gigabytes of memory", "kind %d: %d MB", kind, (m1.TotalAlloc-m0.TotalAlloc)>>20)
		}
	}
}

func isTimeout(err error) bool {
	t, ok := err.(interface{ Timeout() bool })
	return ok && t.Timeout()
}

func runP2P(c *fw.Ctx) {
	p := c.Plan
	d := &p2pRun{c: c, n: int(p.Par("n")), prov: int(p.Par("prov")), tmo: time.Duration(p.Par("tmo")) * time.Second}
	d.ids = regIDs(uint64(p.Par("ids")), 0, d.n)
	d.reg = c.AddNode("register")
	c.Boot(d.reg, "idle", func() {})
	c.ServeHTTPOn(d.reg, "9020", d)
	d.str = c.AddNode("stranger")
	c.Boot(d.str, "idle", func() {})
	net := p.Net
	quiet := simrt.NetConfig{MinLat: net.MinLat, Jitter: net.Jitter}
	c.Cfg.Net = quiet
	d.srv = make([]*fcrp2pserver.FCRP2PServer, d.n)
	d.inc, d.boots = make([]int, d.n), make([]bool, d.n)
	for i := 0; i < d.n; i++ {
		i := i
		nd := c.AddNode(fmt.Sprint("n", i))
		nd.Env["LOG_LEVEL"] = "panic"
		nd.Exit = func(string) { d.srv[i] = nil }
		d.nodes = append(d.nodes, nd)
		d.boot(i)
	}
	if p.Par("mode") == 1 {
		net.MsgLossNodes = map[string]bool{fmt.Sprint("n", p.Par("bad")): true}
	}
	d.total = len(p.Ops)
	c.Cfg.Net = net
	threads(c, p.Ops, func(int64) *simrt.Node { return nil }, func(th int64, i int, o fw.Op) { d.do(th, o) })
	// faults stop
	c.Cfg.Net = quiet
	c.HealAll()
	for i, n := range d.nodes {
		c.CancelCrash(n)
		d.boot(i)
	}
	c.SleepFor(3 * time.Minute) // every view of the register is refreshed
	d.final()
}

func (d *p2pRun) final() {
	c := d.c
	for a := 0; a < d.n; a++ {
		for b := 0; b < d.n; b++ {
			if a == b {
				continue
			}
			ok := false
			var last error
			for k := 0; k < 3 && !ok; k++ {
				r, ran, took, err := d.request(a, b, fw.Op{K: []string{"echo", "multi", "ack"}[d.c.R.N(3)], A: []int64{0, 0, 0, 100, 100, 2}})
				if !ran {
					c.Fail("C11", "node does not come back", "n%d", a)
					return
				}
				if took > 4*d.tmo+2*time.Minute {
					c.Fail("C11", "request takes unreasonably long", "n%d -> n%d took %v after all faults had ceased", a, b, took)
				}
				ok, last = r, err
			}
			if !ok {
				c.Fail("C11", "peers do not find back to each other", "n%d -> n%d: three requests after all faults ceased fail, the last with: %v", a, b, last)
			}
			c.Probe("recovered-pair")
		}
	}
	// connections: at most one in each direction, and threads accordingly
	c.SleepFor(3*d.tmo + 5*time.Minute)
	for a := 0; a < d.n; a++ {
		out := map[string]int{}
		in := 0
		for _, k := range c.OpenConns(d.nodes[a]) {
			if strings.HasSuffix(k.RemoteAddr().String(), ":9012") || strings.HasSuffix(k.RemoteAddr().String(), ":9013") {
				out[k.RemoteAddr().String()]++
			} else if x := k.PeerNode(); x != d.str && x != d.reg {
				in++
			}
		}
		for _, to := range sortedStr(out) {
			if out[to] > 1 {
				c.Fail("C11", "connections leak", "n%d holds %d connections to %s after everything is quiet", a, out[to], to)
			}
		}
		if in > 2*(d.n-1) {
			c.Fail("C11", "connections leak", "n%d holds %d incoming connections", a, in)
		}
		if l := c.BlockedTasks(d.nodes[a]); len(l) > in+8 {
			c.Fail("C11", "threads leak", "n%d has %d threads waiting for %d connections:\n%s", a, len(l), in, strings.Join(l, "\n"))
		}
	}
}

func init() {
	fw.Register(&fw.Scenario{Name: "p2p", Gen: genP2P, Run: runP2P, HangProp: []string{"C11", "C12"}, CrashProp: []string{"C11", "C12"},
		Real: []string{"common/pkg/fcrp2pserver", "common/pkg/fcrmessages", "common/pkg/fcrregistermgr"}, Stub: []string{"register service", "message handlers and requesters of the harness"}})
	fw.Checks["C10"] = []fw.Use{{Scenario: "p2p", Weight: 1}}
	fw.Checks["C11"] = []fw.Use{{Scenario: "p2p", Weight: 1}}
	fw.Checks["C12"] = []fw.Use{{Scenario: "p2p", Weight: 4}, {Scenario: "cluster-strangers", Weight: 1}}
}
