package sc

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/challenge"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"

	"sim.local/h/fw"
	"sim.local/h/simrt"
)

// Random sources under concurrency, restarts, clocks that stand still or go back, machines cloned from one another and system
// random sources that are stuck or repeat themselves after a restart.

const (
	rndUnique = iota // nothing drawn anywhere is ever drawn again
	rndOrder         // concurrent use of one source is like some sequential use of its twin
	rndPool          // a kick reaches every source of the process
)

var rndLens = []int64{1, 8, 16, 31, 32, 33, 63, 64, 65, 100, 128, 200}

func genRnd(r *simrt.PRNG, p *fw.Plan) {
	knobs(r, p)
	mode := r.Weighted([]int{5, 5, 2})
	p.P["mode"] = int64(mode)
	th := 2 + r.N(4)
	switch mode {
	case rndUnique:
		ph := 1 + r.N(3)
		p.P["phases"], p.P["two"] = int64(ph), int64(r.N(2))
		p.P["samehw"] = int64(r.N(2))
		p.P["clock"] = int64(r.N(3))   // runs on; goes back at each restart; stands still
		p.P["entropy"] = int64(r.N(3)) // good; stuck; repeats after a restart
		for i := 0; i < 5+r.N(25)*ph; i++ {
			t, f := int64(r.N(th)), int64(r.N(ph))
			switch r.Weighted([]int{3, 10, 2, 2, 1}) {
			case 0:
				p.Ops = append(p.Ops, fw.Op{K: "new", A: []int64{t, f, int64(r.N(4)), int64(r.N(2))}})
			case 1:
				p.Ops = append(p.Ops, fw.Op{K: "draw", A: []int64{t, f, int64(r.N(9)), rndLens[r.N(len(rndLens))], int64(r.N(2))}})
			case 2:
				p.Ops = append(p.Ops, fw.Op{K: "reseed", A: []int64{t, f, int64(r.N(9)), int64(r.N(3))}})
			case 3:
				p.Ops = append(p.Ops, fw.Op{K: "kick", A: []int64{t, f}})
			case 4:
				p.Ops = append(p.Ops, fw.Op{K: "sleep", A: []int64{t, f, r.I64(1000)}})
			}
		}
	case rndOrder:
		for i := 0; i < 4+r.N(9); i++ {
			t := int64(r.N(th))
			switch r.Weighted([]int{10, 3, 2}) {
			case 0:
				p.Ops = append(p.Ops, fw.Op{K: "draw", A: []int64{t, 16 + r.I64(17)}})
			case 1:
				p.Ops = append(p.Ops, fw.Op{K: "reseed", A: []int64{t, int64(i)}})
			case 2:
				p.Ops = append(p.Ops, fw.Op{K: "qkick", A: []int64{t}})
			}
		}
	case rndPool:
		for i := 0; i < 2+r.N(6); i++ {
			p.Ops = append(p.Ops, fw.Op{K: "new", A: []int64{int64(r.N(th)), int64(i)}})
		}
		p.P["kicks"] = 1 + r.I64(3)
	}
}

type rndSrc struct {
	node    *simrt.Node
	inc     int
	dom     string
	t0, t1  time.Time
	entropy int64
	r       fcrcrypto.Random // nil: reached through package functions
	name    string
}

type rndHit struct {
	s   *rndSrc
	pos string
}

type rndRun struct {
	c     *fw.Ctx
	nodes []*simrt.Node
	srcs  map[*simrt.Node][]*rndSrc
	seen  map[[16]byte][]rndHit
	good  *rndSrc // the system's random source itself
}

func (d *rndRun) same(a, b *rndSrc) bool {
	if a == b {
		return a.entropy == 0 || a != d.good
	}
	if a.entropy == 0 || b.entropy == 0 || a.dom != b.dom || !bytes.Equal(a.node.HW, b.node.HW) {
		return true
	}
	return a.t1.Before(b.t0) || b.t1.Before(a.t0)
}

func (d *rndRun) take(s *rndSrc, b []byte, what string) {
	for i := 0; i+16 <= len(b); i += 16 {
		var k [16]byte
		copy(k[:], b[i:])
		pos := fmt.Sprintf("%s, %s, bytes %d to %d of %d", s.name, what, i, i+16, len(b))
		for _, o := range d.seen[k] {
			if d.same(o.s, s) {
				d.c.Fail("C17", "the same random bytes are handed out twice", "%x: %s; and %s", k, o.pos, pos)
			}
		}
		d.seen[k] = append(d.seen[k], rndHit{s, pos})
	}
	d.c.NonTriv = true
}

var rndDoms = []string{"fc-retrieval/client-keys", "fc-retrieval/client-secrets", "a", ""}

func (d *rndRun) do(n *simrt.Node, o fw.Op) {
	c := d.c
	c.Probe("op-" + o.K)
	ss := d.srcs[n]
	switch o.K {
	case "sleep":
		c.SleepFor(time.Duration(o.Arg(2)) * time.Millisecond)
	case "kick":
		fcrcrypto.PRNGEntropyKick()
	case "new":
		s := &rndSrc{node: n, inc: n.Inc, dom: rndDoms[o.Arg(2)], t0: c.TimeOn(n), entropy: c.Plan.Par("entropy")}
		s.name = fmt.Sprintf("source %d (%q) of %s, life %d", len(ss), s.dom, n.Name, n.Inc)
		if o.Arg(3) == 0 {
			s.r = fcrcrypto.NewPRNG([]byte(s.dom))
		} else {
			s.r = fcrcrypto.NewPrivatePRNG([]byte(s.dom))
		}
		s.t1 = c.TimeOn(n)
		d.srcs[n] = append(d.srcs[n], s)
	case "reseed":
		if s := ss[o.Arg(2)%int64(len(ss))]; s.r != nil {
			s.r.Reseed([]byte{byte(o.Arg(3))})
		}
	case "draw":
		i := o.Arg(2) % int64(len(ss)+3)
		b := make([]byte, o.Arg(3))
		what := "draw"
		var s *rndSrc
		switch {
		case i < int64(len(ss)):
			s = ss[i]
		default:
			s = ss[0]
		}
		switch {
		case i == int64(len(ss)):
			b, what = nodeid.NewRandomNodeID().ToBytes(), "node identifier"
		case i == int64(len(ss))+1:
			b, what = cid.NewRandomContentID().ToBytes(), "content identifier"
		case i == int64(len(ss))+2:
			s, what = d.good, "challenge"
			x, err := base64.StdEncoding.DecodeString(challenge.NewRandomChallenge())
			if err != nil {
				c.Fail("C17", "challenge is not base64", "%v", err)
			}
			b = x
		case i == 0:
			if o.Arg(4) == 0 {
				fcrcrypto.GeneratePublicRandomBytes(b)
			} else {
				fcrcrypto.GetPublicPRNG().ReadBytes(b)
			}
		case i == 1:
			if o.Arg(4) == 0 {
				fcrcrypto.GeneratePrivateRandomBytes(b)
			} else {
				fcrcrypto.GetPrivatePRNG().ReadBytes(b)
			}
		case o.Arg(4) == 0:
			s.r.ReadBytes(b)
		default:
			k, err := s.r.GetReader().Read(b)
			if err != nil || k != len(b) {
				c.Fail("C17", "a draw is short", "%d of %d bytes, %v", k, len(b), err)
			}
		}
		if i == 0 || i == 1 || i == int64(len(ss)) || i == int64(len(ss))+1 {
			if t := c.TimeOn(n); s.t1.After(t) || s.t1.Equal(s.t0) {
				s.t1 = t
			}
		}
		d.take(s, b, what)
	}
}

func (d *rndRun) boot(n *simrt.Node, life int) {
	c := d.c
	switch c.Plan.Par("entropy") {
	case 1:
		n.Entropy = func(b []byte) (int, error) {
			clear(b)
			return len(b), nil
		}
		c.Injected("entropy-stuck")
	case 2:
		n.Entropy = simrt.NewPRNG(4711).Read
		if life > 0 {
			c.Injected("entropy-repeats")
		}
	}
	switch c.Plan.Par("clock") {
	case 1:
		n.Skew = -c.Elapsed()
		if life > 0 {
			c.Injected("clock-back")
		}
	case 2:
		n.Stuck = simrt.Epoch
		c.Injected("clock-stuck")
	}
	c.Boot(n, "idle", func() {})
	t := c.TimeOn(n)
	d.srcs[n] = []*rndSrc{
		{node: n, inc: n.Inc, dom: "public", t0: t, t1: t, entropy: c.Plan.Par("entropy"), name: fmt.Sprintf("public source of %s, life %d", n.Name, n.Inc)},
		{node: n, inc: n.Inc, dom: "private", t0: t, t1: t, entropy: c.Plan.Par("entropy"), name: fmt.Sprintf("private source of %s, life %d", n.Name, n.Inc)},
	}
}

func (d *rndRun) unique() {
	c, p := d.c, d.c.Plan
	d.seen = map[[16]byte][]rndHit{}
	d.srcs = map[*simrt.Node][]*rndSrc{}
	for i := int64(0); i <= p.Par("two"); i++ {
		n := c.AddNode(fmt.Sprintf("n%d", i))
		n.Env["LOG_LEVEL"] = "panic"
		n.HW = []byte{2, 0, 0, 0, 0, byte(i)}
		if p.Par("samehw") == 1 {
			n.HW[5] = 7
		}
		d.nodes = append(d.nodes, n)
	}
	d.good = &rndSrc{node: d.nodes[0], entropy: p.Par("entropy"), name: "the system's source"}
	for f := int64(0); f < p.Par("phases"); f++ {
		for _, n := range d.nodes {
			if n.Alive {
				c.CrashNode(n, "injected")
				c.Injected("crash")
			}
			d.boot(n, int(f))
		}
		var ops []fw.Op
		for _, o := range p.Ops {
			if o.Arg(1) == f {
				ops = append(ops, o)
			}
		}
		of := func(t int64) *simrt.Node { return d.nodes[t%int64(len(d.nodes))] }
		threads(c, ops, of, func(th int64, i int, o fw.Op) { d.do(of(th), o) })
	}
}

// twins are two machines on which the same calls give the same values: same hardware, stopped clocks, stuck system sources.
func (d *rndRun) twins() (a, b *simrt.Node) {
	for i := 0; i < 2; i++ {
		n := d.c.AddNode(fmt.Sprintf("n%d", i))
		n.Env["LOG_LEVEL"] = "panic"
		n.HW = []byte{2, 0, 0, 0, 0, 7}
		n.Stuck = simrt.Epoch
		n.Entropy = func(b []byte) (int, error) {
			clear(b)
			return len(b), nil
		}
		d.c.Boot(n, "idle", func() {})
		d.nodes = append(d.nodes, n)
	}
	d.c.Injected("entropy-stuck")
	d.c.Injected("clock-stuck")
	return d.nodes[0], d.nodes[1]
}

func rndApply(r fcrcrypto.Random, o fw.Op) []byte {
	switch o.K {
	case "draw":
		b := make([]byte, o.Arg(1))
		r.ReadBytes(b)
		return b
	case "reseed":
		r.Reseed([]byte(fmt.Sprintf("seed %d", o.Arg(1))))
	case "qkick":
		r.QuickReseedKick()
	}
	return nil
}

func (d *rndRun) order() {
	c, p := d.c, d.c.Plan
	a, b := d.twins()
	var src fcrcrypto.Random
	if !c.Call(a, "new", func() { src = fcrcrypto.NewPRNG([]byte("twin")) }) {
		return
	}
	var h []fw.HOp
	threads(c, p.Ops, func(int64) *simrt.Node { return a }, func(th int64, i int, o fw.Op) {
		call := c.Seq()
		out := rndApply(src, o)
		h = append(h, fw.HOp{Call: call, Ret: c.Seq(), Who: fmt.Sprintf("thread%d", th), In: o, Out: out})
		c.NonTriv = true
		c.Probe("op-" + o.K)
	})
	if len(c.Crashes) > 0 {
		return
	}
	// what is left in the source afterwards tells whether a reseeding got lost
	for i := 0; i < 2; i++ {
		c.Call(a, "last", func() {
			call := c.Seq()
			o := fw.Op{K: "draw", A: []int64{99, 32}}
			out := rndApply(src, o)
			h = append(h, fw.HOp{Call: call, Ret: c.Seq(), Who: "last", In: o, Out: out})
		})
	}
	c.Call(b, "twin", func() {
		c.Atomically(func() {
			// search an order in which the twin, used by one thread, hands out the same values
			budget := 3000
			done := make([]bool, len(h))
			var seq []int
			make0 := func() fcrcrypto.Random {
				r := fcrcrypto.NewPRNG([]byte("twin"))
				for _, i := range seq {
					rndApply(r, h[i].In.(fw.Op))
				}
				return r
			}
			var rec func(left int) (bool, bool)
			rec = func(left int) (bool, bool) {
				if left == 0 {
					return true, true
				}
				min := ^uint64(0)
				for i, o := range h {
					if !done[i] && o.Ret < min {
						min = o.Ret
					}
				}
				for i, o := range h {
					if done[i] || o.Call > min {
						continue
					}
					if budget--; budget < 0 {
						return false, false
					}
					if want := o.Out.([]byte); want != nil && !bytes.Equal(rndApply(make0(), o.In.(fw.Op)), want) {
						continue
					}
					done[i] = true
					seq = append(seq, i)
					ok, dec := rec(left - 1)
					if ok || !dec {
						return ok, dec
					}
					seq = seq[:len(seq)-1]
					done[i] = false
				}
				return false, true
			}
			ok, dec := rec(len(h))
			if !dec {
				c.Probe("undecided")
			} else {
				c.Probe("history-judged")
				if !ok {
					c.Fail("C17", "concurrent use loses state", "no order of these calls gives these values on a source with the same seed\n%s", rndText(h))
				}
			}
			// reseeding changes what comes next
			x, y, z := fcrcrypto.NewPRNG([]byte("twin")), fcrcrypto.NewPRNG([]byte("twin")), fcrcrypto.NewPRNG([]byte("twin"))
			y.Reseed([]byte{1})
			z.Reseed([]byte{2})
			var o [3][32]byte
			x.ReadBytes(o[0][:])
			y.ReadBytes(o[1][:])
			z.ReadBytes(o[2][:])
			if o[0] == o[1] || o[1] == o[2] || o[0] == o[2] {
				c.Fail("C17", "reseeding makes no difference", "%x", o)
			}
		})
	})
}

func rndText(h []fw.HOp) string {
	s := ""
	for _, o := range h {
		s += fmt.Sprintf("[%d-%d] %s %v -> %x\n", o.Call, o.Ret, o.Who, o.In, o.Out)
	}
	return s
}

func (d *rndRun) pool() {
	c, p := d.c, d.c.Plan
	a, b := d.twins()
	got := map[int64][]byte{}
	srcs := map[int64]fcrcrypto.Random{}
	mk := func(o fw.Op) fcrcrypto.Random { return fcrcrypto.NewPrivatePRNG([]byte(fmt.Sprintf("domain %d", o.Arg(1)))) }
	threads(c, p.Ops, func(int64) *simrt.Node { return a }, func(th int64, i int, o fw.Op) {
		c.NonTriv = true
		srcs[o.Arg(1)] = mk(o)
	})
	if len(c.Crashes) > 0 {
		return
	}
	draw := func(r fcrcrypto.Random) []byte {
		b := make([]byte, 32)
		r.ReadBytes(b)
		return b
	}
	c.Call(a, "kick", func() {
		for i := int64(0); i < p.Par("kicks"); i++ {
			fcrcrypto.PRNGEntropyKick()
		}
		for _, o := range p.Ops {
			if r := srcs[o.Arg(1)]; r != nil {
				got[o.Arg(1)] = draw(r)
			}
		}
	})
	c.Call(b, "twin", func() {
		for _, o := range p.Ops {
			r, plain := mk(o), mk(fw.Op{A: []int64{0, o.Arg(1)}})
			kicked := draw(plain)
			for i := int64(0); i < p.Par("kicks"); i++ {
				r.QuickReseedKick()
			}
			if g := got[o.Arg(1)]; g != nil && bytes.Equal(g, kicked) {
				c.Fail("C17", "a kick does not reach a source", "source %d of %d created", o.Arg(1), len(p.Ops))
			}
		}
	})
}

func runRnd(c *fw.Ctx) {
	d := &rndRun{c: c}
	switch c.Plan.Par("mode") {
	case rndUnique:
		d.unique()
	case rndOrder:
		d.order()
	case rndPool:
		d.pool()
	}
}

func init() {
	fw.Register(&fw.Scenario{Name: "random", Gen: genRnd, Run: runRnd, HangProp: []string{"C17"}, CrashProp: []string{"C17"},
		Real: []string{"common/pkg/fcrcrypto (random sources)", "common/pkg/nodeid", "common/pkg/cid", "common/pkg/challenge"},
		Stub: []string{"the system's random source, clock and hardware addresses"}})
	fw.Checks["C17"] = []fw.Use{{Scenario: "random", Weight: 1}}
}
