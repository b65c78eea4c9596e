package sc

import (
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrregistermgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/gateway-admin/pkg/fcrgatewayadmin"
	"github.com/ConsenSys/fc-retrieval/provider-admin/pkg/fcrprovideradmin"

	"sim.local/h/fw"
	"sim.local/h/simrt"
)

func frame(b []byte) []byte {
	return append(binary.BigEndian.AppendUint32(nil, uint32(len(b))), b...)
}

func readFrame(c io.Reader) ([]byte, error) {
	var h [4]byte
	if _, err := io.ReadFull(c, h[:]); err != nil {
		return nil, err
	}
	n := binary.BigEndian.Uint32(h[:])
	if n > 64<<20 {
		return nil, errors.New("too long")
	}
	b := make([]byte, n)
	_, err := io.ReadFull(c, b)
	return b, err
}

// --- plans

func genCluster(mode int64) func(r *simrt.PRNG, p *fw.Plan) {
	return func(r *simrt.PRNG, p *fw.Plan) {
		knobs(r, p)
		if r.P(0.8) {
			p.MeanGap = 200 + r.N(3000) // long runs
		}
		p.MaxTime = 96 * time.Hour
		p.MaxSteps = 60_000_000
		p.P["mode"] = mode
		p.P["ids"], p.P["fam"], p.P["seed"] = r.I64(1<<40), int64(r.N(6)), r.I64(1<<40)
		p.P["cids"] = int64(1 + r.N(6))
		p.P["tmo"] = []int64{5, 10, 20}[r.N(3)]
		p.P["price0"], p.P["price1"] = []int64{1, 10, 1_000_000}[r.N(3)], []int64{1, 7, 20, 1_000_000}[r.N(4)]
		p.Net.MinLat = []time.Duration{0, time.Millisecond, 20 * time.Millisecond, 100 * time.Millisecond}[r.N(4)]
		p.Net.Jitter = []time.Duration{0, time.Millisecond, 50 * time.Millisecond}[r.N(3)]
		ng, np := 2+r.N(4), 1+r.N(3)
		if r.P(0.08) && (mode == clReach || mode == clFind || mode == clList) {
			ng = 16 + r.N(4) // more than 16 are responsible for nobody
			np = 1
		}
		if r.P(0.4) {
			p.P["v1"] = 1
		}
		late := 0
		switch mode {
		case clJoin:
			ng, late = 2+r.N(3), 1+r.N(2)
			if r.P(0.4) {
				p.P["ghosts"] = int64(1 + r.N(3))
			}
		case clAuthentic:
			p.P["evil"] = 1
		case clReach, clFind, clList:
			if r.P(0.3) {
				p.P["rogue"] = 1
			}
		case clLive:
			ng, np = 2+r.N(4), 1+r.N(2)
			p.P["rogue"] = 1
		case clPaid:
			ng, np = 2+r.N(3), 1
			p.P["rogue"], p.P["serial"] = 1, int64(r.N(2))
		case clInit:
			ng, np = 1+r.N(3), 1+r.N(2)
		}
		if mode == clPaid || mode == clLive {
			p.P["v1"] = 0
		}
		p.P["gws"], p.P["provs"], p.P["late"] = int64(ng), int64(np), int64(late)
		calm := r.P(0.35)
		if !calm {
			if r.P(0.6) {
				p.Net.PReset, p.Net.PDialFail = []float64{0, 0.001, 0.02}[r.N(3)], []float64{0, 0.02, 0.2}[r.N(3)]
			}
			if r.P(0.5) {
				p.Net.PHTTPReqLost, p.Net.PHTTPRespLost = []float64{0, 0.03, 0.2}[r.N(3)], []float64{0, 0.03, 0.2}[r.N(3)]
			}
			if r.P(0.4) {
				p.Net.PHTTPSlow, p.Net.HTTPSlowFor = 0.05, time.Duration(1+r.N(200))*time.Second
				p.Net.PStall, p.Net.StallFor = []float64{0, 0.01}[r.N(2)], time.Duration(1+r.N(60))*time.Second
			}
			p.Net.PAcceptErr, p.Net.PShortRead = []float64{0, 0.02}[r.N(2)], []float64{0, 0.3}[r.N(2)]
			p.P["reddis"] = int64(r.N(3))
			p.P["chaindis"] = int64(r.N(3))
			switch mode {
			case clReach, clJoin, clFind, clList, clAuthentic:
				p.P["disk"] = int64(r.Weighted([]int{6, 1, 1, 1}))
			}
		}
		switch mode {
		case clReach, clJoin, clFind, clList:
			if r.P(0.25) {
				p.P["rekey"] = 1 + r.I64(1<<40-1)
			}
		}
		th := 1 + r.N(4)
		ph := int64(0)
		add := func(k string, a ...int64) {
			p.Ops = append(p.Ops, fw.Op{K: k, A: append([]int64{ph*100 + int64(r.N(th))}, a...)})
		}
		pub := func(k string) {
			a := []int64{int64(r.N(np)), r.I64(1 << 40)}
			for n := 1 + r.N(3); n > 0; n-- {
				a = append(a, int64(r.N(int(p.P["cids"]))))
			}
			add(k, a...)
		}
		lists := func() {
			a := []int64{int64(r.N(np))}
			if r.P(0.8) {
				for n := 1 + r.N(3); n > 0; n-- {
					a = append(a, int64(r.N(ng+1)))
				}
			}
			add("list", a...)
		}
		find := func() {
			add([]string{"find1", "find2", "dht1", "dht2"}[r.Weighted([]int{2, 3, 2, 4})], int64(r.N(ng)), int64(r.N(int(p.P["cids"]))))
		}
		if mode == clInit {
			genInit(r, p, add)
			return
		}
		for ph = 0; ph < 3; ph++ {
			if calm && ph == 1 {
				continue
			}
			n := 2 + r.N(10)
			many := 0
			if p.P["disk"] > 0 || p.P["rekey"] > 0 {
				many = 1
			}
			if mode == clLive && r.P(0.7) {
				n *= 4
			}
			for ; n > 0; n-- {
				if ph == 1 && r.P(0.3) {
					switch r.N(6) {
					case 0, 1:
						add("crash", int64(r.N(ng+np)), r.I64(5000), int64(r.N(2)), r.I64(60000))
					case 2:
						add("cut", int64(r.N(ng+np+1)), int64(r.N(ng+np+1)), r.I64(120000))
					case 3:
						add("regdown", r.I64(60000))
					case 4:
						add("sleep", r.I64(30000))
					case 5:
						add("refresh", int64(r.N(ng+np)))
					}
					continue
				}
				var w []int // pubd pubg find list ack fetch join attack junk refresh feat paid live jump
				switch mode {
				case clAuthentic:
					w = []int{4, 2, 1, 0, 0, 2, 0, 12, 0, 0, 0}
				case clReach:
					w = []int{8, 2, 1, 2, 6, 1, 0, 0, 0, 1, 0}
				case clJoin:
					w = []int{10, 1, 1, 0, 1, 4, 3, 0, 0, 1, 0}
				case clFind:
					w = []int{5, 4, 10, 0, 1, 1, 0, 0, 0, 1, 1}
				case clList:
					w = []int{8, 3, 0, 8, 0, 0, 0, 0, 0, 0, 1}
				case clPaid:
					w = []int{3, 2, 3, 0, 0, 0, 0, 0, 0, 0, 0, 24}
				case clLive:
					w = []int{0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 24, 4}
				case clJunk:
					w = []int{2, 1, 3, 1, 1, 1, 0, 0, 25, 0, 0}
				}
				switch r.Weighted(w) {
				case 0:
					if mode == clJoin && r.P([]float64{0.06, 0.2}[many]) {
						add("pubd", int64(r.N(np)), r.I64(1<<40), 1000+1+r.I64([]int64{120, 120, 300}[r.N(3)]))
						break
					}
					pub("pubd")
				case 1:
					pub("pubg")
				case 2:
					find()
				case 3:
					lists()
				case 4:
					add("ack", int64(r.N(np)), int64(r.N(ng)), int64(r.N(int(p.P["cids"]))))
				case 5:
					add("fetch", int64(r.N(ng)))
				case 6:
					add("join", int64(r.N(2)))
				case 7:
					add("attack", int64(r.N(ng)), r.I64(1<<40), int64(r.N(17)), int64(r.N(2)))
				case 8:
					add("junk", int64(r.N(ng+np)), r.I64(1<<40), int64(r.N(34)))
				case 9:
					add("refresh", int64(r.N(ng+np)))
				case 11:
					add("paid", int64(r.N(ng-1)), int64(r.N(6)), int64(r.N(3)), r.I64(1<<40), int64(r.Weighted([]int{6, 2, 3, 1, 2, 1, 1, 1, 2, 1, 2, 1})), int64(r.N(8)))
				case 12:
					add("live", int64(r.N(ng)), int64(r.N(lkKinds)), r.I64(1<<40), int64(r.N(8)), int64(r.N(10)), int64(r.N(3)))
				case 13:
					by := []int64{-7200, -60, -3, -1, 1, 2, 5, 60, 7200}[r.N(9)]
					add("jump", int64(r.N(ng)), by*1000+int64(r.N(1000)))
				case 10:
					add("feat", int64(r.N(ng)), int64(r.N(1<<np)))
				}
			}
		}
	}
}

func genInit(r *simrt.PRNG, p *fw.Plan, add func(string, ...int64)) {
	n := int(p.P["gws"] + p.P["provs"])
	p.P["init"] = 1
	// one thread per node and one for the outages
	for i := 0; i < n; i++ {
		for k := 1 + r.N(5); k > 0; k-- {
			ph := int64(r.Weighted([]int{1, 3, 1}))
			t := ph*100 + int64(i)
			switch r.Weighted([]int{8, 3, 2, 2, 1}) {
			case 0:
				p.Ops = append(p.Ops, fw.Op{K: "init", A: []int64{t, int64(i), int64(r.N(3)), int64(r.N(2)), int64(r.N(3))}})
			case 1:
				p.Ops = append(p.Ops, fw.Op{K: "crash", A: []int64{t, int64(i), r.I64(3000), 1, r.I64(20000)}})
			case 2:
				p.Ops = append(p.Ops, fw.Op{K: "sleep", A: []int64{t, r.I64(20000)}})
			case 3:
				p.Ops = append(p.Ops, fw.Op{K: "look", A: []int64{t, int64(i)}})
			case 4:
				p.Ops = append(p.Ops, fw.Op{K: "badinit", A: []int64{t, int64(i), r.I64(1 << 40)}})
			}
		}
	}
	for k := r.N(4); k > 0; k-- {
		switch r.N(3) {
		case 0:
			p.Ops = append(p.Ops, fw.Op{K: "regdown", A: []int64{199, r.I64(30000)}})
		case 1:
			p.Ops = append(p.Ops, fw.Op{K: "cut", A: []int64{199, int64(r.N(n + 1)), int64(r.N(n + 1)), r.I64(60000)}})
		case 2:
			p.Ops = append(p.Ops, fw.Op{K: "sleep", A: []int64{199, r.I64(10000)}})
		}
	}
	sort.SliceStable(p.Ops, func(i, j int) bool { return p.Ops[i].A[0]/100 < p.Ops[j].A[0]/100 })
}

// --- running

func runCluster(c *fw.Ctx) {
	p := c.Plan
	d := &clWorld{c: c, mode: p.Par("mode"), r: c.R.Fork(uint64(p.Par("seed"))), ncid: int(p.Par("cids")), byKey: map[string]*clTup{}, acked: map[string]bool{}, prices: [2]int64{p.Par("price0"), p.Par("price1")}}
	c.Data = d
	rough := p.Net
	quiet := simrt.NetConfig{MinLat: rough.MinLat, Jitter: rough.Jitter}
	c.Cfg.Net = quiet
	d.redis = NewRedis(c, RedisFaults{})
	d.reg, d.admin, d.watch, d.app, d.str = c.AddNode("register"), c.AddNode("admin"), c.AddNode("watch"), c.AddNode("client"), c.AddNode("stranger")
	d.chain = NewChain(c, ChainFaults{Lat: time.Duration(p.Par("seed")%3) * 100 * time.Millisecond})
	d.chain.AddWallet(WalletN(0))
	for i := 0; i < 24; i++ {
		d.chain.AddWallet(WalletN(1 + i))
		d.chain.AddWallet(WalletN(30 + i))
	}
	for _, n := range []*simrt.Node{d.admin, d.watch, d.app, d.str} {
		n.Env["LOG_LEVEL"] = "panic"
		n.Env["REGISTER_API_URL"] = "http://register:9020"
	}
	BootRegister(c, d.reg, "9020")
	c.Boot(d.watch, "watch", func() {})
	c.Boot(d.str, "stranger", func() {})
	ok := false
	c.Boot(d.admin, "admin", func() {
		d.rm = fcrregistermgr.NewFCRRegisterMgr("http://register:9020", true, true, 10*time.Second)
		if err := d.rm.Start(); err != nil {
			c.Err("admin: %v", err)
			return
		}
		gs := fcrgatewayadmin.CreateSettings()
		gs.SetBlockchainPrivateKey(keyN(44).kp)
		gs.SetRegisterURL("http://register:9020")
		d.ga = fcrgatewayadmin.NewFilecoinRetrievalGatewayAdmin(*gs.Build())
		ps := fcrprovideradmin.CreateSettings()
		ps.SetBlockchainPrivateKey(keyN(45).kp)
		ps.SetRegisterURL("http://register:9020")
		d.pa = fcrprovideradmin.NewFilecoinRetrievalProviderAdmin(*ps.Build())
		ok = true
	})
	if !c.WaitUntil(time.Minute, 10*time.Millisecond, func() bool { return ok || !d.admin.Alive }) || !ok {
		c.Err("admin does not start: %v", c.Crashes)
		return
	}
	ng, np, late := int(p.Par("gws")), int(p.Par("provs")), int(p.Par("late"))
	for i := 0; i < ng+late; i++ {
		g := d.mkNode(i, true)
		g.late = i >= ng
		d.gws = append(d.gws, g)
	}
	for i := 0; i < np; i++ {
		d.provs = append(d.provs, d.mkNode(i, false))
	}
	skews := c.R.Fork(uint64(p.Par("seed")) + 1)
	for _, n := range d.nodes() {
		n.node.Skew = time.Duration(skews.N(7)) * time.Second
		n.skew0 = n.node.Skew
	}
	if d.mode == clPaid || d.mode == clLive {
		d.payInit()
		if p.Par("rogue") == 1 {
			d.bootRecorder(d.gws[ng-1])
		}
	} else if p.Par("rogue") == 1 {
		d.bootRogue(d.gws[ng-1])
	}
	if k := int(p.Par("ghosts")); k > 0 {
		d.bootGhosts(k)
	}
	if p.Par("evil") == 1 {
		d.evil = d.mkNode(14, false)
		d.bootEvil()
	}
	if p.Par("init") == 1 {
		for _, n := range d.nodes() {
			d.start(n)
		}
	} else if !d.settle("at the start") {
		return
	}
	for ph := 0; ph < 3; ph++ {
		var ops []fw.Op
		for _, o := range p.Ops {
			if int(o.Arg(0)/100) == ph {
				ops = append(ops, o)
			}
		}
		d.phase = ph
		if m := p.Par("rekey"); m != 0 && ph == 2 {
			d.rekey(m)
			if !d.settle("after new keys") {
				return
			}
		}
		if ph == 1 {
			if len(ops) == 0 {
				continue
			}
			c.Cfg.Net = rough
			d.redis.F = []RedisFaults{{}, {PErr: 0.03, PBefore: 0.03, PAfter: 0.03, PRefuse: 0.03}, {PErr: 0.2, PAfter: 0.2}}[p.Par("reddis")%3]
			d.chain.F.PErr, d.chain.F.PErrLate, d.chain.F.PExit = []float64{0, 0.05, 0.3}[p.Par("chaindis")%3], []float64{0, 0.05, 0.2}[p.Par("chaindis")%3], []float64{0, 0.05, 0.2}[p.Par("chaindis")%3]
			c.Cfg.Disk.PIOErr, c.Cfg.Disk.PFull = []float64{0, 0, 0.02, 0.2}[p.Par("disk")], []float64{0, 0.1, 0, 0.2}[p.Par("disk")]
			d.bad++
		}
		base := ph * 1000
		threads(c, ops, func(int64) *simrt.Node { return nil }, func(th int64, i int, o fw.Op) {
			if len(c.Fails) == 0 {
				d.do(base+i, o)
			}
		})
		if len(c.Fails) > 0 {
			return
		}
		if ph == 1 {
			// disturbances stop
			c.Cfg.Net = quiet
			d.redis.F = RedisFaults{}
			c.Cfg.Disk = simrt.DiskConfig{}
			d.chain.F.PErr, d.chain.F.PErrLate, d.chain.F.PExit = 0, 0, 0
			c.HealAll()
			for _, n := range d.nodes() {
				c.CancelCrash(n.node)
			}
			c.CancelCrash(d.reg)
			if !d.reg.Alive {
				BootRegister(c, d.reg, "9020")
			}
			c.SleepFor(6 * time.Minute)
			d.phase = 2
			d.setClocks()
			if p.Par("init") != 1 && !d.settle("after the disturbances") {
				return
			}
		}
	}
	d.phase = 2
	d.final()
	// nothing may die
	for _, n := range d.nodes() {
		if n.node.Alive {
			c.Probe("alive-at-end")
		}
	}
}

func (d *clWorld) final() {
	c := d.c
	if c.Plan.Par("init") == 1 {
		d.finalInit()
		if len(c.Fails) > 0 {
			return
		}
	}
	d.setClocks()
	if !d.settle("at the end") || d.mode == clLive {
		return
	}
	var ks []int
	for k := 0; k < d.ncid; k++ {
		ks = append(ks, k)
	}
	d.judgeStores(nil, ks)
	if len(c.Fails) > 0 {
		return
	}
	switch d.mode {
	case clReach, clJoin, clFind, clJunk:
		d.judgeAcks(ks)
	}
	for i := range d.provs {
		d.list(fw.Op{K: "list", A: []int64{200, int64(i)}})
		if d.mode == clList {
			for j := range d.gws {
				d.list(fw.Op{K: "list", A: []int64{200, int64(i), int64(j)}})
			}
		}
	}
	if len(c.Fails) > 0 {
		return
	}
	for i := range d.gws {
		if i >= 6 {
			break
		}
		for _, k := range ks {
			for _, what := range []string{"find1", "find2", "dht1", "dht2"} {
				if d.mode != clFind && !d.r.P(0.2) {
					continue
				}
				d.find(fw.Op{K: what, A: []int64{200, int64(i), int64(k)}})
				if len(c.Fails) > 0 {
					return
				}
			}
			for j := range d.provs {
				if d.mode == clReach || d.mode == clJoin {
					d.clientAck(fw.Op{K: "ack", A: []int64{200, int64(j), int64(i), int64(k)}})
				}
			}
		}
	}
}

func (d *clWorld) nodeN(i int64) *clNode {
	l := d.nodes()
	return l[int(i)%len(l)]
}

func (d *clWorld) do(i int, o fw.Op) {
	c := d.c
	c.Probe("op-" + o.K)
	switch o.K {
	case "sleep":
		c.SleepFor(time.Duration(o.Arg(1)) * time.Millisecond)
	case "pubd", "pubg":
		d.publish(i, o)
	case "list":
		d.list(o)
	case "find1", "find2", "dht1", "dht2":
		d.find(o)
	case "ack":
		d.clientAck(o)
	case "fetch":
		d.fetch(o)
	case "join":
		d.join(o)
	case "attack":
		d.attack(i, o)
	case "live":
		d.liveOp(o)
	case "jump":
		d.jump(d.gws[int(o.Arg(1))%len(d.gws)], time.Duration(o.Arg(2))*time.Millisecond)
	case "paid":
		d.paidOp(i, o)
	case "junk":
		d.junk(o)
	case "refresh":
		if n := d.nodeN(o.Arg(1)); n.ready() {
			if err := d.refresh(n); err != nil && d.phase != 1 {
				c.Fail("C22", "an initialised node does not answer its administrator", "%s: %v", n.name, err)
			}
		}
	case "feat":
		g := d.gws[int(o.Arg(1))%len(d.gws)]
		if !g.ready() || g.rogue {
			return
		}
		var l []nodeid.NodeID
		for j, p := range d.provs {
			if o.Arg(2)>>uint(j)&1 == 1 {
				l = append(l, *p.id)
			}
		}
		var err error
		c.Call(d.admin, "feat", func() { err = d.ga.UpdateGatewaySupportedFeatures(g.greg, l) })
		if err != nil && d.phase != 1 {
			c.Fail("C22", "an initialised node does not answer its administrator", "%s: %v", g.name, err)
		}
	case "crash":
		n := d.nodeN(o.Arg(1))
		if n.rogue || n.late || !n.node.Alive {
			return
		}
		if d.phase != 1 && d.mode != clInit {
			return
		}
		c.CrashAfterSteps(n.node, uint64(1+o.Arg(2)*20))
		c.SleepFor(time.Duration(o.Arg(2)) * time.Millisecond)
		c.CancelCrash(n.node)
		d.bad++
		if n.node.Alive {
			d.crash(n)
		} else {
			c.Injected("crash-" + n.name[:2])
		}
		c.SleepFor(time.Duration(o.Arg(4)) * time.Millisecond)
		d.start(n)
		if o.Arg(3) == 1 && d.mode != clInit {
			d.initialise(n)
		}
	case "cut":
		if d.phase != 1 {
			return
		}
		l := []*simrt.Node{d.reg}
		for _, n := range d.nodes() {
			l = append(l, n.node)
		}
		a, b := l[int(o.Arg(1))%len(l)], l[int(o.Arg(2))%len(l)]
		if a == b {
			b = d.admin
		}
		c.Injected("partition")
		c.Cut(a, b)
		c.SleepFor(time.Duration(o.Arg(3)) * time.Millisecond)
		c.Heal(a, b)
	case "regdown":
		if d.phase != 1 || !d.reg.Alive {
			return
		}
		c.Injected("register-outage")
		c.CrashNode(d.reg, "injected")
		d.redis.Died(d.reg)
		c.SleepFor(time.Duration(o.Arg(1)) * time.Millisecond)
		BootRegister(c, d.reg, "9020")
	case "init":
		d.initOp(o)
	case "badinit":
		d.badInit(o)
	case "look":
		d.look(d.nodeN(o.Arg(1)))
	}
}

// --- initialising (C22)

// version makes a node's v-th identity: other keys, other addresses of the same machine.
func (d *clWorld) version(n *clNode, v int64) {
	n.key = keyN((n.keyIdx() + int(v)*9) % 40)
	if n.gw {
		g := *n.greg
		g.SigningKey, g.RegionCode = n.key.pub, []string{"AU", "FR", "US"}[v]
		n.greg = &g
	} else {
		p := *n.preg
		p.SigningKey, p.RegionCode = n.key.pub, []string{"AU", "FR", "US"}[v]
		n.preg = &p
	}
}

func (n *clNode) keyIdx() int {
	if n.gw {
		return n.i
	}
	return 24 + n.i
}

func (n *clNode) record() string {
	var b []byte
	if n.gw {
		b, _ = json.Marshal(n.greg)
	} else {
		b, _ = json.Marshal(n.preg)
	}
	var m map[string]string
	json.Unmarshal(b, &m)
	return canon(m)
}

func (d *clWorld) initOp(o fw.Op) {
	c := d.c
	n := d.nodeN(o.Arg(1))
	d.start(n)
	wasReady := n.node.Alive
	key := n.key
	d.version(n, o.Arg(2)%3)
	inc, bad := n.node.Inc, d.bad
	n.sure = false
	n.recs = append(n.recs, n.record())
	n.keys = append(n.keys, n.key)
	_ = key
	err := d.initialise(n)
	c.NonTriv = true
	if err != nil {
		c.Probe("init-failed")
		n.failed = true
		if d.phase != 1 && wasReady && n.node.Alive && n.node.Inc == inc && bad == d.bad {
			c.Fail("C22", "a reachable node cannot be initialised", "%s: %v", n.name, err)
		}
		return
	}
	c.Probe("initialised")
	if n.node.Inc == inc && n.node.Alive {
		n.sure, n.sureIn = true, inc
		n.keys = []fixedKey{n.key}
	}
	// success was reported: from now on the register has this record
	if d.phase != 1 || !n.failed {
		n.recs = []string{n.record()} // nothing is under way any more
	}
	if d.phase != 1 {
		d.look(n)
	}
}

// badInit sends a node what cannot be an identity.
func (d *clWorld) badInit(o fw.Op) {
	c := d.c
	n := d.nodeN(o.Arg(1))
	r := simrt.NewPRNG(uint64(o.Arg(2)))
	port, t1, t2 := "9013", int32(fcrmessages.GatewayAdminInitialiseKeyRequestType), int32(fcrmessages.GatewayAdminInitialiseKeyRequestV2Type)
	if !n.gw {
		port, t1, t2 = "9033", int32(fcrmessages.ProviderAdminInitialiseKeyRequestType), int32(fcrmessages.ProviderAdminInitialiseKeyRequestV2Type)
	}
	other := keyN(43)
	m := map[string]any{"node_id": provN(12).ToString(), "private_key": other.hex, "private_key_version": 1, "wallet_private_key": WalletN(60).Hex, "lotus_ap": "http://lotus", "lotus_auth_token": "token"}
	t := []int32{t1, t2}[r.N(2)]
	switch r.N(4) {
	case 0:
		m["private_key"] = []any{"", "zz", "01", "0100", nil, 5}[r.N(6)]
	case 1:
		m["node_id"] = []any{"zz", nil, 5, strings.Repeat("0", 70)}[r.N(3)]
		m["private_key"] = ""
	case 2:
		t = t2
		m["wallet_private_key"] = []any{"", "zz", "0", strings.Repeat("xy", 32)}[r.N(4)]
	case 3:
		delete(m, "private_key")
	}
	b, _ := json.Marshal(m)
	c.Injected("bad-initialise")
	c.Call(d.admin, "badinit", func() {
		st, body, err := c.HTTPDo("POST", "http://"+n.name+":"+port+"/v1", "application/json", raw(fcrmessages.CreateFCRMessage(t, b)))
		if err == nil && st == 200 {
			if x, err := fcrmessages.FCRMsgFromBytes(body); err == nil {
				if ok, err := fcrmessages.DecodeGatewayAdminInitialiseKeyResponse(x); err == nil && ok {
					c.Fail("C22", "an impossible initialisation succeeds", "%s: %s", n.name, b)
				}
				if ok, err := fcrmessages.DecodeProviderAdminInitialiseKeyResponse(x); err == nil && ok {
					c.Fail("C22", "an impossible initialisation succeeds", "%s: %s", n.name, b)
				}
			}
		}
	})
}

// regRecord is what the register answers for a node.
func (d *clWorld) regRecord(n *clNode) (string, error) {
	kind := "provider"
	if n.gw {
		kind = "gateway"
	}
	var st int
	var b []byte
	var err error
	d.c.Call(d.watch, "register", func() { st, b, err = d.c.HTTPDo("GET", "http://register:9020/registers/"+kind, "", nil) })
	if err != nil || st != 200 {
		return "", fmt.Errorf("%d %v", st, err)
	}
	var l []map[string]string
	if err := json.Unmarshal(b, &l); err != nil {
		return "", err
	}
	out := ""
	for _, m := range l {
		if m["nodeId"] == n.ids {
			if out != "" {
				d.c.Fail("C22", "a node is listed twice", "%s", n.name)
			}
			out = canon(m)
		}
	}
	return out, nil
}

// look checks a node against the register and its answers against its key.
func (d *clWorld) look(n *clNode) {
	c := d.c
	if d.mode != clInit {
		return
	}
	n0, bad, sure := len(n.keys), d.bad, n.sure
	rec, err := d.regRecord(n)
	if err != nil {
		if d.phase != 1 {
			c.Fail("C22", "the register does not answer", "%v", err)
		}
		return
	}
	if len(n.recs) == 1 && (n.sure || d.phase != 1) && rec != n.recs[0] && !(rec == "" && !n.everOK()) {
		c.Fail("C22", "the register does not list an initialised node as it was given", "%s:\n%s\nshould be\n%s", n.name, rec, n.recs[0])
	}
	okRec := rec == "" && !n.everOK()
	for _, x := range n.recs {
		okRec = okRec || x == rec
	}
	if !okRec {
		c.Fail("C22", "the register does not list an initialised node as it was given", "%s: %s is none of %v", n.name, rec, n.recs)
	}
	c.Probe("record-judged")
	if !sure || !n.node.Alive || n.node.Inc != n.sureIn {
		return
	}
	// it answers under the key the register lists
	m, err := d.ask(n)
	if n.node.Inc != n.sureIn || !n.node.Alive || d.bad != bad || len(n.keys) != n0 {
		return
	}
	if err != nil {
		if d.phase != 1 {
			c.Fail("C22", "an initialised node does not answer", "%s: %v", n.name, err)
		}
		return
	}
	if e := m.Verify(n.key.kp); e != nil {
		c.Fail("C22", "an answer does not verify under the registered key", "%s (%s): %v", n.name, rec, e)
	}
	c.Probe("answer-judged")
}

func (n *clNode) everOK() bool { return n.listed }

// ask sends the simplest question a node answers.
func (d *clWorld) ask(n *clNode) (*fcrmessages.FCRMessage, error) {
	if n.gw {
		q, _ := fcrmessages.EncodeClientEstablishmentRequest(provN(11), "0102030405", d.now()+1000)
		return d.post(n, q)
	}
	q, _ := fcrmessages.EncodeClientDHTOfferAckRequest(cidN(0), provN(11))
	return d.post(n, q)
}

func (d *clWorld) finalInit() {
	c := d.c
	for _, n := range d.nodes() {
		d.look(n)
	}
	for _, n := range d.nodes() {
		d.start(n)
		if len(c.Fails) > 0 {
			return
		}
		d.initOp(fw.Op{K: "init", A: []int64{200, int64(d.index(n)), int64(d.r.N(3))}})
	}
	for _, n := range d.nodes() {
		d.look(n)
	}
}

func (d *clWorld) index(n *clNode) int {
	for i, x := range d.nodes() {
		if x == n {
			return i
		}
	}
	return 0
}

// --- junk (C12)

// genuine requests of every kind, to be damaged
func (d *clWorld) request(r *simrt.PRNG, kind int) (m *fcrmessages.FCRMessage, port string) {
	k := cidN(r.N(d.ncid))
	g := d.gws[r.N(len(d.gws))]
	p := d.provs[r.N(len(d.provs))]
	exp := d.now() + 1000
	n := r.I64(1 << 30)
	pay := []string{"", "f01000", "x"}[r.N(3)]
	v := []string{"", "voucher", "gA"}[r.N(3)]
	dg := []string{strings.Repeat("ab", 32), "x", ""}[r.N(3)]
	off, _ := cidoffer.NewCIDOffer(p.id, []cid.ContentID{*k}, uint64(n)+5_000_000_000, exp+100000, 1)
	off.Sign(p.key.kp, fcrcrypto.InitialKeyVersion())
	if r.P(0.5) {
		off.SetSignature("")
	}
	switch kind {
	case 0:
		m, _ = fcrmessages.EncodeClientEstablishmentRequest(provN(11), "00ff", exp)
		return m, "9010"
	case 1:
		m, _ = fcrmessages.EncodeClientStandardDiscoverRequest(k, n, exp, pay, v)
		return m, "9010"
	case 2:
		m, _ = fcrmessages.EncodeClientStandardDiscoverRequestV2(k, n, exp, pay, v)
		return m, "9010"
	case 3:
		m, _ = fcrmessages.EncodeClientStandardDiscoverOfferRequest(k, n, exp, []string{dg}, pay, v)
		return m, "9010"
	case 4:
		m, _ = fcrmessages.EncodeClientDHTDiscoverRequest(k, n, exp, int64(r.N(20)), false, pay, v)
		return m, "9010"
	case 5:
		m, _ = fcrmessages.EncodeClientDHTDiscoverRequestV2(k, n, exp, int64(r.N(20)), false, pay, v)
		return m, "9010"
	case 6:
		m, _ = fcrmessages.EncodeClientDHTDiscoverOfferRequest(k, n, [][]string{{dg}, {}}[:1+r.N(2)], []nodeid.NodeID{*g.id, *provN(9)}[:1+r.N(2)], pay, v)
		return m, "9010"
	case 7:
		m, _ = fcrmessages.EncodeClientDHTOfferAckRequest(k, g.id)
		return m, "9030"
	case 8:
		m, _ = fcrmessages.EncodeGatewayDHTDiscoverRequest(g.id, k, n, exp, pay, v)
		return m, "9012"
	case 9:
		m, _ = fcrmessages.EncodeGatewayDHTDiscoverRequestV2(g.id, k, n, exp, pay, v)
		return m, "9012"
	case 10:
		m, _ = fcrmessages.EncodeGatewayDHTDiscoverOfferRequest(k, n, []string{dg, dg}[:r.N(3)], pay, v)
		return m, "9012"
	case 11:
		m, _ = fcrmessages.EncodeProviderPublishDHTOfferRequest(p.id, n, []cidoffer.CIDOffer{*off})
		return m, "9011"
	case 12:
		m, _ = fcrmessages.EncodeProviderPublishGroupOfferRequest(p.id, n, off)
		return m, "9011"
	case 13:
		m = fcrmessages.CreateFCRMessage(fcrmessages.GatewayListDHTOfferRequestType, []byte(fmt.Sprintf(`{"gateway_id":%q,"cid_min":%q,"cid_max":%q,"block_hash":"","transaction_receipt":"","merkle_root":"","merkle_proof":null}`, g.ids, cidN(0).ToString(), cidN(1).ToString())))
		return m, "9032"
	case 14:
		m, _ = fcrmessages.EncodeGatewayNotifyProviderGroupCIDOfferSupportRequest(g.id, r.P(0.5))
		return m, "9032"
	case 15:
		m, _ = fcrmessages.EncodeGatewayAdminGetReputationRequest(provN(11))
		return m, "9013"
	case 16:
		m, _ = fcrmessages.EncodeGatewayAdminSetReputationRequest(provN(11), n)
		return m, "9013"
	case 17:
		m, _ = fcrmessages.EncodeUpdateGatewayGroupCIDOfferSupportRequest(g.id, []nodeid.NodeID{*p.id})
		return m, "9013"
	case 18:
		m, _ = fcrmessages.EncodeGatewayAdminListDHTOfferRequest(true)
		return m, "9013"
	case 19:
		m, _ = fcrmessages.EncodeProviderAdminGetPublishedOfferRequest([]nodeid.NodeID{*g.id})
		return m, "9033"
	case 20: // never a valid one: one identifier is too many, so a correct node refuses
		m = fcrmessages.CreateFCRMessage(fcrmessages.ProviderAdminPublishDHTOfferRequestType, []byte(fmt.Sprintf(`{"cids":[%q,"zz"],"price":[1],"expiry":[2],"qos":[3]}`, k.ToString())))
		return m, "9033"
	case 21:
		m = fcrmessages.CreateFCRMessage(fcrmessages.ProviderAdminPublishGroupOfferRequestType, []byte(`{"cids":["zz"],"price":1,"expiry":2,"qos":3}`))
		return m, "9033"
	case 22:
		m = fcrmessages.CreateFCRMessage([]int32{fcrmessages.GatewayAdminInitialiseKeyRequestType, fcrmessages.GatewayAdminInitialiseKeyRequestV2Type}[r.N(2)], []byte(fmt.Sprintf(`{"node_id":%q,"private_key":%q,"private_key_version":1,"wallet_private_key":"zz"}`, g.ids, []string{"", "01", "zz", "02aa"}[r.N(4)])))
		return m, "9013"
	case 23:
		m = fcrmessages.CreateFCRMessage([]int32{fcrmessages.ProviderAdminInitialiseKeyRequestType, fcrmessages.ProviderAdminInitialiseKeyRequestV2Type}[r.N(2)], []byte(fmt.Sprintf(`{"node_id":%q,"private_key":%q,"private_key_version":1,"wallet_private_key":"zz"}`, p.ids, []string{"", "01", "zz", "02aa"}[r.N(4)])))
		return m, "9033"
	case 24:
		m, _ = fcrmessages.EncodeGatewayAdminForceRefreshRequest(true)
		return m, "9013"
	case 25:
		m, _ = fcrmessages.EncodeProviderAdminForceRefreshRequest(true)
		return m, "9033"
	}
	m = fcrmessages.CreateFCRMessage(int32(r.N(600)), [][]byte{nil, []byte("{}"), []byte("null"), []byte("[]")}[r.N(4)])
	return m, []string{"9010", "9011", "9012", "9013", "9030", "9032", "9033"}[r.N(7)]
}

func (d *clWorld) junk(o fw.Op) {
	c := d.c
	r := simrt.NewPRNG(uint64(o.Arg(2)))
	kind := int(o.Arg(3))
	m, port := d.request(r, kind)
	// a node that has the port
	var l []*clNode
	for _, n := range d.nodes() {
		if n.gw == (port < "9020") {
			l = append(l, n)
		}
	}
	n := l[int(o.Arg(1))%len(l)]
	if r.P(0.5) {
		m.Sign([]fixedKey{keyN(40), n.key}[r.N(2)].kp, fcrcrypto.InitialKeyVersion())
	}
	b := raw(m)
	dmg := r.N(5)
	if kind == 20 || kind == 21 || kind == 22 || kind == 23 {
		dmg = 0 // these could become commands
	}
	switch dmg {
	case 1, 2: // the body
		y := fcrmessages.CreateFCRMessage(m.GetMessageType(), mutateJSON(r, m.GetMessageBody(), d.gws[0].ids))
		if r.P(0.5) {
			y.Sign(d.gws[r.N(len(d.gws))].key.kp, fcrcrypto.InitialKeyVersion())
		}
		b = raw(y)
	case 3: // the envelope
		b = mutateJSON(r, b, d.gws[0].ids)
	case 4:
		switch r.N(5) {
		case 0:
			b = b[:r.N(len(b))]
		case 1:
			b[r.N(len(b))] ^= byte(1 << r.N(8))
		case 2:
			b = []byte(strings.Repeat("[", 3000))
		case 3:
			b = nil
		case 4:
			b = []byte("null")
		}
	}
	c.Injected(fmt.Sprintf("stranger-request %s", port))
	inc, alive, up := n.node.Inc, n.node.Alive, n.ready()
	bad := d.bad
	http := map[string]bool{"9010": true, "9013": true, "9030": true, "9033": true}[port]
	var err error
	took := c.Elapsed()
	c.Call(d.str, "junk", func() {
		if http {
			meth := "POST"
			path := "/v1"
			if r.P(0.1) {
				meth = []string{"GET", "PUT", "DELETE", "HEAD", "POST"}[r.N(5)]
				path = []string{"/v1", "/", "/v1/x", "/../v1"}[r.N(4)]
			}
			_, _, err = c.HTTPDo(meth, "http://"+n.name+":"+port+path, "application/json", b)
			return
		}
		conn, e := c.DialAs(d.str, n.name+":"+port)
		if e != nil {
			err = e
			return
		}
		defer conn.Close()
		conn.SetDeadlineIn(time.Duration(120+10*c.Plan.Par("tmo")) * time.Second)
		if _, err = conn.Write(frame(b)); err != nil {
			return
		}
		if _, err = readFrame(conn); err != nil && isTimeout(err) && d.phase != 1 && alive && up && n.node.Inc == inc && bad == d.bad {
			c.Fail("C12", "stranger neither answered nor cut off", "%s:%s %s", n.name, port, hex.EncodeToString(b[:min(len(b), 200)]))
		}
	})
	took = c.Elapsed() - took
	if d.phase != 1 && http && took > 10*time.Minute && n.node.Inc == inc {
		c.Fail("C12", "stranger neither answered nor cut off", "%s:%s answered after %v (%v)", n.name, port, took, err)
	}
	c.NonTriv = true
}

func init() {
	real := []string{"gateway (main, core, all api handlers)", "provider (main, core, all api handlers)", "register service", "client library", "gateway-admin and provider-admin libraries", "common: fcrp2pserver, fcrrestserver, fcrregistermgr, fcroffermgr (sqlite), fcrmessages, fcrcrypto, cidoffer, fcrpaymentmgr"}
	stub := []string{"network", "sqlite VFS", "redis server", "Lotus chain", "clocks", "hostile peers (scripted)"}
	for _, x := range []struct {
		m    int64
		n, p string
	}{{clAuthentic, "cluster-hostile", "C03"}, {clReach, "cluster-publish", "C05"}, {clJoin, "cluster-join", "C06"}, {clInit, "cluster-init", "C22"}, {clFind, "cluster-find", "C23"}, {clList, "cluster-list", "C24"}, {clJunk, "cluster-strangers", "C12"}, {clPaid, "cluster-paid", "C09"}, {clLive, "cluster-requests", "C25"}} {
		fw.Register(&fw.Scenario{Name: x.n, Gen: genCluster(x.m), Run: runCluster, HangProp: []string{x.p}, CrashProp: []string{x.p, "C12"}, Real: real, Stub: stub})
		if x.p != "C12" {
			fw.Checks[x.p] = []fw.Use{{Scenario: x.n, Weight: 1}}
		}
	}
}
