package simrt

import (
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strings"
	"syscall"
	"time"
)

// NetConfig shapes the simulated network of one run.
type NetConfig struct {
	MinLat, Jitter time.Duration
	Window         int     // bytes a receiver buffers before the sender blocks
	PReset         float64 // per write: the connection breaks
	PSplit         float64 // per write: arrives in pieces at different times
	SplitGap       time.Duration
	PStall         float64 // per write: this direction pauses for StallFor
	StallFor       time.Duration
	PDialFail      float64
	PAcceptErr     float64
	PShortRead     float64
	PHTTPReqLost   float64 // request never reaches the server
	PHTTPRespLost  float64 // request is processed, the response is lost
	PHTTPSlow      float64
	HTTPSlowFor    time.Duration
	MsgLossNodes   map[string]bool // when non-nil, faults only concern links touching these nodes
}

type link struct {
	cut  bool
	held []func()
}

func lk(a, b string) [2]string {
	if a > b {
		a, b = b, a
	}
	return [2]string{a, b}
}

func (s *Sim) link(a, b *Node) *link {
	k := lk(nn(a), nn(b))
	l := s.links[k]
	if l == nil {
		l = &link{}
		s.links[k] = l
	}
	return l
}

func nn(n *Node) string {
	if n == nil {
		return "world"
	}
	return n.Name
}

// Cut partitions two machines; Heal reconnects them.
func (s *Sim) Cut(a, b *Node) { s.link(a, b).cut = true; s.Injected("partition " + nn(a) + "|" + nn(b)) }
func (s *Sim) Heal(a, b *Node) {
	l := s.link(a, b)
	if !l.cut {
		return
	}
	l.cut = false
	s.Logf("heal %s|%s", nn(a), nn(b))
	h := l.held
	l.held = nil
	for _, f := range h {
		f()
	}
}
func (s *Sim) HealAll() {
	for i, a := range s.NodeList {
		for _, b := range s.NodeList[i:] {
			s.Heal(a, b)
		}
		s.Heal(a, nil)
	}
}

// Reachable reports whether the link is up.
func (s *Sim) Reachable(a, b *Node) bool { return !s.link(a, b).cut }

func (s *Sim) netFault(a, b *Node, kind string, p float64) bool {
	if s.Cfg.Net.MsgLossNodes != nil && !s.Cfg.Net.MsgLossNodes[nn(a)] && !s.Cfg.Net.MsgLossNodes[nn(b)] {
		return false
	}
	return s.Fault(s.NetR, kind, p)
}

func (s *Sim) latency(a, b *Node) time.Duration {
	d := s.Cfg.Net.MinLat
	if s.Cfg.Net.Jitter > 0 {
		d += time.Duration(s.NetR.I64(int64(s.Cfg.Net.Jitter)))
	}
	if a == b {
		d /= 10
	}
	return d + 1
}

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

// Conn is one end of a simulated TCP connection.
type Conn struct {
	s        *Sim
	node     *Node
	peer     *Conn
	la, ra   addr
	rbuf     []byte
	eof      bool
	rst      bool
	closed   bool
	rd, wd   int64 // deadlines in simulated time, 0 none
	rw       []*Task
	ww       []*Task
	lastAt   int64 // arrival time of the last byte sent to the peer
	inflight int
	ID       int
	Sent     int64
	Recvd    int64
	Raw      bool
}

var errTimeout = os.ErrDeadlineExceeded

func (c *Conn) op(op string, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Source: c.la, Addr: c.ra, Err: err}
}

func wakeAll(s *Sim, q *[]*Task) {
	w := *q
	*q = nil
	for _, t := range w {
		s.ready(t)
	}
}

func (c *Conn) wakeBoth() { wakeAll(c.s, &c.rw); wakeAll(c.s, &c.ww) }

// kernelReset is what happens to a connection whose process dies.
func (c *Conn) kernelReset() {
	if c.closed {
		return
	}
	c.closed = true
	if c.node != nil {
		delete(c.node.Conns, c)
	}
	p := c.peer
	c.s.deliver(c, func() { p.reset() })
}

func (c *Conn) reset() {
	c.rst = true
	c.rbuf = nil
	c.wakeBoth()
}

// deliver runs f on the peer's side after the link latency, in order.
func (s *Sim) deliver(c *Conn, f func()) {
	at := s.now + int64(s.latency(c.node, c.peer.node))
	if at <= c.lastAt {
		at = c.lastAt + 1
	}
	c.lastAt = at
	s.deliverAt(c, time.Duration(at-s.now), f)
}

func (s *Sim) deliverAt(c *Conn, d time.Duration, f func()) {
	l := s.link(c.node, c.peer.node)
	s.At(d, func() {
		if l.cut || len(l.held) > 0 {
			l.held = append(l.held, f)
			return
		}
		f()
	})
}

func (c *Conn) Read(b []byte) (int, error) {
	s := live()
	if s == nil || s != c.s {
		return 0, io.EOF
	}
	s.point()
	for {
		if c.closed {
			return 0, c.op("read", net.ErrClosed)
		}
		if c.rd != 0 && s.now >= c.rd {
			return 0, c.op("read", errTimeout)
		}
		if len(c.rbuf) > 0 {
			if len(b) == 0 {
				return 0, nil
			}
			n := len(c.rbuf)
			if n > len(b) {
				n = len(b)
			}
			if n > 1 && s.netFault(c.node, c.peer.node, "short-read", s.Cfg.Net.PShortRead) {
				n = 1 + s.NetR.N(n-1)
			}
			copy(b, c.rbuf[:n])
			c.rbuf = c.rbuf[n:]
			c.Recvd += int64(n)
			wakeAll(s, &c.peer.ww)
			return n, nil
		}
		if c.rst {
			return 0, c.op("read", syscall.ECONNRESET)
		}
		if c.eof {
			return 0, io.EOF
		}
		if len(b) == 0 {
			return 0, nil
		}
		c.rw = append(c.rw, s.cur)
		c.arm(c.rd)
		s.park("conn read")
	}
}

func (c *Conn) arm(dl int64) {
	if dl == 0 {
		return
	}
	t := c.s.cur
	c.s.At(time.Duration(dl-c.s.now), func() {
		if t.st == tBlocked && strings.HasPrefix(t.why, "conn ") {
			c.s.ready(t)
		}
	})
}

func (c *Conn) Write(b []byte) (int, error) {
	s := live()
	if s == nil || s != c.s {
		return 0, io.ErrClosedPipe
	}
	s.point()
	win := s.Cfg.Net.Window
	if win <= 0 {
		win = 1 << 16
	}
	n := 0
	if len(b) > 0 && s.netFault(c.node, c.peer.node, "conn-reset", s.Cfg.Net.PReset) {
		p := c.peer
		k := s.NetR.N(len(b) + 1)
		c.push(b[:k])
		s.deliver(c, func() { p.reset() })
		c.reset()
		return k, c.op("write", syscall.ECONNRESET)
	}
	if s.netFault(c.node, c.peer.node, "conn-stall", s.Cfg.Net.PStall) {
		d := int64(s.Cfg.Net.StallFor)
		if at := s.now + d/4 + s.NetR.I64(d); at > c.lastAt {
			c.lastAt = at
		}
	}
	for n < len(b) || len(b) == 0 {
		if c.closed {
			return n, c.op("write", net.ErrClosed)
		}
		if c.rst {
			return n, c.op("write", syscall.EPIPE)
		}
		if c.wd != 0 && s.now >= c.wd {
			return n, c.op("write", errTimeout)
		}
		if len(b) == 0 {
			return 0, nil
		}
		room := win - len(c.peer.rbuf) - c.inflight
		if room > 0 {
			k := len(b) - n
			if k > room {
				k = room
			}
			c.push(b[n : n+k])
			n += k
			continue
		}
		c.ww = append(c.ww, s.cur)
		c.arm(c.wd)
		s.park("conn write")
	}
	return n, nil
}

// push puts bytes on the wire.
func (c *Conn) push(b []byte) {
	if len(b) == 0 {
		return
	}
	s := c.s
	c.Sent += int64(len(b))
	data := append([]byte(nil), b...)
	if len(data) > 1 && s.netFault(c.node, c.peer.node, "segment-split", s.Cfg.Net.PSplit) {
		k := 1 + s.NetR.N(len(data)-1)
		c.segment(data[:k])
		if s.Cfg.Net.SplitGap > 0 {
			g := s.NetR.I64(int64(s.Cfg.Net.SplitGap))
			if c.lastAt < s.now {
				c.lastAt = s.now
			}
			c.lastAt += g
		}
		c.segment(data[k:])
		return
	}
	c.segment(data)
}

func (c *Conn) segment(data []byte) {
	p := c.peer
	c.inflight += len(data)
	c.s.deliver(c, func() {
		c.inflight -= len(data)
		if p.closed {
			// data to a closed socket: RST comes back
			c.reset()
			return
		}
		if p.rst {
			return
		}
		p.rbuf = append(p.rbuf, data...)
		wakeAll(c.s, &p.rw)
	})
}

func (c *Conn) Close() error {
	s := live()
	if s == nil || s != c.s {
		return nil
	}
	s.point()
	if c.closed {
		return c.op("close", net.ErrClosed)
	}
	c.closed = true
	if c.node != nil {
		delete(c.node.Conns, c)
	}
	p := c.peer
	unread := len(c.rbuf) > 0
	s.deliver(c, func() {
		if unread {
			p.reset()
		} else {
			p.eof = true
			p.wakeBoth()
		}
	})
	c.wakeBoth()
	return nil
}

func (c *Conn) LocalAddr() net.Addr  { return c.la }
func (c *Conn) RemoteAddr() net.Addr { return c.ra }

func (c *Conn) conv(t time.Time) int64 {
	if t.IsZero() {
		return 0
	}
	d := t.Sub(c.s.TimeOn(CurNode()))
	v := c.s.now + int64(d)
	if v <= 0 {
		v = 1
	}
	return v
}

func (c *Conn) setdl(t time.Time, r, w bool) error {
	s := live()
	if s == nil || s != c.s {
		return net.ErrClosed
	}
	if c.closed {
		return c.op("set", net.ErrClosed)
	}
	v := c.conv(t)
	if r {
		c.rd = v
	}
	if w {
		c.wd = v
	}
	c.wakeBoth()
	return nil
}
func (c *Conn) SetDeadline(t time.Time) error      { return c.setdl(t, true, true) }
func (c *Conn) SetReadDeadline(t time.Time) error  { return c.setdl(t, true, false) }
func (c *Conn) SetWriteDeadline(t time.Time) error { return c.setdl(t, false, true) }

// Listener is a simulated TCP listener.
type Listener struct {
	s      *Sim
	node   *Node
	port   string
	q      []*Conn
	w      []*Task
	closed bool
}

func (l *Listener) Addr() net.Addr { return addr(nn(l.node) + ":" + l.port) }
func (l *Listener) Close() error {
	s := live()
	if s == nil || s != l.s {
		return nil
	}
	if l.closed {
		return &net.OpError{Op: "close", Net: "tcp", Err: net.ErrClosed}
	}
	l.closed = true
	if l.node.listen[l.port] == l {
		delete(l.node.listen, l.port)
	}
	for _, c := range l.q {
		c.kernelReset()
	}
	wakeAll(s, &l.w)
	return nil
}

func (l *Listener) Accept() (net.Conn, error) {
	s := live()
	if s == nil || s != l.s {
		return nil, net.ErrClosed
	}
	s.point()
	for {
		if l.closed {
			return nil, &net.OpError{Op: "accept", Net: "tcp", Err: net.ErrClosed}
		}
		if len(l.q) > 0 {
			if s.Fault(s.NetR, "accept-error", s.Cfg.Net.PAcceptErr) {
				return nil, &net.OpError{Op: "accept", Net: "tcp", Err: syscall.EMFILE}
			}
			c := l.q[0]
			l.q = l.q[1:]
			return c, nil
		}
		l.w = append(l.w, s.cur)
		s.park("accept")
	}
}

// Listen is net.Listen on the current machine.
func Listen(network, a string) (net.Listener, error) {
	s := live()
	if s == nil {
		return nil, errors.New("listen outside a simulation")
	}
	n := s.cur.Node
	_, port, err := net.SplitHostPort(a)
	if err != nil {
		return nil, &net.OpError{Op: "listen", Net: network, Err: err}
	}
	if n == nil {
		return nil, errors.New("listen without a node")
	}
	if n.listen[port] != nil || n.httpd[port] != nil {
		return nil, &net.OpError{Op: "listen", Net: network, Addr: addr(a), Err: syscall.EADDRINUSE}
	}
	l := &Listener{s: s, node: n, port: port}
	n.listen[port] = l
	s.Logf("LISTEN %s:%s", n.Name, port)
	return l, nil
}

// Dial is net.Dial on the current machine.
func Dial(network, a string) (net.Conn, error) { return DialTimeout(network, a, 127*time.Second) }

// DialTimeout is net.DialTimeout.
func DialTimeout(network, a string, tmo time.Duration) (net.Conn, error) {
	s := live()
	if s == nil {
		return nil, errors.New("dial outside a simulation")
	}
	c, err := s.dial(s.cur.Node, a, tmo)
	if err != nil {
		return nil, err
	}
	return c, nil
}

func (s *Sim) dial(from *Node, a string, tmo time.Duration) (*Conn, error) {
	fail := func(e error) (*Conn, error) {
		return nil, &net.OpError{Op: "dial", Net: "tcp", Addr: addr(a), Err: e}
	}
	host, port, err := net.SplitHostPort(a)
	if err != nil {
		return fail(err)
	}
	s.point()
	to := s.Nodes[host]
	if to == nil {
		s.SleepFor(time.Millisecond)
		return fail(&net.DNSError{Err: "no such host", Name: host, IsNotFound: true})
	}
	if s.netFault(from, to, "dial-fail", s.Cfg.Net.PDialFail) {
		s.SleepFor(s.latency(from, to))
		return fail(syscall.ECONNREFUSED)
	}
	start := s.now
	s.SleepFor(s.latency(from, to))
	for !s.Reachable(from, to) {
		if s.now-start >= int64(tmo) {
			return fail(syscall.ETIMEDOUT)
		}
		s.SleepFor(500 * time.Millisecond)
	}
	var l *Listener
	if to.Alive {
		l = to.listen[port]
	}
	if l == nil || l.closed {
		s.SleepFor(s.latency(from, to))
		return fail(syscall.ECONNREFUSED)
	}
	s.rpcs++
	id := s.rpcs
	c := &Conn{s: s, node: from, ID: id, la: addr(fmt.Sprintf("%s:%d", nn(from), 40000+id%20000)), ra: addr(a)}
	p := &Conn{s: s, node: to, ID: id, la: addr(a), ra: c.la}
	c.peer, p.peer = p, c
	if from != nil {
		from.Conns[c] = true
	}
	to.Conns[p] = true
	s.allConns = append(s.allConns, c, p)
	l.q = append(l.q, p)
	wakeAll(s, &l.w)
	s.Logf("CONN #%d %s -> %s", id, nn(from), a)
	s.SleepFor(s.latency(from, to))
	return c, nil
}

// DialAs opens a raw connection for the harness.
func (s *Sim) DialAs(from *Node, a string) (*Conn, error) { return s.dial(from, a, 20*time.Second) }

// BreakConns resets live TCP connections between two nodes (either may be nil for any).
func (s *Sim) BreakConns(a, b *Node) int {
	k := 0
	for _, c := range s.allConns {
		if c.closed || c.rst || (a != nil && c.node != a) || (b != nil && c.peer.node != b) {
			continue
		}
		k++
		c.reset()
		c.peer.reset()
	}
	if k > 0 {
		s.Injected("break-connections")
	}
	return k
}

// OpenConns lists live connections touching a node, as seen from that node.
func (s *Sim) OpenConns(n *Node) []*Conn {
	var r []*Conn
	for _, c := range s.allConns {
		if c.node == n && !c.closed {
			r = append(r, c)
		}
	}
	return r
}
func (c *Conn) PeerNode() *Node { return c.peer.node }

// SetDeadlineIn sets both deadlines relative to now.
func (c *Conn) SetDeadlineIn(d time.Duration) { c.rd = c.s.now + int64(d); c.wd = c.rd; c.wakeBoth() }
