package sc

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/go-openapi/loads"

	"github.com/ConsenSys/fc-retrieval/register/restapi"
	"github.com/ConsenSys/fc-retrieval/register/restapi/operations"

	"sim.local/h/fw"
	"sim.local/h/simext"
	"sim.local/h/simrt"
)

// RedisFaults are probabilities per connection or command.
type RedisFaults struct {
	PRefuse  float64 // connection refused
	PErr     float64 // error reply, not executed
	PBefore  float64 // connection breaks, not executed
	PAfter   float64 // executed, connection breaks
	PSlow    float64 // slow, sometimes beyond the client's time limit: executed after the client gave up
	Lat      time.Duration
	MaxConns int // 0: no limit
}

// Redis is the store behind the register service: an in-process server that speaks the protocol.
type Redis struct {
	s        *simrt.Sim
	r        *simrt.PRNG
	F        RedisFaults
	Hash     map[string]map[string]string
	Down     bool
	Open     int
	MaxOpen  int
	FaultSeq []uint64 // when faults were injected
	Cmds     int
	OnExec   func(cmd []string)
}

// NewRedis starts a store and installs it for all redis clients of the run.
func NewRedis(c *fw.Ctx, f RedisFaults) *Redis {
	rd := &Redis{s: c.Sim, r: c.NetR.Fork(91), F: f, Hash: map[string]map[string]string{}}
	simext.RedisDial = rd.dial
	c.AtEnd(func() { simext.RedisDial = nil })
	return rd
}

func (rd *Redis) fault(kind string, p float64) bool {
	if rd.s.Fault(rd.r, kind, p) {
		rd.FaultSeq = append(rd.FaultSeq, rd.s.Seq())
		return true
	}
	return false
}

// Faulted tells whether the store misbehaved between two moments.
func (rd *Redis) Faulted(from, to uint64) bool {
	for _, q := range rd.FaultSeq {
		if q >= from && (to == 0 || q <= to) {
			return true
		}
	}
	return false
}

func (rd *Redis) dial(a string) (net.Conn, error) {
	if rd.F.Lat > 0 {
		rd.s.SleepFor(time.Duration(1 + rd.r.I64(int64(rd.F.Lat))))
	}
	if rd.Down {
		rd.FaultSeq = append(rd.FaultSeq, rd.s.Seq())
		return nil, &net.OpError{Op: "dial", Net: "tcp", Err: syscall.ECONNREFUSED}
	}
	if rd.fault("redis-refused", rd.F.PRefuse) {
		return nil, &net.OpError{Op: "dial", Net: "tcp", Err: syscall.ECONNREFUSED}
	}
	rd.Open++
	if rd.Open > rd.MaxOpen {
		rd.MaxOpen = rd.Open
	}
	rc := &redisConn{rd: rd}
	n := simrt.CurNode()
	if n != nil {
		// the connections of a process end with it
		rc.node, rc.inc = n, n.Inc
		l, _ := n.Data["redis"].([]*redisConn)
		n.Data["redis"] = append(l, rc)
	}
	if rd.F.MaxConns > 0 && rd.Open > rd.F.MaxConns {
		rc.full = true
		rd.s.Probe("redis-connections-exhausted")
	}
	return rc, nil
}

// Died tells the store that a process is gone.
func (rd *Redis) Died(n *simrt.Node) {
	l, _ := n.Data["redis"].([]*redisConn)
	for _, rc := range l {
		rc.Close()
	}
	n.Data["redis"] = nil
}

type redisConn struct {
	rd     *Redis
	node   *simrt.Node
	inc    int
	in     []byte
	out    []byte
	broken error
	closed bool
	full   bool
}

type redisAddr struct{}

func (redisAddr) Network() string { return "tcp" }
func (redisAddr) String() string  { return "redis:6379" }

func (c *redisConn) LocalAddr() net.Addr                { return redisAddr{} }
func (c *redisConn) RemoteAddr() net.Addr               { return redisAddr{} }
func (c *redisConn) SetDeadline(t time.Time) error      { return nil }
func (c *redisConn) SetReadDeadline(t time.Time) error  { return nil }
func (c *redisConn) SetWriteDeadline(t time.Time) error { return nil }

func (c *redisConn) Close() error {
	if c.closed {
		return errors.New("use of closed network connection")
	}
	c.closed = true
	c.rd.Open--
	return nil
}

func (c *redisConn) Write(b []byte) (int, error) {
	if c.closed {
		return 0, net.ErrClosed
	}
	if c.broken != nil {
		return 0, c.broken
	}
	c.in = append(c.in, b...)
	for c.broken == nil {
		cmd, n := respParse(c.in)
		if n == 0 {
			break
		}
		c.in = c.in[n:]
		c.command(cmd)
	}
	return len(b), nil
}

func (c *redisConn) Read(b []byte) (int, error) {
	if len(c.out) > 0 {
		n := copy(b, c.out)
		c.out = c.out[n:]
		return n, nil
	}
	if c.closed {
		return 0, net.ErrClosed
	}
	if c.broken != nil {
		return 0, c.broken
	}
	// nothing was asked: wait for the client's time limit
	c.rd.s.SleepFor(3 * time.Second)
	return 0, os.ErrDeadlineExceeded
}

func (c *redisConn) command(cmd []string) {
	rd := c.rd
	if c.full {
		c.out = append(c.out, "-ERR max number of clients reached\r\n"...)
		c.broken = io.EOF
		return
	}
	if rd.F.Lat > 0 {
		rd.s.SleepFor(time.Duration(1 + rd.r.I64(int64(rd.F.Lat))))
	} else {
		simrt.Point()
	}
	switch {
	case rd.Down:
		rd.FaultSeq = append(rd.FaultSeq, rd.s.Seq())
		c.broken = syscall.ECONNRESET
		return
	case rd.fault("redis-error-reply", rd.F.PErr):
		e := []string{"-OOM command not allowed when used memory > 'maxmemory'.", "-LOADING Redis is loading the dataset in memory", "-READONLY You can't write against a read only replica.", "-MISCONF Redis is configured to save RDB snapshots, but it is currently not able to persist on disk."}[rd.r.N(4)]
		c.out = append(c.out, e+"\r\n"...)
		return
	case rd.fault("redis-broken-before", rd.F.PBefore):
		c.broken = io.EOF
		return
	case rd.fault("redis-slow", rd.F.PSlow):
		d := time.Duration(rd.r.I64(int64(6 * time.Second)))
		if d >= 3*time.Second {
			rd.s.At(d, func() { rd.exec(cmd) })
			rd.s.SleepFor(3 * time.Second)
			c.broken = os.ErrDeadlineExceeded
			return
		}
		rd.s.SleepFor(d)
	}
	rep := rd.exec(cmd)
	if rd.fault("redis-broken-after", rd.F.PAfter) {
		c.broken = syscall.ECONNRESET
		return
	}
	c.out = append(c.out, rep...)
	if rd.F.Lat > 0 {
		rd.s.SleepFor(time.Duration(1 + rd.r.I64(int64(rd.F.Lat))))
	} else {
		simrt.Point()
	}
}

func respParse(b []byte) (cmd []string, n int) {
	line := func() (string, bool) {
		i := bytes.Index(b[n:], []byte("\r\n"))
		if i < 0 {
			return "", false
		}
		s := string(b[n : n+i])
		n += i + 2
		return s, true
	}
	l, ok := line()
	if !ok || len(l) == 0 || l[0] != '*' {
		return nil, 0
	}
	k, _ := strconv.Atoi(l[1:])
	for i := 0; i < k; i++ {
		h, ok := line()
		if !ok || len(h) == 0 || h[0] != '$' {
			return nil, 0
		}
		m, _ := strconv.Atoi(h[1:])
		if len(b) < n+m+2 {
			return nil, 0
		}
		cmd = append(cmd, string(b[n:n+m]))
		n += m + 2
	}
	return cmd, n
}

func bulk(s string) string { return fmt.Sprintf("$%d\r\n%s\r\n", len(s), s) }

// exec carries a command out, in one step.
func (rd *Redis) exec(cmd []string) string {
	rd.Cmds++
	if rd.OnExec != nil {
		rd.OnExec(cmd)
	}
	arg := func(i int) string {
		if i < len(cmd) {
			return cmd[i]
		}
		return ""
	}
	h := rd.Hash[arg(1)]
	// the order in which a hash is listed is the store's business
	keys := func() []string {
		var ks []string
		for k := range h {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for i := range ks {
			j := rd.r.N(i + 1)
			ks[i], ks[j] = ks[j], ks[i]
		}
		return ks
	}
	list := func(l []string) string {
		s := fmt.Sprintf("*%d\r\n", len(l))
		for _, x := range l {
			s += bulk(x)
		}
		return s
	}
	switch strings.ToUpper(arg(0)) {
	case "PING":
		return "+PONG\r\n"
	case "AUTH", "SELECT", "CLIENT":
		return "+OK\r\n"
	case "HSET", "HMSET", "HSETNX":
		if h == nil {
			h = map[string]string{}
			rd.Hash[arg(1)] = h
		}
		k := 0
		for i := 2; i+1 < len(cmd); i += 2 {
			_, had := h[cmd[i]]
			if had && strings.EqualFold(arg(0), "HSETNX") {
				continue
			}
			if !had {
				k++
			}
			h[cmd[i]] = cmd[i+1]
		}
		if strings.EqualFold(arg(0), "HMSET") {
			return "+OK\r\n"
		}
		return fmt.Sprintf(":%d\r\n", k)
	case "HGET":
		v, ok := h[arg(2)]
		if !ok {
			return "$-1\r\n"
		}
		return bulk(v)
	case "HMGET":
		s := fmt.Sprintf("*%d\r\n", len(cmd)-2)
		for _, k := range cmd[2:] {
			if v, ok := h[k]; ok {
				s += bulk(v)
			} else {
				s += "$-1\r\n"
			}
		}
		return s
	case "HGETALL":
		var l []string
		for _, k := range keys() {
			l = append(l, k, h[k])
		}
		return list(l)
	case "HKEYS":
		return list(keys())
	case "HVALS":
		var l []string
		for _, k := range keys() {
			l = append(l, h[k])
		}
		return list(l)
	case "HLEN":
		return fmt.Sprintf(":%d\r\n", len(h))
	case "HEXISTS":
		if _, ok := h[arg(2)]; ok {
			return ":1\r\n"
		}
		return ":0\r\n"
	case "HDEL":
		k := 0
		for _, f := range cmd[2:] {
			if _, ok := h[f]; ok {
				delete(h, f)
				k++
			}
		}
		return fmt.Sprintf(":%d\r\n", k)
	case "DEL", "UNLINK":
		k := 0
		for _, f := range cmd[1:] {
			if _, ok := rd.Hash[f]; ok {
				delete(rd.Hash, f)
				k++
			}
		}
		return fmt.Sprintf(":%d\r\n", k)
	case "EXISTS":
		if len(h) > 0 {
			return ":1\r\n"
		}
		return ":0\r\n"
	}
	return "-ERR unknown command '" + arg(0) + "'\r\n"
}

// BootRegister starts the register service on a machine.
func BootRegister(c *fw.Ctx, n *simrt.Node, port string) {
	n.Env["LOG_LEVEL"] = "panic"
	n.Env["REDIS_URL"] = "redis"
	n.Env["REDIS_PORT"] = "6379"
	n.Env["REDIS_PASSWORD"] = "xxxx"
	c.Boot(n, "register", func() {
		doc, err := loads.Embedded(restapi.SwaggerJSON, restapi.FlatSwaggerJSON)
		if err != nil {
			c.Err("register: %v", err)
			return
		}
		api := operations.NewRegisterAPI(doc)
		api.Logger = func(string, ...interface{}) {}
		srv := restapi.NewServer(api)
		srv.ConfigureAPI()
		c.ServeHTTPOn(n, port, srv.GetHandler())
	})
}
