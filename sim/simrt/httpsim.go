package simrt

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"runtime/debug"
	"strings"
	"syscall"
	"time"
)

type httpServer struct {
	h http.Handler
}

// ListenAndServe is http.ListenAndServe on the current machine.
func ListenAndServe(a string, h http.Handler) error {
	s := live()
	if s == nil {
		return http.ErrServerClosed
	}
	n := s.cur.Node
	_, port, err := net.SplitHostPort(a)
	if err != nil {
		return err
	}
	if n.listen[port] != nil || n.httpd[port] != nil {
		return &net.OpError{Op: "listen", Net: "tcp", Addr: addr(a), Err: syscall.EADDRINUSE}
	}
	if h == nil {
		h = http.DefaultServeMux
	}
	n.httpd[port] = &httpServer{h: h}
	s.Logf("HTTP %s:%s", n.Name, port)
	for {
		s.park("http serve")
	}
}

// ServeHTTPOn installs a harness handler on a node's port.
func (s *Sim) ServeHTTPOn(n *Node, port string, h http.Handler) { n.httpd[port] = &httpServer{h: h} }

// HTTPEvent describes one exchange to a harness hook.
type HTTPEvent struct {
	From, To *Node
	Port     string
	Method   string
	Path     string
	ReqBody  []byte
	Status   int
	RespBody []byte
	Err      error
	ReqSeq   uint64
	DoneSeq  uint64
	Done     bool
	Panicked bool
	By       any // tag of the asking task
}

// HTTPHook, when set for a run, sees every exchange when it ends and may change the response (a hostile or broken peer).
var HTTPHook func(ev *HTTPEvent)

// Transport is an http.RoundTripper over the simulated network.
type Transport struct{}

func (Transport) RoundTrip(req *http.Request) (*http.Response, error) {
	s := live()
	if s == nil {
		return nil, errors.New("http outside a simulation")
	}
	me := s.cur
	from := me.Node
	var body []byte
	if req.Body != nil {
		b, err := io.ReadAll(req.Body)
		req.Body.Close()
		if err != nil {
			return nil, err
		}
		body = b
	}
	host, port, err := net.SplitHostPort(req.URL.Host)
	if err != nil {
		host, port = req.URL.Host, "80"
	}
	var tmo time.Duration // 0: none
	if dl, ok := req.Context().Deadline(); ok {
		tmo = time.Until(dl).Round(time.Second)
		if tmo <= 0 {
			tmo = time.Second
		}
	}
	fail := func(e error) (*http.Response, error) {
		return nil, &net.OpError{Op: "dial", Net: "tcp", Addr: addr(req.URL.Host), Err: e}
	}
	s.point()
	to := s.Nodes[host]
	if to == nil {
		s.SleepFor(time.Millisecond)
		return fail(&net.DNSError{Err: "no such host", Name: host, IsNotFound: true})
	}
	ev := &HTTPEvent{From: from, To: to, Port: port, Method: req.Method, Path: req.URL.Path, ReqBody: body, ReqSeq: s.Seq(), By: me.Tag}
	start := s.now
	expired := func() bool { return tmo > 0 && s.now-start >= int64(tmo) }
	timeoutErr := func() (*http.Response, error) {
		return nil, fmt.Errorf("net/http: request canceled (Client.Timeout exceeded while awaiting headers): %w", context.DeadlineExceeded)
	}
	if s.netFault(from, to, "http-refused", s.Cfg.Net.PDialFail) {
		s.SleepFor(s.latency(from, to))
		return fail(syscall.ECONNREFUSED)
	}
	if s.netFault(from, to, "http-request-lost", s.Cfg.Net.PHTTPReqLost) {
		s.SleepFor(s.latency(from, to) * 3)
		return fail(syscall.ECONNRESET)
	}
	s.SleepFor(s.latency(from, to))
	if s.netFault(from, to, "http-slow", s.Cfg.Net.PHTTPSlow) {
		s.SleepFor(time.Duration(1 + s.NetR.I64(int64(s.Cfg.Net.HTTPSlowFor))))
	}
	for !s.Reachable(from, to) {
		if expired() {
			return timeoutErr()
		}
		if tmo == 0 && s.now-start > int64(127*time.Second) {
			return fail(syscall.ETIMEDOUT)
		}
		s.SleepFor(500 * time.Millisecond)
	}
	var srv *httpServer
	if to.Alive {
		srv = to.httpd[port]
	}
	if srv == nil {
		s.SleepFor(s.latency(from, to))
		return fail(syscall.ECONNREFUSED)
	}
	// the server side
	fin, died, panicked := false, false, false
	rec := httptest.NewRecorder()
	h := srv.h
	s.rpcs++
	id := s.rpcs
	s.Logf("HTTP #%d %s -> %s:%s %s %s", id, nn(from), to.Name, port, req.Method, req.URL.Path)
	t := s.spawn(to, fmt.Sprintf("http#%d", id), func() {
		r2 := req.Clone(context.Background())
		r2.Body = io.NopCloser(bytes.NewReader(body))
		r2.ContentLength = int64(len(body))
		r2.RequestURI = req.URL.RequestURI()
		r2.URL.Host, r2.URL.Scheme = "", ""
		r2.RemoteAddr = fmt.Sprintf("%s:%d", nn(from), 40000+id%20000)
		r2.Host = req.URL.Host
		if r2.Header.Get("User-Agent") == "" {
			r2.Header.Set("User-Agent", "Go-http-client/1.1")
		}
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			panicked = true // net/http recovers, logs and drops the connection
			s.Note("http handler panic: %v\n%s", r, debug.Stack())
			s.Logf("HTTP #%d handler panic: %v", id, r)
		}()
		h.ServeHTTP(rec, r2)
	})
	t.Tag = ev
	wake := func() {
		if !fin {
			fin = true
			s.ready(me)
		}
	}
	t.OnEnd(wake)
	s.watchDeath(to, t, func() { died = true; wake() })
	if tmo > 0 {
		s.At(tmo-time.Duration(s.now-start), func() {
			if me.st == tBlocked && me.why == "http response" {
				s.ready(me)
			}
		})
	}
	for !fin {
		s.park("http response")
		if !fin && expired() {
			return timeoutErr()
		}
	}
	ev.Done = !died
	ev.DoneSeq = s.Seq()
	ev.Panicked = panicked
	if died || panicked {
		s.SleepFor(s.latency(from, to))
		ev.Err = io.EOF
		if HTTPHook != nil {
			HTTPHook(ev)
		}
		return nil, io.EOF
	}
	res := rec.Result()
	rb, _ := io.ReadAll(res.Body)
	ev.Status, ev.RespBody = res.StatusCode, rb
	if s.netFault(from, to, "http-response-lost", s.Cfg.Net.PHTTPRespLost) {
		ev.Err = syscall.ECONNRESET
		if HTTPHook != nil {
			HTTPHook(ev)
		}
		s.SleepFor(s.latency(from, to) * 3)
		return nil, &net.OpError{Op: "read", Net: "tcp", Err: syscall.ECONNRESET}
	}
	s.SleepFor(s.latency(from, to))
	for !s.Reachable(from, to) {
		if expired() {
			return timeoutErr()
		}
		s.SleepFor(500 * time.Millisecond)
	}
	if HTTPHook != nil {
		HTTPHook(ev)
		if ev.Err != nil {
			return nil, ev.Err
		}
	}
	res.StatusCode = ev.Status
	res.Body = io.NopCloser(bytes.NewReader(ev.RespBody))
	res.ContentLength = int64(len(ev.RespBody))
	res.Request = req
	return res, nil
}

// HTTPDo is a harness helper: one exchange from a node (or the world).
func (s *Sim) HTTPDo(method, url, contentType string, body []byte) (int, []byte, error) {
	req, err := http.NewRequest(method, url, bytes.NewReader(body))
	if err != nil {
		return 0, nil, err
	}
	if contentType != "" {
		req.Header.Set("Content-Type", contentType)
	}
	res, err := Transport{}.RoundTrip(req)
	if err != nil {
		return 0, nil, err
	}
	b, _ := io.ReadAll(res.Body)
	return res.StatusCode, b, nil
}

var _ = strings.HasPrefix
