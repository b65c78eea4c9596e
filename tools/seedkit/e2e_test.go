package fcrmessages_test

// A small deployment: real gateway and provider processes on loopback ports and a minimal register service.

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
)

type world struct {
	t    *testing.T
	mu   sync.Mutex
	srv  *httptest.Server
	g    []register.GatewayRegister
	p    []register.ProviderRegister
	bins map[string]string
	// hook sees every register request first, true: handled
	hook func(w http.ResponseWriter, r *http.Request) bool
}

type node struct {
	w                            *world
	gw                           bool
	id                           *nodeid.NodeID
	kp                           *fcrcrypto.KeyPair
	rest, prov, gate, admin, dir string
	cmd                          *exec.Cmd
	env                          []string
}

func newWorld(t *testing.T) *world {
	w := &world{t: t, bins: map[string]string{}}
	w.srv = httptest.NewServer(w)
	t.Cleanup(w.srv.Close)
	return w
}

func (w *world) ServeHTTP(rw http.ResponseWriter, r *http.Request) {
	if h := w.hook; h != nil && h(rw, r) {
		return
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	parts := strings.Split(strings.Trim(r.URL.Path, "/"), "/")
	id := ""
	if len(parts) > 2 {
		id = parts[2]
	}
	if strings.Contains(r.URL.Path, "gateway") {
		if id != "" {
			for _, x := range w.g {
				if x.NodeID == id {
					json.NewEncoder(rw).Encode(x)
					return
				}
			}
			rw.Write([]byte("{}"))
			return
		}
		json.NewEncoder(rw).Encode(append([]register.GatewayRegister{}, w.g...))
		return
	}
	if id != "" {
		for _, x := range w.p {
			if x.NodeID == id {
				json.NewEncoder(rw).Encode(x)
				return
			}
		}
		rw.Write([]byte("{}"))
		return
	}
	json.NewEncoder(rw).Encode(append([]register.ProviderRegister{}, w.p...))
}

func (w *world) bin(name string) string {
	if w.bins[name] == "" {
		out := filepath.Join(os.Getenv("DEMO_DIR"), name)
		cmd := exec.Command("go", "build", "-ldflags", "-s -w", "-o", out, "./cmd/"+name)
		cmd.Dir = "../../../" + name
		if b, err := cmd.CombinedOutput(); err != nil {
			w.t.Fatalf("%v %s", err, b)
		}
		w.bins[name] = out
	}
	return w.bins[name]
}

func freePort(t *testing.T) string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	_, p, _ := net.SplitHostPort(l.Addr().String())
	return p
}

func newKey(t *testing.T) *fcrcrypto.KeyPair {
	kp, err := fcrcrypto.GenerateRetrievalV1KeyPair()
	if err != nil {
		t.Fatal(err)
	}
	return kp
}

func hexID(t *testing.T, s string) *nodeid.NodeID {
	id, err := nodeid.NewNodeIDFromHexString(s + strings.Repeat("0", 64-len(s)))
	if err != nil {
		t.Fatal(err)
	}
	return id
}

func hexCid(t *testing.T, s string) *cid.ContentID {
	x, err := cid.NewContentIDFromHexString(s + strings.Repeat("0", 64-len(s)))
	if err != nil {
		t.Fatal(err)
	}
	return x
}

// node starts and initialises a gateway or a provider; reg: it is listed in the register.
func (w *world) node(gw bool, id *nodeid.NodeID, reg bool, env ...string) *node {
	t := w.t
	n := &node{w: w, gw: gw, id: id, kp: newKey(t), rest: freePort(t), prov: freePort(t), gate: freePort(t), admin: freePort(t), dir: t.TempDir(), env: env}
	n.start()
	if reg {
		w.register(n)
	}
	return n
}

func (w *world) register(n *node) {
	pub, _ := n.kp.EncodePublicKey()
	h := "127.0.0.1:"
	w.mu.Lock()
	defer w.mu.Unlock()
	if n.gw {
		w.g = append(w.g, register.GatewayRegister{NodeID: n.id.ToString(), Address: n.id.ToString(), RootSigningKey: pub, SigningKey: pub, RegionCode: "AU", NetworkInfoGateway: h + n.gate, NetworkInfoProvider: h + n.prov, NetworkInfoClient: h + n.rest, NetworkInfoAdmin: h + n.admin})
	} else {
		w.p = append(w.p, register.ProviderRegister{NodeID: n.id.ToString(), Address: n.id.ToString(), RootSigningKey: pub, SigningKey: pub, RegionCode: "AU", NetworkInfoGateway: h + n.gate, NetworkInfoClient: h + n.rest, NetworkInfoAdmin: h + n.admin})
	}
}

// start runs the process and gives it its key.
func (n *node) start() {
	t := n.w.t
	name := "provider"
	if n.gw {
		name = "gateway"
	}
	n.cmd = exec.Command(n.w.bin(name))
	n.cmd.Dir = n.dir
	n.cmd.Env = append(os.Environ(), "BIND_REST_API="+n.rest, "BIND_PROVIDER_API="+n.prov, "BIND_GATEWAY_API="+n.gate, "BIND_ADMIN_API="+n.admin,
		"LOG_LEVEL=panic", "DOCKER_NAME=demo", "REGISTER_API_URL="+n.w.srv.URL, "TCP_INACTIVITY_TIMEOUT=5s", "TCP_LONG_INACTIVITY_TIMEOUT=20s", "PROVIDER_SIG_ALG=1")
	n.cmd.Env = append(n.cmd.Env, n.env...)
	if os.Getenv("DEMO_LOG") != "" {
		n.cmd.Stdout, n.cmd.Stderr = os.Stdout, os.Stderr
	}
	if err := n.cmd.Start(); err != nil {
		t.Fatal(err)
	}
	c := n.cmd
	t.Cleanup(func() { c.Process.Kill(); c.Wait() })
	var m *fcrmessages.FCRMessage
	if n.gw {
		m, _ = fcrmessages.EncodeGatewayAdminInitialiseKeyRequest(n.id, n.kp, fcrcrypto.InitialKeyVersion())
	} else {
		m, _ = fcrmessages.EncodeProviderAdminInitialiseKeyRequest(n.id, n.kp, fcrcrypto.InitialKeyVersion())
	}
	var err error
	for i := 0; i < 200; i++ {
		if _, err = post(n.admin, m); err == nil {
			return
		}
		time.Sleep(100 * time.Millisecond)
	}
	t.Fatal("not started: ", err)
}

func (n *node) kill() {
	n.cmd.Process.Kill()
	n.cmd.Wait()
}

func post(port string, m *fcrmessages.FCRMessage) (*fcrmessages.FCRMessage, error) {
	b, err := json.Marshal(m)
	if err != nil {
		return nil, err
	}
	cl := http.Client{Timeout: 60 * time.Second}
	r, err := cl.Post("http://127.0.0.1:"+port+"/v1", "application/json", bytes.NewReader(b))
	if err != nil {
		return nil, err
	}
	defer r.Body.Close()
	b, _ = io.ReadAll(r.Body)
	if r.StatusCode != 200 {
		return nil, fmt.Errorf("%d %s", r.StatusCode, b)
	}
	res := &fcrmessages.FCRMessage{}
	return res, json.Unmarshal(b, res)
}

func (n *node) refresh() {
	n.w.t.Helper()
	var m *fcrmessages.FCRMessage
	if n.gw {
		m, _ = fcrmessages.EncodeGatewayAdminForceRefreshRequest(true)
	} else {
		m, _ = fcrmessages.EncodeProviderAdminForceRefreshRequest(true)
	}
	m.Sign(n.kp, fcrcrypto.InitialKeyVersion())
	if _, err := post(n.admin, m); err != nil {
		n.w.t.Fatal(err)
	}
}

func (n *node) publish(prices []uint64, cids ...cid.ContentID) error {
	var e []int64
	var q []uint64
	for range cids {
		e, q = append(e, time.Now().Unix()+100000), append(q, 5)
	}
	m, err := fcrmessages.EncodeProviderAdminPublishDHTOfferRequest(cids, prices, e, q)
	if err != nil {
		return err
	}
	m.Sign(n.kp, fcrcrypto.InitialKeyVersion())
	_, err = post(n.admin, m)
	return err
}

func (n *node) publishGroup(price uint64, cids ...cid.ContentID) error {
	m, err := fcrmessages.EncodeProviderAdminPublishGroupOfferRequest(cids, price, time.Now().Unix()+100000, 5)
	if err != nil {
		return err
	}
	m.Sign(n.kp, fcrcrypto.InitialKeyVersion())
	_, err = post(n.admin, m)
	return err
}

// find are the prices of the offers the gateway gives a client for x.
func (n *node) find(x *cid.ContentID) ([]uint64, error) {
	m, _ := fcrmessages.EncodeClientStandardDiscoverRequest(x, 77, time.Now().Unix()+100, "", "")
	r, err := post(n.rest, m)
	if err != nil {
		return nil, err
	}
	_, _, _, offers, _, err := fcrmessages.DecodeClientStandardDiscoverResponse(r)
	var l []uint64
	for _, o := range offers {
		l = append(l, o.GetPrice())
	}
	return l, err
}

func (n *node) has(x *cid.ContentID, price uint64) bool {
	l, _ := n.find(x)
	for _, p := range l {
		if p == price {
			return true
		}
	}
	return false
}

// listed are the offers a provider lists for gateways.
func (n *node) listed(gws ...nodeid.NodeID) ([]cidoffer.CIDOffer, error) {
	m, _ := fcrmessages.EncodeProviderAdminGetPublishedOfferRequest(gws)
	m.Sign(n.kp, fcrcrypto.InitialKeyVersion())
	r, err := post(n.admin, m)
	if err != nil {
		return nil, err
	}
	_, l, err := fcrmessages.DecodeProviderAdminGetPublishedOfferResponse(r)
	return l, err
}

// acked: the provider presents an acknowledgement of the gateway for x.
func (n *node) acked(x *cid.ContentID, g *node) bool {
	m, _ := fcrmessages.EncodeClientDHTOfferAckRequest(x, g.id)
	r, err := post(n.rest, m)
	if err != nil {
		return false
	}
	_, _, found, _, _, err := fcrmessages.DecodeClientDHTOfferAckResponse(r)
	return found && err == nil
}

// fetch makes a gateway collect the offers of its range.
func (n *node) fetch() error {
	m, _ := fcrmessages.EncodeGatewayAdminListDHTOfferRequest(true)
	m.Sign(n.kp, fcrcrypto.InitialKeyVersion())
	_, err := post(n.admin, m)
	return err
}

// p2p exchanges one message.
func p2p(port string, m *fcrmessages.FCRMessage) (*fcrmessages.FCRMessage, error) {
	c, err := net.DialTimeout("tcp", "127.0.0.1:"+port, 10*time.Second)
	if err != nil {
		return nil, err
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(20 * time.Second))
	b, err := m.FCRMsgToBytes()
	if err != nil {
		return nil, err
	}
	l := make([]byte, 4)
	binary.BigEndian.PutUint32(l, uint32(len(b)))
	c.Write(append(l, b...))
	if _, err := io.ReadFull(c, l); err != nil {
		return nil, err
	}
	b = make([]byte, binary.BigEndian.Uint32(l))
	if _, err := io.ReadFull(c, b); err != nil {
		return nil, err
	}
	return fcrmessages.FCRMsgFromBytes(b)
}

func eventually(d time.Duration, f func() bool) bool {
	for end := time.Now().Add(d); time.Now().Before(end); time.Sleep(200 * time.Millisecond) {
		if f() {
			return true
		}
	}
	return f()
}
