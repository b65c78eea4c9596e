package fcrclient_test

// A register and gateways for the client.

import (
	"encoding/json"
	"io"
	"math/big"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/ConsenSys/fc-retrieval/client/pkg/fcrclient"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrregistermgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
)

type world struct {
	t   *testing.T
	srv *httptest.Server
	mu  sync.Mutex
	g   []register.GatewayRegister
	p   []register.ProviderRegister
}

type gate struct {
	id     *nodeid.NodeID
	kp     *fcrcrypto.KeyPair
	srv    *httptest.Server
	mu     sync.Mutex
	asked  int
	answer func(m *fcrmessages.FCRMessage) []byte
	wallet wallet
}

func newKey(t *testing.T) *fcrcrypto.KeyPair {
	kp, err := fcrcrypto.GenerateRetrievalV1KeyPair()
	if err != nil {
		t.Fatal(err)
	}
	return kp
}

func newWorld(t *testing.T) *world {
	w := &world{t: t}
	w.srv = httptest.NewServer(w)
	t.Cleanup(w.srv.Close)
	return w
}

func (w *world) ServeHTTP(rw http.ResponseWriter, r *http.Request) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if strings.Contains(r.URL.Path, "gateway") {
		json.NewEncoder(rw).Encode(append([]register.GatewayRegister{}, w.g...))
		return
	}
	json.NewEncoder(rw).Encode(append([]register.ProviderRegister{}, w.p...))
}

func hexID(t *testing.T, s string) *nodeid.NodeID {
	id, err := nodeid.NewNodeIDFromHexString(s + strings.Repeat("0", 64-len(s)))
	if err != nil {
		t.Fatal(err)
	}
	return id
}

// establish is what an honest gateway answers.
func (g *gate) establish(m *fcrmessages.FCRMessage) []byte {
	_, ch, _, err := fcrmessages.DecodeClientEstablishmentRequest(m)
	if err != nil {
		return nil
	}
	r, _ := fcrmessages.EncodeClientEstablishmentResponse(g.id, ch)
	r.Sign(g.kp, fcrcrypto.InitialKeyVersion())
	b, _ := json.Marshal(r)
	return b
}

func (w *world) gate(id string) *gate {
	g := &gate{id: hexID(w.t, id), kp: newKey(w.t), wallet: newWallet(id[0])}
	g.srv = httptest.NewServer(http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
		b, _ := io.ReadAll(r.Body)
		var m fcrmessages.FCRMessage
		if json.Unmarshal(b, &m) != nil {
			return
		}
		g.mu.Lock()
		g.asked++
		f := g.answer
		g.mu.Unlock()
		if f == nil {
			f = g.establish
		}
		rw.Write(f(&m))
	}))
	w.t.Cleanup(g.srv.Close)
	pub, _ := g.kp.EncodePublicKey()
	h := strings.TrimPrefix(g.srv.URL, "http://")
	w.mu.Lock()
	defer w.mu.Unlock()
	w.g = append(w.g, register.GatewayRegister{NodeID: g.id.ToString(), Address: g.wallet.addr.String(), RootSigningKey: pub, SigningKey: pub, RegionCode: "AU", NetworkInfoGateway: h, NetworkInfoProvider: h, NetworkInfoClient: h, NetworkInfoAdmin: h})
	return g
}

func (w *world) client(ttl int64, l *fakeLotus, topup, search, offer int64) *fcrclient.FilecoinRetrievalClient {
	s := fcrclient.CreateSettings()
	s.SetEstablishmentTTL(ttl)
	s.SetRegisterURL(w.srv.URL)
	s.SetBlockchainPrivateKey(newKey(w.t))
	s.SetRetrievalPrivateKey(newKey(w.t), fcrcrypto.InitialKeyVersion())
	s.SetWalletPrivateKey(newWallet(99).priv)
	s.SetLotusAP(l.srv.URL)
	s.SetLotusAuthToken("x")
	s.SetTopUpAmount(big.NewInt(topup))
	s.SetSearchPrice(big.NewInt(search))
	s.SetOfferPrice(big.NewInt(offer))
	rm := fcrregistermgr.NewFCRRegisterMgr(w.srv.URL, true, true, 2*time.Second)
	if err := rm.Start(); err != nil {
		w.t.Fatal(err)
	}
	rm.Refresh()
	c, err := fcrclient.NewFilecoinRetrievalClient(*s.Build(), rm)
	if err != nil {
		w.t.Fatal(err)
	}
	return c
}

func (g *gate) sign(r *fcrmessages.FCRMessage) []byte {
	r.Sign(g.kp, fcrcrypto.InitialKeyVersion())
	b, _ := json.Marshal(r)
	return b
}
