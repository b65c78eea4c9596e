package fcrpaymentmgr_test

import (
	"math/big"
	"testing"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrpaymentmgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
)

// shop is a gateway that is paid, with three offers, and somebody who pays it.
type shop struct {
	*node
	t     *testing.T
	payer *fcrpaymentmgr.FCRPaymentMgr
	to    string
	x     *cid.ContentID
	digs  []string
}

func newShop(t *testing.T) *shop {
	w := newWorld(t)
	f := newFakeLotus()
	t.Cleanup(f.srv.Close)
	from, to := newWallet(1), newWallet(2)
	s := &shop{t: t, to: to.addr.String(), x: hexCid(t, "10")}
	s.node = w.node(true, hexID(t, "10"), true, "SEARCH_PRICE=100", "OFFER_PRICE=100")
	p := w.node(false, hexID(t, "77"), true)
	m, _ := fcrmessages.EncodeGatewayAdminInitialiseKeyRequestV2(s.id, s.kp, fcrcrypto.InitialKeyVersion(), to.priv, f.srv.URL, "token")
	if _, err := post(s.admin, m); err != nil {
		t.Fatal(err)
	}
	s.refresh()
	p.refresh()
	for i := 0; i < 3; i++ {
		if err := p.publishGroup(uint64(40+i), *s.x, *hexCid(t, "11")); err != nil {
			t.Fatal(err)
		}
	}
	l, err := p.listed(*s.id)
	if err != nil || len(l) != 3 {
		t.Fatal(len(l), err)
	}
	for _, o := range l {
		s.digs = append(s.digs, cidoffer.EncodeMessageDigest(o.GetMessageDigest()))
	}
	if s.payer, err = fcrpaymentmgr.NewFCRPaymentMgr(from.priv, f.srv.URL, "token"); err != nil {
		t.Fatal(err)
	}
	if err := s.payer.Topup(s.to, big.NewInt(1_000_000)); err != nil {
		t.Fatal(err)
	}
	return s
}

func (s *shop) pay(n int64) (string, string) {
	ch, v, more, err := s.payer.Pay(s.to, 0, big.NewInt(n))
	if err != nil || more {
		s.t.Fatal(more, err)
	}
	return ch, v
}

// buy is the number of offers bought.
func (s *shop) buy(nonce int64, ch, v string, digs ...string) int {
	m, _ := fcrmessages.EncodeClientStandardDiscoverOfferRequest(s.x, nonce, time.Now().Unix()+100, digs, ch, v)
	r, err := post(s.rest, m)
	if err != nil {
		return 0
	}
	_, _, _, l, _, _, _, err := fcrmessages.DecodeClientStandardDiscoverOfferResponse(r)
	if err != nil {
		return 0
	}
	return len(l)
}

// search is whether a paid search is answered.
func (s *shop) search(ttl int64, ch, v string) bool {
	m, _ := fcrmessages.EncodeClientStandardDiscoverRequestV2(s.x, 5, ttl, ch, v)
	r, err := post(s.rest, m)
	if err != nil {
		return false
	}
	_, _, _, l, _, need, _, err := fcrmessages.DecodeClientStandardDiscoverResponseV2(r)
	return err == nil && !need && len(l) > 0
}

var _ nodeid.NodeID
