package fcrpaymentmgr_test

// A minimal Lotus JSON-RPC server: accounts, payment channels, receipts.

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"net/http"
	"net/http/httptest"
	"sync"

	"github.com/filecoin-project/go-address"
	"github.com/filecoin-project/go-crypto"
	"github.com/filecoin-project/lotus/chain/actors/builtin/paych"
	"github.com/filecoin-project/lotus/chain/types"
	init4 "github.com/filecoin-project/specs-actors/v4/actors/builtin/init"
	paych4 "github.com/filecoin-project/specs-actors/v4/actors/builtin/paych"
)

type wallet struct {
	priv string
	addr address.Address
}

func newWallet(n byte) wallet {
	key := bytes.Repeat([]byte{n}, 32)
	addr, err := address.NewSecp256k1Address(crypto.PublicKey(key))
	if err != nil {
		panic(err)
	}
	return wallet{priv: hex.EncodeToString(key), addr: addr}
}

type fakeChannel struct {
	from, to address.Address
	balance  *big.Int
}

type fakeLotus struct {
	mu       sync.Mutex
	srv      *httptest.Server
	nonce    uint64
	channels map[string]*fakeChannel
	receipts map[string]*types.MessageReceipt
	// failNext makes the next messages fail on chain
	failNext int
}

func newFakeLotus() *fakeLotus {
	f := &fakeLotus{channels: map[string]*fakeChannel{}, receipts: map[string]*types.MessageReceipt{}}
	f.srv = httptest.NewServer(f)
	return f
}

func (f *fakeLotus) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	var req struct {
		ID     interface{}       `json:"id"`
		Method string            `json:"method"`
		Params []json.RawMessage `json:"params"`
	}
	if err := json.NewDecoder(r.Body).Decode(&req); err != nil {
		http.Error(w, err.Error(), 400)
		return
	}
	res, err := f.call(req.Method, req.Params)
	out := map[string]interface{}{"jsonrpc": "2.0", "id": req.ID, "result": res}
	if err != nil {
		out = map[string]interface{}{"jsonrpc": "2.0", "id": req.ID, "error": map[string]interface{}{"code": 1, "message": err.Error()}}
	}
	json.NewEncoder(w).Encode(out)
}

func (f *fakeLotus) call(method string, params []json.RawMessage) (interface{}, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	switch method {
	case "Filecoin.MpoolGetNonce":
		return f.nonce, nil
	case "Filecoin.GasEstimateGasLimit":
		return 1000000, nil
	case "Filecoin.GasEstimateGasPremium":
		return "100", nil
	case "Filecoin.GasEstimateFeeCap":
		return "1000", nil
	case "Filecoin.MpoolPush":
		var sm types.SignedMessage
		if err := json.Unmarshal(params[0], &sm); err != nil {
			return nil, err
		}
		f.nonce++
		rcpt := &types.MessageReceipt{GasUsed: 1}
		if f.failNext > 0 {
			f.failNext--
			rcpt.ExitCode = 7
		} else if c := f.channels[sm.Message.To.String()]; c != nil {
			c.balance = new(big.Int).Add(c.balance, sm.Message.Value.Int)
		} else {
			var ep init4.ExecParams
			var cp paych4.ConstructorParams
			if err := ep.UnmarshalCBOR(bytes.NewReader(sm.Message.Params)); err != nil {
				return nil, err
			}
			if err := cp.UnmarshalCBOR(bytes.NewReader(ep.ConstructorParams)); err != nil {
				return nil, err
			}
			a, _ := address.NewActorAddress([]byte(fmt.Sprintf("channel %d", f.nonce)))
			id, _ := address.NewIDAddress(5000 + f.nonce)
			f.channels[a.String()] = &fakeChannel{from: cp.From, to: cp.To, balance: new(big.Int).Set(sm.Message.Value.Int)}
			var b bytes.Buffer
			(&init4.ExecReturn{IDAddress: id, RobustAddress: a}).MarshalCBOR(&b)
			rcpt.Return = b.Bytes()
		}
		f.receipts[sm.Cid().String()] = rcpt
		return sm.Cid(), nil
	case "Filecoin.StateGetReceipt":
		var c map[string]string
		json.Unmarshal(params[0], &c)
		return f.receipts[c["/"]], nil
	case "Filecoin.StateReadState":
		var a address.Address
		if err := json.Unmarshal(params[0], &a); err != nil {
			return nil, err
		}
		c := f.channels[a.String()]
		if c == nil {
			return nil, fmt.Errorf("actor not found")
		}
		return map[string]interface{}{"Balance": c.balance.String(),
			"State": map[string]interface{}{"From": c.from.String(), "To": c.to.String()}}, nil
	case "Filecoin.StateAccountKey":
		var a address.Address
		err := json.Unmarshal(params[0], &a)
		return a.String(), err
	}
	return nil, fmt.Errorf("method %s not supported", method)
}

// funds is what was deposited in the only channel.
func (f *fakeLotus) funds() *big.Int {
	f.mu.Lock()
	defer f.mu.Unlock()
	sum := new(big.Int)
	for _, c := range f.channels {
		sum.Add(sum, c.balance)
	}
	return sum
}

func decode(v string) *paych.SignedVoucher {
	b, err := base64.RawURLEncoding.DecodeString(v)
	if err != nil {
		panic(err)
	}
	var sv paych.SignedVoucher
	if err := sv.UnmarshalCBOR(bytes.NewReader(b)); err != nil {
		panic(err)
	}
	return &sv
}

// promised is the sum over the lanes of the largest voucher.
func promised(vouchers []string) *big.Int {
	lanes := map[uint64]*big.Int{}
	for _, v := range vouchers {
		sv := decode(v)
		if lanes[sv.Lane] == nil || lanes[sv.Lane].Cmp(sv.Amount.Int) < 0 {
			lanes[sv.Lane] = sv.Amount.Int
		}
	}
	sum := new(big.Int)
	for _, a := range lanes {
		sum.Add(sum, a)
	}
	return sum
}
