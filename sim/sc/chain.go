// Package sc holds the scenarios: workloads and oracles.
package sc

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"errors"
	"fmt"
	"math/big"
	"net/http"
	"reflect"
	"sort"
	"time"

	"github.com/filecoin-project/go-address"
	"github.com/filecoin-project/go-crypto"
	lotusbig "github.com/filecoin-project/go-state-types/big"
	crypto2 "github.com/filecoin-project/go-state-types/crypto"
	"github.com/filecoin-project/go-state-types/exitcode"
	"github.com/filecoin-project/lotus/api"
	"github.com/filecoin-project/lotus/chain/types"
	init4 "github.com/filecoin-project/specs-actors/v4/actors/builtin/init"
	paych4 "github.com/filecoin-project/specs-actors/v4/actors/builtin/paych"
	"github.com/ipfs/go-cid"
	"github.com/minio/blake2b-simd"

	"sim.local/h/fw"
	"sim.local/h/simext"
	"sim.local/h/simrt"
)

// Wallet is a chain key pair.
type Wallet struct {
	Priv []byte
	Hex  string
	Pub  []byte
	Addr address.Address
	ID   address.Address
}

var wallets = map[int]*Wallet{}

// WalletN is the n-th fixed wallet.
func WalletN(n int) *Wallet {
	if w := wallets[n]; w != nil {
		return w
	}
	h := sha256.Sum256([]byte(fmt.Sprintf("wallet %d", n)))
	w := &Wallet{Priv: h[:], Hex: hex.EncodeToString(h[:])}
	w.Pub = crypto.PublicKey(w.Priv)
	w.Addr, _ = address.NewSecp256k1Address(w.Pub)
	w.ID, _ = address.NewIDAddress(uint64(1000 + n))
	wallets[n] = w
	return w
}

// PubHex is the uncompressed public key as the settings carry it.
func (w *Wallet) PubHex() string { return hex.EncodeToString(w.Pub) }

func (w *Wallet) sign(msg []byte) *crypto2.Signature {
	b := blake2b.Sum256(msg)
	s, err := crypto.Sign(w.Priv, b[:])
	if err != nil {
		panic(err)
	}
	return &crypto2.Signature{Type: crypto2.SigTypeSecp256k1, Data: s}
}

// ChainChannel is a payment channel actor.
type ChainChannel struct {
	Addr     address.Address
	From, To address.Address
	Balance  *big.Int
	Made     uint64
}

type chainMsg struct {
	m     *types.SignedMessage
	cid   cid.Cid
	mined bool
	rcpt  *types.MessageReceipt
}

// ChainFaults are probabilities per API call.
type ChainFaults struct {
	PErr     float64 // the call fails and has no effect
	PErrLate float64 // the call has its effect but the caller sees an error
	PExit    float64 // the message executes with an error
	Lat      time.Duration
	Block    time.Duration
}

// Chain simulates the lotus node and the chain behind it.
type Chain struct {
	s        *simrt.Sim
	r        *simrt.PRNG
	F        ChainFaults
	nonce    map[address.Address]uint64
	msgs     map[cid.Cid]*chainMsg
	Channels map[address.Address]*ChainChannel
	Order    []*ChainChannel
	robust   map[address.Address]*Wallet
	// Errs counts injected API errors per task tag
	OnErr func(tag any, call string)
	Down  bool
	// Touched accounts of all pushed messages
	Pushed int
}

// NewChain starts a chain and installs it for all lotus clients of the run.
func NewChain(c *fw.Ctx, f ChainFaults) *Chain {
	ch := &Chain{s: c.Sim, r: c.NetR.Fork(77), F: f, nonce: map[address.Address]uint64{}, msgs: map[cid.Cid]*chainMsg{},
		Channels: map[address.Address]*ChainChannel{}, robust: map[address.Address]*Wallet{}}
	simext.MergeClient = ch.fill
	c.AtEnd(func() { simext.MergeClient = nil })
	return ch
}

// AddWallet makes an account known.
func (ch *Chain) AddWallet(w *Wallet) { ch.robust[w.ID] = w }

func (ch *Chain) call(name string) error {
	if ch.F.Lat > 0 {
		ch.s.SleepFor(time.Duration(1 + ch.r.I64(int64(ch.F.Lat))))
	} else {
		simrt.Point()
	}
	if ch.Down || ch.s.Fault(ch.r, "chain-api-error", ch.F.PErr) {
		if ch.OnErr != nil {
			ch.OnErr(simrt.Cur().Tag, name)
		}
		return errors.New("lotus: RPC client error: " + name)
	}
	return nil
}

func (ch *Chain) late(name string) error {
	if ch.F.Lat > 0 {
		ch.s.SleepFor(time.Duration(1 + ch.r.I64(int64(ch.F.Lat))))
	}
	if ch.s.Fault(ch.r, "chain-reply-lost", ch.F.PErrLate) {
		if ch.OnErr != nil {
			ch.OnErr(simrt.Cur().Tag, name)
		}
		return errors.New("lotus: websocket connection closed: " + name)
	}
	return nil
}

func (ch *Chain) fill(node *simrt.Node, addr string, outs []interface{}, h http.Header) error {
	if ch.s != simrt.S {
		return errors.New("no chain")
	}
	fns := map[string]any{
		"MpoolGetNonce": func(ctx context.Context, a address.Address) (uint64, error) {
			if err := ch.call("MpoolGetNonce"); err != nil {
				return 0, err
			}
			n := ch.nonce[a]
			return n, ch.late("MpoolGetNonce")
		},
		"GasEstimateGasLimit": func(ctx context.Context, m *types.Message, k types.TipSetKey) (int64, error) {
			return 1000000, ch.call("GasEstimateGasLimit")
		},
		"GasEstimateGasPremium": func(ctx context.Context, n uint64, a address.Address, g int64, k types.TipSetKey) (types.BigInt, error) {
			return types.NewInt(100), ch.call("GasEstimateGasPremium")
		},
		"GasEstimateFeeCap": func(ctx context.Context, m *types.Message, n int64, k types.TipSetKey) (types.BigInt, error) {
			return types.NewInt(1000), ch.call("GasEstimateFeeCap")
		},
		"MpoolPush":       ch.push,
		"StateGetReceipt": ch.receipt,
		"StateReadState":  ch.readState,
		"StateAccountKey": func(ctx context.Context, a address.Address, k types.TipSetKey) (address.Address, error) {
			if err := ch.call("StateAccountKey"); err != nil {
				return address.Undef, err
			}
			if a.Protocol() == address.SECP256K1 || a.Protocol() == address.BLS {
				return a, nil
			}
			if w := ch.robust[a]; w != nil {
				return w.Addr, nil
			}
			return address.Undef, errors.New("actor not found")
		},
	}
	for _, o := range outs {
		v := reflect.ValueOf(o).Elem()
		for name, f := range fns {
			fl := v.FieldByName(name)
			if fl.IsValid() {
				fl.Set(reflect.ValueOf(f))
			}
		}
	}
	return nil
}

func (ch *Chain) push(ctx context.Context, sm *types.SignedMessage) (cid.Cid, error) {
	if err := ch.call("MpoolPush"); err != nil {
		return cid.Undef, err
	}
	from := sm.Message.From
	if sm.Message.Nonce < ch.nonce[from] {
		return cid.Undef, errors.New("message nonce too low")
	}
	if sm.Message.Nonce > ch.nonce[from] {
		return cid.Undef, errors.New("message nonce gap")
	}
	if err := (secp{}).verify(sm.Signature.Data, from, sm.Message.Cid().Bytes()); err != nil {
		return cid.Undef, err
	}
	ch.nonce[from]++
	ch.Pushed++
	m := &chainMsg{m: sm, cid: sm.Cid()}
	ch.msgs[m.cid] = m
	exit := ch.s.Fault(ch.r, "chain-message-fails", ch.F.PExit)
	ch.s.At(time.Duration(int64(ch.F.Block)/2+ch.r.I64(int64(ch.F.Block)+1)), func() { ch.mine(m, exit) })
	return m.cid, ch.late("MpoolPush")
}

func (ch *Chain) mine(m *chainMsg, exit bool) {
	msg := &m.m.Message
	m.mined = true
	m.rcpt = &types.MessageReceipt{GasUsed: 100}
	if exit {
		m.rcpt.ExitCode = exitcode.SysErrOutOfGas
		ch.s.Logf("CHAIN message %s failed", msg.From)
		return
	}
	if c := ch.Channels[msg.To]; c != nil {
		c.Balance = new(big.Int).Add(c.Balance, msg.Value.Int)
		ch.s.Logf("CHAIN deposit %s += %s", c.Addr, msg.Value)
		return
	}
	if len(msg.Params) == 0 {
		return
	}
	var ep init4.ExecParams
	if err := ep.UnmarshalCBOR(bytes.NewReader(msg.Params)); err != nil {
		m.rcpt.ExitCode = exitcode.ErrSerialization
		return
	}
	var cp paych4.ConstructorParams
	if err := cp.UnmarshalCBOR(bytes.NewReader(ep.ConstructorParams)); err != nil {
		m.rcpt.ExitCode = exitcode.ErrSerialization
		return
	}
	a, _ := address.NewActorAddress([]byte(fmt.Sprintf("%s/%d", msg.From, msg.Nonce)))
	id, _ := address.NewIDAddress(uint64(5000 + len(ch.Order)))
	c := &ChainChannel{Addr: a, From: cp.From, To: cp.To, Balance: new(big.Int).Set(msg.Value.Int)}
	ch.Channels[a] = c
	ch.Order = append(ch.Order, c)
	ret := init4.ExecReturn{IDAddress: id, RobustAddress: a}
	var b bytes.Buffer
	ret.MarshalCBOR(&b)
	m.rcpt.Return = b.Bytes()
	ch.s.Logf("CHAIN channel %s from %s to %s = %s", a, cp.From, cp.To, msg.Value)
}

func (ch *Chain) receipt(ctx context.Context, c cid.Cid, k types.TipSetKey) (*types.MessageReceipt, error) {
	if err := ch.call("StateGetReceipt"); err != nil {
		return nil, err
	}
	m := ch.msgs[c]
	if m == nil || !m.mined {
		return nil, nil
	}
	r := *m.rcpt
	return &r, nil
}

func (ch *Chain) idOf(a address.Address) address.Address {
	for id, w := range ch.robust {
		if w.Addr == a {
			return id
		}
	}
	return a
}

func (ch *Chain) readState(ctx context.Context, a address.Address, k types.TipSetKey) (*api.ActorState, error) {
	if err := ch.call("StateReadState"); err != nil {
		return nil, err
	}
	if c := ch.Channels[a]; c != nil {
		st := &api.ActorState{Balance: lotusbig.NewFromGo(c.Balance),
			State: map[string]interface{}{"From": ch.idOf(c.From).String(), "To": ch.idOf(c.To).String(), "ToSend": "0", "SettlingAt": 0.0}}
		return st, ch.late("StateReadState")
	}
	for _, w := range ch.robust {
		if w.Addr == a || w.ID == a {
			return &api.ActorState{Balance: types.NewInt(1 << 40), State: map[string]interface{}{"Address": w.Addr.String()}}, nil
		}
	}
	return nil, fmt.Errorf("actor not found")
}

// Between lists the channels from one account to another, oldest first.
func (ch *Chain) Between(from, to address.Address) []*ChainChannel {
	var r []*ChainChannel
	for _, c := range ch.Order {
		if c.From == from && c.To == to {
			r = append(r, c)
		}
	}
	return r
}

type secp struct{}

func (secp) verify(sig []byte, a address.Address, msg []byte) error {
	b := blake2b.Sum256(msg)
	pk, err := crypto.EcRecover(b[:], sig)
	if err != nil {
		return err
	}
	m, err := address.NewSecp256k1Address(pk)
	if err != nil {
		return err
	}
	if m != a {
		return fmt.Errorf("signature did not match")
	}
	return nil
}

// --- small helpers shared by the scenarios

func bi(n int64) *big.Int { return big.NewInt(n) }

func sortedStr[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// threads runs the ops of each thread (first argument) in order, every thread as its own task of the node it belongs to.
func threads(c *fw.Ctx, ops []fw.Op, nodeOf func(th int64) *simrt.Node, do func(th int64, i int, o fw.Op)) {
	byTh := map[int64][]int{}
	var order []int64
	for i, o := range ops {
		t := o.Arg(0)
		if byTh[t] == nil {
			order = append(order, t)
		}
		byTh[t] = append(byTh[t], i)
	}
	var fs []func()
	for _, t := range order {
		t := t
		fs = append(fs, func() {
			c.Call(nodeOf(t), fmt.Sprintf("thread%d", t), func() {
				for _, i := range byTh[t] {
					do(t, i, ops[i])
				}
			})
		})
	}
	if len(fs) > 0 {
		c.Parallel(fs...)
	}
}

// knobs draws the schedule part of a plan.
func knobs(r *simrt.PRNG, p *fw.Plan) {
	p.Policy = r.N(2)
	switch r.N(6) {
	case 0:
		p.MeanGap = 0
	case 1:
		p.MeanGap = 2 + r.N(4)
	case 2, 3:
		p.MeanGap = 5 + r.N(30)
	default:
		p.MeanGap = 20 + r.N(300)
	}
}
