From 4c3647876cc25c03f7d1dfbd28aca06b2fbe6453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:49 +0000
Subject: [PATCH 01/34] fix: concurrent top-ups to a new recipient opened
 several payment channels

Only the last one was remembered; the funds of the others were lost.
---
 common/pkg/fcrpaymentmgr/payment_manager.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/common/pkg/fcrpaymentmgr/payment_manager.go b/common/pkg/fcrpaymentmgr/payment_manager.go
index 582bf80..7804dcb 100644
--- a/common/pkg/fcrpaymentmgr/payment_manager.go
+++ b/common/pkg/fcrpaymentmgr/payment_manager.go
@@ -135,6 +135,13 @@ func (mgr *FCRPaymentMgr) Topup(recipient string, amount *big.Int) error {
 		// Need to create a channel
 		mgr.outboundChsLock.RUnlock()
 		mgr.outboundChsLock.Lock()
+		if cs, ok = mgr.outboundChs[recipient]; ok {
+			// Another thread has created the channel in the meantime
+			mgr.outboundChsLock.Unlock()
+			mgr.outboundChsLock.RLock()
+		}
+	}
+	if !ok {
 		defer mgr.outboundChsLock.Unlock()
 		builder := paych.Message(actors.Version4, *mgr.address)
 		msg, err := builder.Create(recipientAddr, lotusbig.NewFromGo(amount))
-- 
2.43.0


From 9e23cb73f5701620272ca9e431bb532b103032a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:49 +0000
Subject: [PATCH 02/34] fix: channel balance shared storage with the amount
 object of the caller of Topup

Later top-ups added in place and so changed the caller's amount, for example the configured top-up amount.
---
 common/pkg/fcrpaymentmgr/payment_manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/pkg/fcrpaymentmgr/payment_manager.go b/common/pkg/fcrpaymentmgr/payment_manager.go
index 7804dcb..f9a9b7f 100644
--- a/common/pkg/fcrpaymentmgr/payment_manager.go
+++ b/common/pkg/fcrpaymentmgr/payment_manager.go
@@ -174,7 +174,7 @@ func (mgr *FCRPaymentMgr) Topup(recipient string, amount *big.Int) error {
 		// Create new channel
 		mgr.outboundChs[recipient] = &channelState{
 			addr:       decodedReturn.RobustAddress,
-			balance:    *amount,
+			balance:    *new(big.Int).Set(amount),
 			redeemed:   *big.NewInt(0),
 			lock:       sync.RWMutex{},
 			laneStates: make(map[uint64]*laneState),
-- 
2.43.0


From 0ebcb90d9b3cacbff50bacd5f418b250be512e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:21 +0000
Subject: [PATCH 03/34] fix: a voucher on a new inbound channel could be
 credited more than once

Threads receiving the first vouchers of a channel each created a channel state of their own, and the
channel state was read from the chain before the channel was locked, so that a stale balance made good
vouchers fail.
---
 common/pkg/fcrpaymentmgr/payment_manager.go | 51 ++++++++++-----------
 1 file changed, 23 insertions(+), 28 deletions(-)

diff --git a/common/pkg/fcrpaymentmgr/payment_manager.go b/common/pkg/fcrpaymentmgr/payment_manager.go
index f9a9b7f..d4f6974 100644
--- a/common/pkg/fcrpaymentmgr/payment_manager.go
+++ b/common/pkg/fcrpaymentmgr/payment_manager.go
@@ -301,46 +301,41 @@ func (mgr *FCRPaymentMgr) Receive(channel string, voucher string) (*big.Int, err
 	}
 	defer closer()
 
-	// Get channel state from the chain
-	state, err := api.StateReadState(context.Background(), channelAddr, types.EmptyTSK)
-	if err != nil {
-		return nil, fmt.Errorf("receive voucher method failed, error reading state: %s", err.Error())
-	}
-	// TODO, Need to make sure it is indeed paych actor state
-	paychState, ok := state.State.(map[string]interface{})
-	if !ok {
-		return nil, errors.New("receive voucher method failed, not a paych state")
-	}
-
 	// Get channel state from local storage
-	mgr.inboundChsLock.RLock()
+	mgr.inboundChsLock.Lock()
 	cs, ok := mgr.inboundChs[channel]
 	if !ok {
 		// Need to create a entry in local storage
-		mgr.inboundChsLock.RUnlock()
-		mgr.inboundChsLock.Lock()
-		defer mgr.inboundChsLock.Unlock()
 		cs = &channelState{
 			addr:       channelAddr,
-			balance:    *state.Balance.Int,
+			balance:    *big.NewInt(0),
 			redeemed:   *big.NewInt(0),
 			lock:       sync.RWMutex{},
 			laneStates: make(map[uint64]*laneState),
 		}
 		mgr.inboundChs[channel] = cs
-	} else {
-		// Need to update the channel state
-		defer mgr.inboundChsLock.RUnlock()
-		cs.lock.Lock()
-		defer cs.lock.Unlock()
-		if cs.balance.Cmp(state.Balance.Int) > 0 {
-			// No possible to happen
-			return nil, errors.New("on chain state has smaller balance than local chain state")
-		} else {
-			// Update local channel balance
-			cs.balance = *state.Balance.Int
-		}
 	}
+	mgr.inboundChsLock.Unlock()
+	// Lock channel state to make sure only one thread can read/write channel state
+	cs.lock.Lock()
+	defer cs.lock.Unlock()
+
+	// Get channel state from the chain
+	state, err := api.StateReadState(context.Background(), channelAddr, types.EmptyTSK)
+	if err != nil {
+		return nil, fmt.Errorf("receive voucher method failed, error reading state: %s", err.Error())
+	}
+	// TODO, Need to make sure it is indeed paych actor state
+	paychState, ok := state.State.(map[string]interface{})
+	if !ok {
+		return nil, errors.New("receive voucher method failed, not a paych state")
+	}
+	if cs.balance.Cmp(state.Balance.Int) > 0 {
+		// No possible to happen
+		return nil, errors.New("on chain state has smaller balance than local chain state")
+	}
+	// Update local channel balance
+	cs.balance = *state.Balance.Int
 
 	// Verify recipient
 	to, err := address.NewFromString(paychState["To"].(string))
-- 
2.43.0


From ddcae50ee2d2263e5620aa7355e8576ed040dee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:21 +0000
Subject: [PATCH 04/34] fix: vouchers were credited under any channel and any
 spelling of its address

The channel a voucher is drawn on was never compared with the channel it is presented for, and accounts
were kept per spelling of the address.
---
 common/pkg/fcrpaymentmgr/payment_manager.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/common/pkg/fcrpaymentmgr/payment_manager.go b/common/pkg/fcrpaymentmgr/payment_manager.go
index d4f6974..98d587e 100644
--- a/common/pkg/fcrpaymentmgr/payment_manager.go
+++ b/common/pkg/fcrpaymentmgr/payment_manager.go
@@ -294,6 +294,11 @@ func (mgr *FCRPaymentMgr) Receive(channel string, voucher string) (*big.Int, err
 	if err != nil {
 		return nil, fmt.Errorf("receive voucher method failed, error decoding voucher: %s", err.Error())
 	}
+	// The voucher must be drawn on this very channel
+	if sv.ChannelAddr != channelAddr {
+		return nil, fmt.Errorf("receive voucher method failed, voucher is for channel %s, not %s", sv.ChannelAddr.String(), channel)
+	}
+	channel = channelAddr.String()
 	// Get API
 	api, closer, err := getLotusAPI(mgr.authToken, mgr.lotusAPIAddr)
 	if err != nil {
-- 
2.43.0


From 04c32a64498526442900953f8ade6033d54249e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:21 +0000
Subject: [PATCH 05/34] fix: a voucher naming an actor that is no payment
 channel crashed the receiver

---
 common/pkg/fcrpaymentmgr/payment_manager.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/common/pkg/fcrpaymentmgr/payment_manager.go b/common/pkg/fcrpaymentmgr/payment_manager.go
index 98d587e..41e7b53 100644
--- a/common/pkg/fcrpaymentmgr/payment_manager.go
+++ b/common/pkg/fcrpaymentmgr/payment_manager.go
@@ -330,11 +330,15 @@ func (mgr *FCRPaymentMgr) Receive(channel string, voucher string) (*big.Int, err
 	if err != nil {
 		return nil, fmt.Errorf("receive voucher method failed, error reading state: %s", err.Error())
 	}
-	// TODO, Need to make sure it is indeed paych actor state
 	paychState, ok := state.State.(map[string]interface{})
 	if !ok {
 		return nil, errors.New("receive voucher method failed, not a paych state")
 	}
+	stateTo, okTo := paychState["To"].(string)
+	stateFrom, okFrom := paychState["From"].(string)
+	if !okTo || !okFrom {
+		return nil, errors.New("receive voucher method failed, not a paych state")
+	}
 	if cs.balance.Cmp(state.Balance.Int) > 0 {
 		// No possible to happen
 		return nil, errors.New("on chain state has smaller balance than local chain state")
@@ -343,7 +347,7 @@ func (mgr *FCRPaymentMgr) Receive(channel string, voucher string) (*big.Int, err
 	cs.balance = *state.Balance.Int
 
 	// Verify recipient
-	to, err := address.NewFromString(paychState["To"].(string))
+	to, err := address.NewFromString(stateTo)
 	if err != nil {
 		return nil, err
 	}
@@ -356,7 +360,7 @@ func (mgr *FCRPaymentMgr) Receive(channel string, voucher string) (*big.Int, err
 	}
 
 	// Verify signature
-	f, err := address.NewFromString(paychState["From"].(string))
+	f, err := address.NewFromString(stateFrom)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From ada3ecd4df2897b4d3a6e9778aa121ffa64685c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:13 +0000
Subject: [PATCH 06/34] fix: ring look-ups lost nodes and changed the ring
 while being read

GetClosest dropped the smallest node when asked for more than there are, removing
the head or the only node corrupted the ring, and look-ups (which callers run under
a read lock) inserted and removed nodes temporarily.
---
 common/pkg/dhtring/dhtring.go | 250 +++++++++++-----------------------
 1 file changed, 78 insertions(+), 172 deletions(-)

diff --git a/common/pkg/dhtring/dhtring.go b/common/pkg/dhtring/dhtring.go
index cf498f2..dff5c84 100644
--- a/common/pkg/dhtring/dhtring.go
+++ b/common/pkg/dhtring/dhtring.go
@@ -22,6 +22,7 @@ import (
 	"errors"
 	"fmt"
 	"math/big"
+	"sort"
 
 	"github.com/ConsenSys/fc-retrieval/common/pkg/logging"
 )
@@ -151,77 +152,34 @@ func (r *Ring) Remove(hex string) {
 	if r.size == 0 {
 		return
 	}
-	if r.size == 1 {
-		r.head = nil
-		r.size = 0
-		return
-	}
-	if r.size == 2 {
-		if r.head.val == hex {
-			r.head = r.head.next
-			r.head.next = nil
-			r.head.prv = nil
-			r.head.distPrv = big.NewInt(0)
-			r.head.distNext = big.NewInt(0)
-			r.size = 1
-		} else if r.head.next.val == hex {
-			r.head.next = nil
-			r.head.prv = nil
-			r.head.distPrv = big.NewInt(0)
-			r.head.distNext = big.NewInt(0)
-			r.size = 1
-		}
-		return
-	}
-	if r.head.val == hex {
-		oldHead := r.head
-		// first becomes the head
-		r.head = r.head.next
-		// tail links to the new head
-		oldHead.prv = r.head
-		// update distances
-		tailToNewHeadDistance := getDist(r.head.prv.key, r.head.key)
-		r.head.distPrv = tailToNewHeadDistance
-		r.head.prv.distNext = tailToNewHeadDistance
-		// help GC
-		oldHead = nil
-		r.size--
+	node := r.get(hex)
+	if node == nil {
+		// Not existed
 		return
 	}
-	hexKey, _ := new(big.Int).SetString(hex, 16)
-	current := r.head.next
-	for current != nil && current.val != r.head.val {
-		// Loop until we reach nil or we go back to head
-		if current.val == hex {
-			// We need to remove current
-			prv := current.prv
-			next := current.next
-			if prv != nil && next != nil {
-				if prv.val == next.val {
-					next.prv = nil
-					next.distPrv = nil
-					next.next = nil
-					next.distNext = nil
-				} else {
-					prv.next = next
-					prv.distNext = getDist(prv.key, next.key)
-					next.prv = prv
-					next.distPrv = getDist(prv.key, next.key)
-				}
-			}
-			if r.head.val == current.val {
-				r.head = next
-			}
-			r.size--
-			return
-		}
-		// Not equal
-		if current.key.Cmp(hexKey) > 0 {
-			// Return now
-			return
+	switch r.size {
+	case 1:
+		r.head = nil
+	case 2:
+		// The other node is left alone
+		other := node.next
+		other.prv = nil
+		other.distPrv = nil
+		other.next = nil
+		other.distNext = nil
+		r.head = other
+	default:
+		prv, next := node.prv, node.next
+		dist := getDist(prv.key, next.key)
+		prv.next = next
+		prv.distNext = dist
+		next.prv = prv
+		next.distPrv = dist
+		if r.head == node {
+			r.head = next
 		}
-		current = current.next
 	}
+	r.size--
 }
 
 // GetClosest gets the closest hexes close to the given hex
@@ -231,79 +189,40 @@ func (r *Ring) GetClosest(hex string, num int, exclude string) ([]string, error)
 		return nil, errors.New("invalid input")
 	}
 	res := make([]string, 0)
-	if num == 0 || r.size == 0 || (exclude != "" && r.size == 1) {
-		return res, nil
-	}
-	// Consider exclusion
-	if exclude != "" {
-		before := r.size
-		r.Remove(exclude)
-		if r.size != before {
-			defer r.Insert(exclude)
+	// The ring is only read here: look-ups run concurrently
+	nodes := make([]*ringNode, 0, r.size)
+	for _, node := range r.nodes() {
+		if exclude == "" || node.val != exclude {
+			nodes = append(nodes, node)
 		}
 	}
-	if num > r.size {
-		if r.head.val == hex {
-			res = append(res, r.head.val)
-		}
-		current := r.head.next
-		for current != nil && current.val != r.head.val {
-			res = append(res, current.val)
-			current = current.next
-		}
+	size := len(nodes)
+	if num > size {
+		num = size
+	}
+	if num <= 0 {
 		return res, nil
 	}
-	// Insert & Search & Remove
-	before := r.size
-	r.Insert(hex)
-	if r.size == before {
+	// Search the position of hex
+	key, _ := new(big.Int).SetString(hex, 16)
+	next := sort.Search(size, func(i int) bool { return nodes[i].key.Cmp(key) >= 0 })
+	prv := next - 1
+	if next < size && nodes[next].key.Cmp(key) == 0 {
 		// This already exists
-		res = append(res, hex)
-		if num == 1 {
-			// Return immediately if only requires one
-			return res, nil
-		}
-	} else {
-		defer r.Remove(hex)
+		res = append(res, nodes[next].val)
+		next++
 	}
-	// Now search
-	current := r.head
-	for ok := true; ok; ok = current.val != r.head.val {
-		if current.val == hex {
-			// We found it
-			break
-		}
-		current = current.next
-	}
-	// Now current is the hex inserted
-	prv := current.prv
-	distToPrv := big.NewInt(0)
-	distToPrv.Add(distToPrv, current.distPrv)
-	next := current.next
-	distToNext := big.NewInt(0)
-	distToNext.Add(distToNext, current.distNext)
-	for {
-		// If prv and next is the same thing
-		// Add it and return
-		if prv.val == next.val {
-			res = append(res, prv.val)
-			break
-		}
-		// fmt.Printf("\n\nprv %v\ndist to prv %v\nnext %v\ndist to next %v\n\n", prv.val, distToPrv, next.val, distToNext)
-		cmp := distToPrv.Cmp(distToNext)
+	// Walk away from it in both directions
+	for len(res) < num {
+		prvNode := nodes[(prv+size)%size]
+		nextNode := nodes[next%size]
 		// If equal, we choose the previous one
-		if cmp <= 0 {
-			res = append([]string{prv.val}, res...)
-			distToPrv.Add(distToPrv, prv.distPrv)
-			prv = prv.prv
+		if getDist(prvNode.key, key).Cmp(getDist(key, nextNode.key)) <= 0 {
+			res = append([]string{prvNode.val}, res...)
+			prv--
 		} else {
-			res = append(res, next.val)
-			distToNext.Add(distToNext, next.distNext)
-			next = next.next
-		}
-		if len(res) == num {
-			// We have enough
-			break
+			res = append(res, nextNode.val)
+			next++
 		}
 	}
 	return res, nil
@@ -316,48 +235,26 @@ func (r *Ring) GetWithinRange(startHex string, endHex string) ([]string, error)
 		return nil, errors.New("invalid input")
 	}
 	res := make([]string, 0)
-	var startNode *ringNode
-	var endNode *ringNode
-	addStart := false
-	addEnd := false
-	if temp := r.get(startHex); temp != nil {
-		startNode = temp
-		addStart = true
-	} else {
-		r.Insert(startHex)
-		startNode = r.get(startHex)
-		if startNode == nil {
-			return res, errors.New("internal error")
-		}
-		defer r.Remove(startHex)
-	}
-
-	if temp := r.get(endHex); temp != nil {
-		endNode = temp
-		addEnd = true
-	} else {
-		r.Insert(endHex)
-		endNode = r.get(endHex)
-		if endNode == nil {
-			return res, errors.New("internal error")
+	start, _ := new(big.Int).SetString(startHex, 16)
+	end, _ := new(big.Int).SetString(endHex, 16)
+	nodes := r.nodes()
+	size := len(nodes)
+	// The ring is only read here, start from the first node at or after the start of the range
+	first := sort.Search(size, func(i int) bool { return nodes[i].key.Cmp(start) >= 0 })
+	for i := 0; i < size; i++ {
+		node := nodes[(first+i)%size]
+		afterStart := node.key.Cmp(start) >= 0
+		beforeEnd := node.key.Cmp(end) <= 0
+		if start.Cmp(end) <= 0 {
+			if !afterStart || !beforeEnd {
+				break
+			}
+		} else if !afterStart && !beforeEnd {
+			// It has across the max/min boundary
+			break
 		}
-		defer r.Remove(endHex)
-	}
-
-	if addStart {
-		res = append(res, startHex)
-	}
-
-	next := startNode.next
-	for next.val != endNode.val {
-		res = append(res, next.val)
-		next = next.next
+		res = append(res, node.val)
 	}
-
-	if addEnd {
-		res = append(res, endHex)
-	}
-
 	return res, nil
 }
 
@@ -386,6 +283,15 @@ func (r *Ring) Dump() {
 	fmt.Printf("]\n\n")
 }
 
+// nodes gets all nodes, from the smallest to the biggest
+func (r *Ring) nodes() []*ringNode {
+	res := make([]*ringNode, 0, r.size)
+	for current := r.head; len(res) < r.size; current = current.next {
+		res = append(res, current)
+	}
+	return res
+}
+
 // get gets the ringNode inside this ring, nil if not found
 func (r *Ring) get(hex string) *ringNode {
 	if !validateInput(hex) {
-- 
2.43.0


From 163a33d4e0411cb291ce45848f4169cdf2c8beb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:41 +0000
Subject: [PATCH 07/34] fix: register view could hang, miss refreshes or serve
 stale nodes after shut-down

Concurrent refreshes took each other's signals (one returned before its refresh
was done), a refresh or a second shut-down overlapping a shut-down waited for
ever, GetGatewayCIDRange took a read lock twice (dead-locks with a waiting
writer), an empty record in the register's answer stopped the process, and the
ring kept the nodes of before a shut-down.
---
 common/pkg/fcrregistermgr/register_manager.go | 185 +++++++++++-------
 1 file changed, 112 insertions(+), 73 deletions(-)

diff --git a/common/pkg/fcrregistermgr/register_manager.go b/common/pkg/fcrregistermgr/register_manager.go
index ca404b5..aedfea4 100644
--- a/common/pkg/fcrregistermgr/register_manager.go
+++ b/common/pkg/fcrregistermgr/register_manager.go
@@ -38,7 +38,11 @@ import (
 // FCRRegisterMgr Register Manager manages the internal storage of registered nodes.
 type FCRRegisterMgr struct {
 	// Boolean indicates if the manager has started
-	start bool
+	start     bool
+	startLock sync.RWMutex
+
+	// lifeLock serialises Start and Shutdown
+	lifeLock sync.Mutex
 
 	// API for the register
 	registerAPI string
@@ -51,10 +55,12 @@ type FCRRegisterMgr struct {
 	providerDiscv bool
 
 	// Channels to control the threads
-	gatewayShutdownCh  chan bool
-	providerShutdownCh chan bool
-	gatewayRefreshCh   chan bool
-	providerRefreshCh  chan bool
+	// A refresh request carries the channel that is closed once the refresh is done
+	gatewayRefreshCh  chan chan struct{}
+	providerRefreshCh chan chan struct{}
+	// shutdownCh is closed to stop the threads
+	shutdownCh chan struct{}
+	threads    sync.WaitGroup
 
 	// registeredGatewaysMap stores mapping from gateway id (big int in string repr) to its registration info
 	registeredGatewaysMap     map[string]register.GatewayRegistrar
@@ -84,80 +90,115 @@ func NewFCRRegisterMgr(registerAPI string, providerDiscv bool, gatewayDiscv bool
 	if gatewayDiscv {
 		res.registeredGatewaysMap = make(map[string]register.GatewayRegistrar)
 		res.registeredGatewaysMapLock = sync.RWMutex{}
-		res.gatewayShutdownCh = make(chan bool)
-		res.gatewayRefreshCh = make(chan bool)
+		res.gatewayRefreshCh = make(chan chan struct{})
 		res.closestGatewaysIDs = dhtring.CreateRing()
 		res.closestGatewaysIDsLock = sync.RWMutex{}
 	}
 	if providerDiscv {
 		res.registeredProvidersMap = make(map[string]register.ProviderRegistrar)
 		res.registeredProvidersMapLock = sync.RWMutex{}
-		res.providerShutdownCh = make(chan bool)
-		res.providerRefreshCh = make(chan bool)
+		res.providerRefreshCh = make(chan chan struct{})
 	}
 	return res
 }
 
 // Start starts a thread to auto update the internal map every given duration.
 func (mgr *FCRRegisterMgr) Start() error {
-	if mgr.start {
+	mgr.lifeLock.Lock()
+	defer mgr.lifeLock.Unlock()
+	if started, _ := mgr.started(); started {
 		return errors.New("manager has already started")
 	}
+	shutdownCh := make(chan struct{})
+	mgr.startLock.Lock()
 	mgr.start = true
+	mgr.shutdownCh = shutdownCh
+	mgr.startLock.Unlock()
 	if mgr.gatewayDiscv {
-		go mgr.updateGateways()
+		mgr.threads.Add(1)
+		go mgr.updateGateways(shutdownCh)
 	}
 	if mgr.providerDiscv {
-		go mgr.updateProviders()
+		mgr.threads.Add(1)
+		go mgr.updateProviders(shutdownCh)
 	}
 	return nil
 }
 
+// started tells if the manager has started, and gives the channel that is closed when it is shut down.
+func (mgr *FCRRegisterMgr) started() (bool, chan struct{}) {
+	mgr.startLock.RLock()
+	defer mgr.startLock.RUnlock()
+	return mgr.start, mgr.shutdownCh
+}
+
 // Shutdown will shutdown the register manager.
 func (mgr *FCRRegisterMgr) Shutdown() {
-	if !mgr.start {
+	mgr.lifeLock.Lock()
+	defer mgr.lifeLock.Unlock()
+	if started, _ := mgr.started(); !started {
 		return
 	}
-	if mgr.gatewayDiscv {
-		mgr.gatewayShutdownCh <- true
-	}
-	if mgr.providerDiscv {
-		mgr.providerShutdownCh <- true
-	}
+	mgr.startLock.Lock()
 	mgr.start = false
+	close(mgr.shutdownCh)
+	mgr.startLock.Unlock()
+	mgr.threads.Wait()
 }
 
 // ShutdownAndWait stop the register manager
 // Initiates register manager blocking shutdown (waiting for all parties before return)
 func (mgr *FCRRegisterMgr) ShutdownAndWait() {
-	if !mgr.start {
+	mgr.Shutdown()
+}
+
+// Refresh refreshes the internal map immediately.
+func (mgr *FCRRegisterMgr) Refresh() {
+	started, shutdownCh := mgr.started()
+	if !started {
 		return
 	}
 	if mgr.gatewayDiscv {
-		mgr.shutdownGateways()
-		// stop the main loop
-		mgr.gatewayShutdownCh <- true
+		requestRefresh(mgr.gatewayRefreshCh, shutdownCh)
 	}
 	if mgr.providerDiscv {
-		mgr.shutdownProviders()
-		// stop the main loop
-		mgr.providerShutdownCh <- true
+		requestRefresh(mgr.providerRefreshCh, shutdownCh)
 	}
-	mgr.start = false
 }
 
-// Refresh refreshes the internal map immediately.
-func (mgr *FCRRegisterMgr) Refresh() {
-	if !mgr.start {
+// requestRefresh asks a thread for a refresh and waits until it is done, or the thread is shut down.
+func requestRefresh(refreshCh chan chan struct{}, shutdownCh chan struct{}) {
+	done := make(chan struct{})
+	select {
+	case refreshCh <- done:
+	case <-shutdownCh:
 		return
 	}
-	if mgr.gatewayDiscv {
-		mgr.gatewayRefreshCh <- true
-		<-mgr.gatewayRefreshCh
+	select {
+	case <-done:
+	case <-shutdownCh:
 	}
-	if mgr.providerDiscv {
-		mgr.providerRefreshCh <- true
-		<-mgr.providerRefreshCh
+}
+
+// waitForRefresh waits until the next refresh is due and returns the channels of those who wait for it,
+// false when the thread needs to shutdown.
+func (mgr *FCRRegisterMgr) waitForRefresh(refreshCh chan chan struct{}, shutdownCh chan struct{}) ([]chan struct{}, bool) {
+	waiting := make([]chan struct{}, 0)
+	select {
+	case done := <-refreshCh:
+		waiting = append(waiting, done)
+	case <-time.After(mgr.refreshDuration):
+	case <-shutdownCh:
+		return nil, false
+	}
+	// One refresh serves all who wait by now
+	for {
+		select {
+		case done := <-refreshCh:
+			waiting = append(waiting, done)
+		default:
+			return waiting, true
+		}
 	}
 }
 
@@ -175,7 +216,7 @@ func (mgr *FCRRegisterMgr) RegisterProvider(providerRegistrar register.ProviderR
 
 // GetGateway returns a gateway register if found.
 func (mgr *FCRRegisterMgr) GetGateway(id *nodeid.NodeID) register.GatewayRegistrar {
-	if !mgr.start || !mgr.gatewayDiscv {
+	if started, _ := mgr.started(); !started || !mgr.gatewayDiscv {
 		logging.Error("method GetGateway called, Register Manager is not started or gateway discovery is not enabled")
 		return nil
 	}
@@ -196,7 +237,7 @@ func (mgr *FCRRegisterMgr) GetGateway(id *nodeid.NodeID) register.GatewayRegistr
 
 // GetProvider returns a provider register if found.
 func (mgr *FCRRegisterMgr) GetProvider(id *nodeid.NodeID) register.ProviderRegistrar {
-	if !mgr.start || !mgr.providerDiscv {
+	if started, _ := mgr.started(); !started || !mgr.providerDiscv {
 		logging.Error("method GetProvider called, Register Manager is not started or provider discovery is not enabled")
 		return nil
 	}
@@ -218,7 +259,7 @@ func (mgr *FCRRegisterMgr) GetProvider(id *nodeid.NodeID) register.ProviderRegis
 
 // GetAllGateways returns  all discovered gateways.
 func (mgr *FCRRegisterMgr) GetAllGateways() []register.GatewayRegistrar {
-	if !mgr.start || !mgr.gatewayDiscv {
+	if started, _ := mgr.started(); !started || !mgr.gatewayDiscv {
 		logging.Error("method GetAllGateways called, Register Manager is not started or gateway discovery is not enabled")
 		return nil
 	}
@@ -233,7 +274,7 @@ func (mgr *FCRRegisterMgr) GetAllGateways() []register.GatewayRegistrar {
 
 // GetAllProviders returns  all discovered providers.
 func (mgr *FCRRegisterMgr) GetAllProviders() []register.ProviderRegistrar {
-	if !mgr.start || !mgr.providerDiscv {
+	if started, _ := mgr.started(); !started || !mgr.providerDiscv {
 		logging.Error("method GetAllProviders called, Register Manager is not started or provider discovery is not enabled")
 		return nil
 	}
@@ -248,7 +289,7 @@ func (mgr *FCRRegisterMgr) GetAllProviders() []register.ProviderRegistrar {
 
 // pullGatewaysFromRegisterSrv calls remote service to synchronize discovered Gateway nodes
 func (mgr *FCRRegisterMgr) pullGatewaysFromRegisterSrv() []register.GatewayRegistrar {
-	if !mgr.start || !mgr.gatewayDiscv {
+	if started, _ := mgr.started(); !started || !mgr.gatewayDiscv {
 		logging.Error("method pullGatewaysFromRegisterSrv called, Register Manager is not started or gateway discovery is not enabled")
 		return nil
 	}
@@ -266,6 +307,9 @@ func (mgr *FCRRegisterMgr) pullGatewaysFromRegisterSrv() []register.GatewayRegis
 
 	var result []register.GatewayRegistrar
 	for _, g := range gateways {
+		if g == nil {
+			continue
+		}
 		result = append(result, register.NewGatewayRegister(g.NodeID, g.Address, g.RootSigningKey, g.SigningKey, g.RegionCode, g.NetworkInfoGateway, g.NetworkInfoProvider, g.NetworkInfoClient, g.NetworkInfoAdmin))
 	}
 	return result
@@ -273,7 +317,7 @@ func (mgr *FCRRegisterMgr) pullGatewaysFromRegisterSrv() []register.GatewayRegis
 
 // pullProvidersFromRegisterSrv calls remote service to synchronize discovered Provider nodes
 func (mgr *FCRRegisterMgr) pullProvidersFromRegisterSrv() []register.ProviderRegistrar {
-	if !mgr.start || !mgr.providerDiscv {
+	if started, _ := mgr.started(); !started || !mgr.providerDiscv {
 		return nil
 	}
 	url := mgr.registerAPI + "/registers/provider/"
@@ -289,6 +333,9 @@ func (mgr *FCRRegisterMgr) pullProvidersFromRegisterSrv() []register.ProviderReg
 	}
 	var result []register.ProviderRegistrar
 	for _, g := range providers {
+		if g == nil {
+			continue
+		}
 		result = append(result, register.NewProviderRegister(g.NodeID, g.Address, g.RootSigningKey, g.SigningKey, g.RegionCode, g.NetworkInfoGateway, g.NetworkInfoClient, g.NetworkInfoAdmin))
 	}
 	return result
@@ -296,9 +343,6 @@ func (mgr *FCRRegisterMgr) pullProvidersFromRegisterSrv() []register.ProviderReg
 
 // GetGatewayCIDRange gets the cid max and cid min of this gateway at start up
 func (mgr *FCRRegisterMgr) GetGatewayCIDRange(gatewayID *nodeid.NodeID) (*cid.ContentID, *cid.ContentID, error) {
-	mgr.closestGatewaysIDsLock.RLock()
-	defer mgr.closestGatewaysIDsLock.RUnlock()
-
 	cID, err := cid.NewContentIDFromHexString(gatewayID.ToString())
 	if err != nil {
 		return nil, nil, err
@@ -363,8 +407,9 @@ func (mgr *FCRRegisterMgr) mapNodeIDs(nodsIDs []*nodeid.NodeID) map[string]strin
 
 // updateGateways updates gateways.
 // TODO: Support removal of gateways
-func (mgr *FCRRegisterMgr) updateGateways() {
-	refreshForce := false
+func (mgr *FCRRegisterMgr) updateGateways(shutdownCh chan struct{}) {
+	defer mgr.threads.Done()
+	var waiting []chan struct{}
 	for {
 		gateways := mgr.pullGatewaysFromRegisterSrv()
 		// Check for update
@@ -391,30 +436,26 @@ func (mgr *FCRRegisterMgr) updateGateways() {
 			}
 		}
 
-		if refreshForce {
-			mgr.gatewayRefreshCh <- true
-			refreshForce = false
+		for _, done := range waiting {
+			close(done)
 		}
-		afterChan := time.After(mgr.refreshDuration)
-		select {
-		case <-mgr.gatewayRefreshCh:
-			// Need to refresh
-			logging.Info("Register manager force update internal gateway map.")
-			refreshForce = true
-		case <-afterChan:
-			// Need to refresh
-		case <-mgr.gatewayShutdownCh:
+		var running bool
+		if waiting, running = mgr.waitForRefresh(mgr.gatewayRefreshCh, shutdownCh); !running {
 			// Need to shutdown
 			logging.Info("Register manager shutdown gateway routine.")
 			mgr.shutdownGateways()
 			return
 		}
+		if len(waiting) > 0 {
+			logging.Info("Register manager force update internal gateway map.")
+		}
 	}
 }
 
 // updateProviders updates providers.
-func (mgr *FCRRegisterMgr) updateProviders() {
-	refreshForce := false
+func (mgr *FCRRegisterMgr) updateProviders(shutdownCh chan struct{}) {
+	defer mgr.threads.Done()
+	var waiting []chan struct{}
 	for {
 		providers := mgr.pullProvidersFromRegisterSrv()
 		// Check for update
@@ -438,24 +479,19 @@ func (mgr *FCRRegisterMgr) updateProviders() {
 			}
 		}
 
-		if refreshForce {
-			mgr.providerRefreshCh <- true
-			refreshForce = false
+		for _, done := range waiting {
+			close(done)
 		}
-		afterChan := time.After(mgr.refreshDuration)
-		select {
-		case <-mgr.providerRefreshCh:
-			// Need to refresh
-			logging.Info("Register manager force update internal provider map.")
-			refreshForce = true
-		case <-afterChan:
-			// Need to refresh
-		case <-mgr.providerShutdownCh:
+		var running bool
+		if waiting, running = mgr.waitForRefresh(mgr.providerRefreshCh, shutdownCh); !running {
 			// Need to shutdown
 			logging.Info("Register manager shutdown provider routine.")
 			mgr.shutdownProviders()
 			return
 		}
+		if len(waiting) > 0 {
+			logging.Info("Register manager force update internal provider map.")
+		}
 	}
 }
 
@@ -464,6 +500,9 @@ func (mgr *FCRRegisterMgr) shutdownGateways() {
 		logging.Error("method removeAllGatewaysFromRegisterSrv called, gateway discovery is not enabled")
 		return
 	}
+	mgr.closestGatewaysIDsLock.Lock()
+	mgr.closestGatewaysIDs = dhtring.CreateRing()
+	mgr.closestGatewaysIDsLock.Unlock()
 	mgr.registeredGatewaysMapLock.Lock()
 	mgr.registeredGatewaysMap = make(map[string]register.GatewayRegistrar)
 	mgr.registeredGatewaysMapLock.Unlock()
-- 
2.43.0


From 0a9a9ac90d55c215f88adf2d9b1f0ed8b2fbaac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:08 +0000
Subject: [PATCH 08/34] fix: looking up an unknown provider blocked the
 register view for ever

GetProvider kept its read lock when it found nothing, so the next update waited
for ever, and with it every refresh, look-up and shut-down.
---
 common/pkg/fcrregistermgr/register_manager.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/common/pkg/fcrregistermgr/register_manager.go b/common/pkg/fcrregistermgr/register_manager.go
index aedfea4..98bc7b5 100644
--- a/common/pkg/fcrregistermgr/register_manager.go
+++ b/common/pkg/fcrregistermgr/register_manager.go
@@ -242,18 +242,13 @@ func (mgr *FCRRegisterMgr) GetProvider(id *nodeid.NodeID) register.ProviderRegis
 		return nil
 	}
 	mgr.registeredProvidersMapLock.RLock()
+	defer mgr.registeredProvidersMapLock.RUnlock()
 	provider, ok := mgr.registeredProvidersMap[id.ToString()]
 	if !ok {
-		mgr.registeredProvidersMapLock.RUnlock()
 		// TODO: Do we call refresh here, if can't find a provider?
 		// mgr.Refresh()
-		mgr.registeredProvidersMapLock.RLock()
-		provider, ok = mgr.registeredProvidersMap[id.ToString()]
-		if !ok {
-			return nil
-		}
+		return nil
 	}
-	defer mgr.registeredProvidersMapLock.RUnlock()
 	return provider
 }
 
-- 
2.43.0


From b2dab5c5c3a066a2bb44f23a120ae4ae6a35fc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:40 +0000
Subject: [PATCH 09/34] fix: peer-to-peer requests got answers of other
 requests, and connection errors stopped the node

A request waiting for a connection used it after another request on it had failed,
and read that one's late answer; a failure closed whichever connection was pooled by
then and blocked the requests to all peers meanwhile; a timeout inside a message was
taken for idleness and lost the framing; bytes of the next message were lost in a
buffer; memory was taken for any announced length; and errors of closed connections
and panics of handlers ended the process.
---
 common/pkg/fcrp2pserver/pool.go      |  34 +++-----
 common/pkg/fcrp2pserver/server.go    | 115 +++++++++++++--------------
 common/pkg/fcrp2pserver/tcp_comms.go |  31 +++++---
 3 files changed, 90 insertions(+), 90 deletions(-)

diff --git a/common/pkg/fcrp2pserver/pool.go b/common/pkg/fcrp2pserver/pool.go
index 937a64d..3b43fd5 100644
--- a/common/pkg/fcrp2pserver/pool.go
+++ b/common/pkg/fcrp2pserver/pool.go
@@ -40,9 +40,11 @@ const (
 // communicationChannel holds the connection for sending outgoing TCP requests.
 // lock is used to ensure only one thread can access the tcp connection at any time.
 // conn is the net connection for sending outgoing TCP requests.
+// failed is set (under lock) once a request on the connection failed, the connection is closed then.
 type communicationChannel struct {
-	lock sync.RWMutex
-	conn net.Conn
+	lock   sync.RWMutex
+	conn   net.Conn
+	failed bool
 }
 
 // communicationPool holds the node address map and active node connections.
@@ -95,7 +97,7 @@ func (c *communicationPool) getGatewayConn(id *nodeid.NodeID, accessFrom int) (*
 	} else {
 		comm = c.activeGateways[id.ToString()]
 		if err := conn.Close(); err != nil {
-			panic(err)
+			logging.Error("P2P server has error closing connection: %s", err.Error())
 		}
 	}
 	c.activeGatewaysLock.Unlock()
@@ -135,39 +137,27 @@ func (c *communicationPool) getProviderConn(id *nodeid.NodeID) (*communicationCh
 	} else {
 		comm = c.activeProviders[id.ToString()]
 		if err := conn.Close(); err != nil {
-			panic(err)
+			logging.Error("P2P server has error closing connection: %s", err.Error())
 		}
 	}
 	c.activeProvidersLock.Unlock()
 	return comm, nil
 }
 
-// removeActiveGateway remove a given gateway, and close the connection.
-func (c *communicationPool) removeActiveGateway(id *nodeid.NodeID) {
+// removeActiveGateway removes the given connection to a given gateway.
+func (c *communicationPool) removeActiveGateway(id *nodeid.NodeID, comm *communicationChannel) {
 	c.activeGatewaysLock.Lock()
 	defer c.activeGatewaysLock.Unlock()
-	comm := c.activeGateways[id.ToString()]
-	if comm != nil {
-		comm.lock.Lock()
-		defer comm.lock.Unlock()
-		if err := comm.conn.Close(); err != nil {
-			panic(err)
-		}
+	if c.activeGateways[id.ToString()] == comm {
 		delete(c.activeGateways, id.ToString())
 	}
 }
 
-// removeActiveProvider remove a given provider, and close the connection.
-func (c *communicationPool) removeActiveProvider(id *nodeid.NodeID) {
+// removeActiveProvider removes the given connection to a given provider.
+func (c *communicationPool) removeActiveProvider(id *nodeid.NodeID, comm *communicationChannel) {
 	c.activeProvidersLock.Lock()
 	defer c.activeProvidersLock.Unlock()
-	comm := c.activeProviders[id.ToString()]
-	if comm != nil {
-		comm.lock.Lock()
-		defer comm.lock.Unlock()
-		if err := comm.conn.Close(); err != nil {
-			panic(err)
-		}
+	if c.activeProviders[id.ToString()] == comm {
 		delete(c.activeProviders, id.ToString())
 	}
 }
diff --git a/common/pkg/fcrp2pserver/server.go b/common/pkg/fcrp2pserver/server.go
index a387795..950dbeb 100644
--- a/common/pkg/fcrp2pserver/server.go
+++ b/common/pkg/fcrp2pserver/server.go
@@ -120,8 +120,12 @@ func (s *FCRP2PServer) Start() error {
 func (s *FCRP2PServer) handleIncomingConnection(conn net.Conn, handlers map[int32]func(reader *FCRServerReader, writer *FCRServerWriter, request *fcrmessages.FCRMessage) error) {
 	// Close connection on exit.
 	defer func() {
+		// A message that a handler can not cope with must not stop the node.
+		if r := recover(); r != nil {
+			logging.Error("P2P Server has panic handling message from %s: %v", conn.RemoteAddr(), r)
+		}
 		if err := conn.Close(); err != nil {
-			panic(err)
+			logging.Error("P2P Server has error closing connection from %s: %s", conn.RemoteAddr(), err.Error())
 		}
 	}()
 
@@ -162,62 +166,32 @@ func (s *FCRP2PServer) handleIncomingConnection(conn net.Conn, handlers map[int3
 
 // RequestGatewayFromGateway uses a given requester to send a request to a given gateway from gateway.
 func (s *FCRP2PServer) RequestGatewayFromGateway(id *nodeid.NodeID, msgType int32, args ...interface{}) (*fcrmessages.FCRMessage, error) {
-	if !s.start {
-		return nil, errors.New("server not started")
-	}
-	requester := s.requesters[msgType]
-	if requester == nil {
-		return nil, errors.New("no available requester found for given type")
-	}
-	comm, err := s.pool.getGatewayConn(id, accessFromGateway)
-	if err != nil {
-		logging.Error("P2P Server has error get gateway connection to %s: %s", id.ToString(), err.Error())
-		return nil, err
-	}
-	comm.lock.Lock()
-	// Call requester to request
-	writer := &FCRServerWriter{conn: comm.conn}
-	reader := &FCRServerReader{conn: comm.conn}
-	response, err := requester(reader, writer, args...)
-	comm.lock.Unlock()
-	if err != nil {
-		// Error that couldn't ignore, remove the connection.
-		s.pool.removeActiveGateway(id)
-		return nil, err
-	}
-	return response, err
+	return s.request(id, msgType, func() (*communicationChannel, error) {
+		return s.pool.getGatewayConn(id, accessFromGateway)
+	}, s.pool.removeActiveGateway, args...)
 }
 
 // RequestGatewayFromProvider uses a given requester to send a request to a given gateway from provider.
 func (s *FCRP2PServer) RequestGatewayFromProvider(id *nodeid.NodeID, msgType int32, args ...interface{}) (*fcrmessages.FCRMessage, error) {
-	if !s.start {
-		return nil, errors.New("server not started")
-	}
-	requester := s.requesters[msgType]
-	if requester == nil {
-		return nil, errors.New("no available requester found for given type")
-	}
-	comm, err := s.pool.getGatewayConn(id, accessFromProvider)
-	if err != nil {
-		logging.Error("P2P Server has error get gateway connection to %s: %s", id.ToString(), err.Error())
-		return nil, err
-	}
-	comm.lock.Lock()
-	// Call requester to request
-	writer := &FCRServerWriter{conn: comm.conn}
-	reader := &FCRServerReader{conn: comm.conn}
-	response, err := requester(reader, writer, args...)
-	comm.lock.Unlock()
-	if err != nil {
-		// Error that couldn't ignore, remove the connection.
-		s.pool.removeActiveGateway(id)
-		return nil, err
-	}
-	return response, err
+	return s.request(id, msgType, func() (*communicationChannel, error) {
+		return s.pool.getGatewayConn(id, accessFromProvider)
+	}, s.pool.removeActiveGateway, args...)
 }
 
 // RequestProvider uses a given requester to send a request to a given provider. (Only possible from gateway)
 func (s *FCRP2PServer) RequestProvider(id *nodeid.NodeID, msgType int32, args ...interface{}) (*fcrmessages.FCRMessage, error) {
+	return s.request(id, msgType, func() (*communicationChannel, error) {
+		return s.pool.getProviderConn(id)
+	}, s.pool.removeActiveProvider, args...)
+}
+
+// request uses a given requester to send a request over a pooled connection.
+func (s *FCRP2PServer) request(
+	id *nodeid.NodeID,
+	msgType int32,
+	getConn func() (*communicationChannel, error),
+	removeConn func(id *nodeid.NodeID, comm *communicationChannel),
+	args ...interface{}) (*fcrmessages.FCRMessage, error) {
 	if !s.start {
 		return nil, errors.New("server not started")
 	}
@@ -225,21 +199,46 @@ func (s *FCRP2PServer) RequestProvider(id *nodeid.NodeID, msgType int32, args ..
 	if requester == nil {
 		return nil, errors.New("no available requester found for given type")
 	}
-	comm, err := s.pool.getProviderConn(id)
-	if err != nil {
-		logging.Error("P2P Server has error get provider connection to %s: %s", id.ToString(), err.Error())
-		return nil, err
+	for {
+		comm, err := getConn()
+		if err != nil {
+			logging.Error("P2P Server has error get connection to %s: %s", id.ToString(), err.Error())
+			return nil, err
+		}
+		response, used, err := comm.use(requester, args...)
+		if !used {
+			// The connection failed while this thread waited for it, get another one.
+			removeConn(id, comm)
+			continue
+		}
+		if err != nil {
+			// Error that couldn't ignore, remove the connection.
+			removeConn(id, comm)
+			return nil, err
+		}
+		return response, nil
 	}
+}
+
+// use calls a requester on the connection, it returns false if the connection has failed before.
+// After an error the answer may still be on its way, so nobody may use the connection any more.
+func (comm *communicationChannel) use(
+	requester func(reader *FCRServerReader, writer *FCRServerWriter, args ...interface{}) (*fcrmessages.FCRMessage, error),
+	args ...interface{}) (*fcrmessages.FCRMessage, bool, error) {
 	comm.lock.Lock()
+	defer comm.lock.Unlock()
+	if comm.failed {
+		return nil, false, nil
+	}
 	// Call requester to request
 	writer := &FCRServerWriter{conn: comm.conn}
 	reader := &FCRServerReader{conn: comm.conn}
 	response, err := requester(reader, writer, args...)
-	comm.lock.Unlock()
 	if err != nil {
-		// Error that couldn't ignore, remove the connection.
-		s.pool.removeActiveProvider(id)
-		return nil, err
+		comm.failed = true
+		if closeErr := comm.conn.Close(); closeErr != nil {
+			logging.Error("P2P Server has error closing connection: %s", closeErr.Error())
+		}
 	}
-	return response, err
+	return response, true, err
 }
diff --git a/common/pkg/fcrp2pserver/tcp_comms.go b/common/pkg/fcrp2pserver/tcp_comms.go
index 57a16a4..01081ea 100644
--- a/common/pkg/fcrp2pserver/tcp_comms.go
+++ b/common/pkg/fcrp2pserver/tcp_comms.go
@@ -18,7 +18,9 @@ package fcrp2pserver
 import (
 	"bufio"
 	"encoding/binary"
+	"errors"
 	"io"
+	"io/ioutil"
 	"net"
 	"time"
 
@@ -32,29 +34,38 @@ func isTimeoutError(err error) bool {
 }
 
 // readTCPMessage read the tcp message from a given connection.
+// A timeout error is only returned if nothing has been read from the connection.
 func readTCPMessage(conn net.Conn, timeout time.Duration) (*fcrmessages.FCRMessage, error) {
-	// Initialise a reader
-	reader := bufio.NewReader(conn)
 	// Read the length
 	length := make([]byte, 4)
 	// Set timeout
 	if err := conn.SetDeadline(time.Now().Add(timeout)); err != nil {
-		panic(err)
+		return nil, err
 	}
-	_, err := io.ReadFull(reader, length)
+	// The connection is read directly: a buffer would swallow the start of the next message
+	n, err := io.ReadFull(conn, length)
 	if err != nil {
+		if n > 0 && isTimeoutError(err) {
+			return nil, errors.New("timeout in the middle of a message")
+		}
 		return nil, err
 	}
-	// Read the data
-	data := make([]byte, int(binary.BigEndian.Uint32(length)))
 	// Set timeout
 	if err := conn.SetDeadline(time.Now().Add(timeout)); err != nil {
-		panic(err)
+		return nil, err
 	}
-	_, err = io.ReadFull(reader, data)
+	// Read the data, memory is taken as the data arrives
+	size := int64(binary.BigEndian.Uint32(length))
+	data, err := ioutil.ReadAll(io.LimitReader(conn, size))
 	if err != nil {
+		if isTimeoutError(err) {
+			return nil, errors.New("timeout in the middle of a message")
+		}
 		return nil, err
 	}
+	if int64(len(data)) != size {
+		return nil, io.ErrUnexpectedEOF
+	}
 	return fcrmessages.FCRMsgFromBytes(data)
 }
 
@@ -71,7 +82,7 @@ func sendTCPMessage(conn net.Conn, fcrMsg *fcrmessages.FCRMessage, timeout time.
 	binary.BigEndian.PutUint32(length, uint32(len(data)))
 	// Set timeout
 	if err := conn.SetDeadline(time.Now().Add(timeout)); err != nil {
-		panic(err)
+		return err
 	}
 	_, err = writer.Write(append(length, data...))
 	if err != nil {
@@ -79,7 +90,7 @@ func sendTCPMessage(conn net.Conn, fcrMsg *fcrmessages.FCRMessage, timeout time.
 	}
 	// Set timeout
 	if err := conn.SetDeadline(time.Now().Add(timeout)); err != nil {
-		panic(err)
+		return err
 	}
 	return writer.Flush()
 }
-- 
2.43.0


From 0fa009acd75775d30d353072df92ca540cb9dde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:07 +0000
Subject: [PATCH 10/34] fix: the offer store of a gateway kept parts of offers,
 and judged expiry by the local time zone

---
 common/pkg/offermgr/offer_manager.go | 139 +++++++++++++++++++--------
 1 file changed, 99 insertions(+), 40 deletions(-)

diff --git a/common/pkg/offermgr/offer_manager.go b/common/pkg/offermgr/offer_manager.go
index dbd8eca..7f582b4 100644
--- a/common/pkg/offermgr/offer_manager.go
+++ b/common/pkg/offermgr/offer_manager.go
@@ -2,11 +2,14 @@
 package offermgr
 
 import (
+	"database/sql"
 	"encoding/hex"
+	"time"
 
 	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
 	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
 	"github.com/ConsenSys/fc-retrieval/common/pkg/database"
+	"github.com/ConsenSys/fc-retrieval/common/pkg/logging"
 	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
 )
 
@@ -89,7 +92,13 @@ func (mgr *FCROfferMgr) insertOffer(offer *cidoffer.CIDOffer) (err error) {
 		where not exists (select 1 from content where content_no = ? and digest = ?)`
 	digestArr := offer.GetMessageDigest()
 	digestHex := hex.EncodeToString(digestArr[:])
-	_, err = mgr.db.Exec(sqlInsertOffer, digestHex,
+	// The offer and its contents are stored together or not at all
+	tx, err := mgr.db.Begin()
+	if err != nil {
+		return err
+	}
+	defer tx.Rollback()
+	_, err = tx.Exec(sqlInsertOffer, digestHex,
 		offer.GetProviderID().ToString(),
 		offer.GetExpiry(),
 		offer.GetPrice(),
@@ -98,23 +107,24 @@ func (mgr *FCROfferMgr) insertOffer(offer *cidoffer.CIDOffer) (err error) {
 	if err != nil {
 		return err
 	}
-	i := 0
-	for _, contentID := range offer.GetCIDs() {
-		_, err = mgr.db.Exec(sqlInsertContent, contentID.ToString(), i, digestHex, i, digestHex)
-		i++
+	for i, contentID := range offer.GetCIDs() {
+		_, err = tx.Exec(sqlInsertContent, contentID.ToString(), i, digestHex, i, digestHex)
+		if err != nil {
+			return err
+		}
 	}
-	return err
+	return tx.Commit()
 }
 
 // selectOffersSingle retrieves offers by a CID
 func (mgr *FCROfferMgr) selectOffersSingle(c *cid.ContentID) (res []cidoffer.CIDOffer, find bool) {
 	sqlSelectOffer :=
 		`select o.digest, o.provider_id, o.expiry, o.price, o.qos, o.signature
-		from offer o join content c on o.digest=c.digest 
-		where c.content_id=?
-		and datetime(o.expiry, 'unixepoch') > datetime('now', 'utc')`
+		from offer o
+		where o.digest in (select digest from content where content_id=?)
+		and o.expiry > ?`
 
-	return mgr.selectOffers(sqlSelectOffer, -1, c.ToString())
+	return mgr.selectOffers(sqlSelectOffer, -1, c.ToString(), time.Now().Unix())
 }
 
 // selectOffersRange retrieves offers by a range of CIDs
@@ -124,9 +134,9 @@ func (mgr *FCROfferMgr) selectOffersRange(maxOffers int, cidMin *cid.ContentID,
 		from offer o, (select distinct digest from content 
 				where content_id>=? and content_id<=?) c
 		where o.digest=c.digest
-		and datetime(o.expiry, 'unixepoch') > datetime('now', 'utc')`
+		and o.expiry > ?`
 
-	return mgr.selectOffers(sqlSelectOffer, maxOffers, cidMin.ToString(), cidMax.ToString())
+	return mgr.selectOffers(sqlSelectOffer, maxOffers, cidMin.ToString(), cidMax.ToString(), time.Now().Unix())
 }
 
 // selectOffersDigest retrieves a offer by a digest
@@ -135,9 +145,9 @@ func (mgr *FCROfferMgr) selectOffersDigest(digest []byte) (*cidoffer.CIDOffer, b
 		`select o.digest, o.provider_id, o.expiry, o.price, o.qos, o.signature
 		from offer o
 		where o.digest=?
-		and datetime(o.expiry, 'unixepoch') > datetime('now', 'utc')`
+		and o.expiry > ?`
 
-	offers, exist := mgr.selectOffers(sqlSelectOffer, 1, hex.EncodeToString(digest))
+	offers, exist := mgr.selectOffers(sqlSelectOffer, 1, hex.EncodeToString(digest), time.Now().Unix())
 	if !exist {
 		return nil, exist
 	}
@@ -146,37 +156,86 @@ func (mgr *FCROfferMgr) selectOffersDigest(digest []byte) (*cidoffer.CIDOffer, b
 
 // selectOffers retrieves offers by a select statement and its parameters
 func (mgr *FCROfferMgr) selectOffers(sqlSelectOffer string, maxOffers int, parameters ...interface{}) (res []cidoffer.CIDOffer, find bool) {
-	offerRows, err := mgr.db.Query(sqlSelectOffer, parameters...)
+	// Offers and their contents are read in one transaction
+	tx, err := mgr.db.Begin()
+	if err != nil {
+		logging.Error("Error in reading offers: %s", err.Error())
+		return nil, false
+	}
+	defer tx.Rollback()
+	res, err = selectOffersTx(tx, sqlSelectOffer, maxOffers, parameters...)
 	if err != nil {
-		return
+		logging.Error("Error in reading offers: %s", err.Error())
+		return nil, false
 	}
-	var cnt int
-	sqlSelectContent := `select content_id from content where digest=? order by content_no`
-	for offerRows.Next() {
-		var digestHex, providerHex string
-		var expiry int64
-		var price, qos uint64
-		var signature string
-		offerRows.Scan(&digestHex, &providerHex, &expiry, &price, &qos, &signature)
-		providerID, _ := nodeid.NewNodeIDFromHexString(providerHex)
-
-		cidRows, _ := mgr.db.Query(sqlSelectContent, digestHex)
-		cids := []cid.ContentID{}
-		for cidRows.Next() {
-			var aCidStr string
-			cidRows.Scan(&aCidStr)
-			aCid, _ := cid.NewContentIDFromHexString(aCidStr)
-			cids = append(cids, *aCid)
-			find = true
+	return res, len(res) > 0
+}
+
+func selectOffersTx(tx *sql.Tx, sqlSelectOffer string, maxOffers int, parameters ...interface{}) ([]cidoffer.CIDOffer, error) {
+	type offerRow struct {
+		digest, provider, signature string
+		expiry                      int64
+		price, qos                  uint64
+	}
+	rows, err := tx.Query(sqlSelectOffer, parameters...)
+	if err != nil {
+		return nil, err
+	}
+	defer rows.Close()
+	var found []offerRow
+	for rows.Next() {
+		var row offerRow
+		if err := rows.Scan(&row.digest, &row.provider, &row.expiry, &row.price, &row.qos, &row.signature); err != nil {
+			return nil, err
+		}
+		found = append(found, row)
+		if maxOffers > 0 && len(found) >= maxOffers {
+			break
 		}
+	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
+	rows.Close()
 
-		offer, _ := cidoffer.NewCIDOffer(providerID, cids, price, expiry, qos)
-		offer.SetSignature(signature)
+	var res []cidoffer.CIDOffer
+	for _, row := range found {
+		providerID, err := nodeid.NewNodeIDFromHexString(row.provider)
+		if err != nil {
+			return nil, err
+		}
+		cids, err := selectContentTx(tx, row.digest)
+		if err != nil {
+			return nil, err
+		}
+		offer, err := cidoffer.NewCIDOffer(providerID, cids, row.price, row.expiry, row.qos)
+		if err != nil {
+			return nil, err
+		}
+		offer.SetSignature(row.signature)
 		res = append(res, *offer)
-		cnt++
-		if cnt >= maxOffers && maxOffers > 0 {
-			break
+	}
+	return res, nil
+}
+
+// selectContentTx retrieves the contents of an offer
+func selectContentTx(tx *sql.Tx, digest string) ([]cid.ContentID, error) {
+	rows, err := tx.Query(`select content_id from content where digest=? order by content_no`, digest)
+	if err != nil {
+		return nil, err
+	}
+	defer rows.Close()
+	cids := []cid.ContentID{}
+	for rows.Next() {
+		var contentID string
+		if err := rows.Scan(&contentID); err != nil {
+			return nil, err
+		}
+		aCid, err := cid.NewContentIDFromHexString(contentID)
+		if err != nil {
+			return nil, err
 		}
+		cids = append(cids, *aCid)
 	}
-	return
+	return cids, rows.Err()
 }
-- 
2.43.0


From 032f68dd888d0ae52c6fde7bf4ba5eea02d85ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:02 +0000
Subject: [PATCH 11/34] fix: concurrent additions to a provider's offer store
 lost offers, stored offers changed with the caller's variable

---
 common/pkg/fcroffermgr/offer_manager.go | 38 +++++++++++++------------
 common/pkg/fcroffermgr/offer_storage.go | 22 ++++++++++++--
 2 files changed, 40 insertions(+), 20 deletions(-)

diff --git a/common/pkg/fcroffermgr/offer_manager.go b/common/pkg/fcroffermgr/offer_manager.go
index 9d89fdc..c17a7b3 100644
--- a/common/pkg/fcroffermgr/offer_manager.go
+++ b/common/pkg/fcroffermgr/offer_manager.go
@@ -23,6 +23,7 @@ package fcroffermgr
 
 import (
 	"errors"
+	"sync"
 
 	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
 	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
@@ -32,6 +33,8 @@ import (
 
 // FCROfferMgr manages offer storage
 type FCROfferMgr struct {
+	// lock makes every operation on the storages and the ring happen at once
+	lock         sync.Mutex
 	dhtOffers    *offerStorage
 	dhtOfferRing *dhtring.Ring
 	groupOffers  *offerStorage
@@ -51,6 +54,8 @@ func (mgr *FCROfferMgr) AddGroupOffer(offer *cidoffer.CIDOffer) error {
 	if len(offer.GetCIDs()) <= 1 {
 		return errors.New("not a group offer")
 	}
+	mgr.lock.Lock()
+	defer mgr.lock.Unlock()
 	return mgr.groupOffers.add(offer)
 }
 
@@ -59,24 +64,32 @@ func (mgr *FCROfferMgr) AddDHTOffer(offer *cidoffer.CIDOffer) error {
 	if len(offer.GetCIDs()) != 1 {
 		return errors.New("not a DHT offer")
 	}
+	mgr.lock.Lock()
+	defer mgr.lock.Unlock()
 	mgr.dhtOfferRing.Insert(offer.GetCIDs()[0].ToString())
 	return mgr.dhtOffers.add(offer)
 }
 
 // GetGroupOffers returns a list of group offers that contain the given cid
 func (mgr *FCROfferMgr) GetGroupOffers(cid *cid.ContentID) ([]cidoffer.CIDOffer, bool) {
+	mgr.lock.Lock()
+	defer mgr.lock.Unlock()
 	res := mgr.groupOffers.get(cid)
 	return res, len(res) > 0
 }
 
 // GetDHTOffers returns a list of dht offers that contain the given cid
 func (mgr *FCROfferMgr) GetDHTOffers(cid *cid.ContentID) ([]cidoffer.CIDOffer, bool) {
+	mgr.lock.Lock()
+	defer mgr.lock.Unlock()
 	res := mgr.dhtOffers.get(cid)
 	return res, len(res) > 0
 }
 
 // GetDHTOffersWithinRange returns a list of dht offers contains a cid within the given range
 func (mgr *FCROfferMgr) GetDHTOffersWithinRange(cidMin, cidMax *cid.ContentID, maxOffers int) ([]cidoffer.CIDOffer, bool) {
+	mgr.lock.Lock()
+	defer mgr.lock.Unlock()
 	offers := make([]cidoffer.CIDOffer, 0)
 
 	entries, err := mgr.dhtOfferRing.GetWithinRange(cidMin.ToString(), cidMax.ToString())
@@ -104,31 +117,20 @@ func (mgr *FCROfferMgr) GetDHTOffersWithinRange(cidMin, cidMax *cid.ContentID, m
 
 // GetOffers returns a list of all offers (group or dht) that contain the given cid
 func (mgr *FCROfferMgr) GetOffers(cid *cid.ContentID) ([]cidoffer.CIDOffer, bool) {
+	mgr.lock.Lock()
+	defer mgr.lock.Unlock()
 	res := append(mgr.groupOffers.get(cid), mgr.dhtOffers.get(cid)...)
 	return res, len(res) > 0
 }
 
 // GetOfferByDigest allows a gateway to be able to respond to a query to search for an offer by the offer digest
 func (mgr *FCROfferMgr) GetOfferByDigest(digest [cidoffer.CIDOfferDigestSize]byte) (result *cidoffer.CIDOffer, exist bool) {
+	mgr.lock.Lock()
+	defer mgr.lock.Unlock()
 	// first, look in DHT offers
-	mgr.dhtOffers.lock.RLock()
-	defer mgr.dhtOffers.lock.RUnlock()
-	for _, digestAndOffer := range mgr.dhtOffers.cidMap {
-		digestAndOffer.lock.RLock()
-		result, exist = digestAndOffer.dMap[digest]
-		digestAndOffer.lock.RUnlock()
-		if exist {
-			return result, true
-		}
+	if result, exist = mgr.dhtOffers.getByDigest(digest); exist {
+		return result, true
 	}
 	// look in Group offers
-	for _, digestAndOffer := range mgr.groupOffers.cidMap {
-		digestAndOffer.lock.RLock()
-		result, exist = digestAndOffer.dMap[digest]
-		digestAndOffer.lock.RUnlock()
-		if exist {
-			return result, true
-		}
-	}
-	return nil, false
+	return mgr.groupOffers.getByDigest(digest)
 }
diff --git a/common/pkg/fcroffermgr/offer_storage.go b/common/pkg/fcroffermgr/offer_storage.go
index f9010dd..719b345 100644
--- a/common/pkg/fcroffermgr/offer_storage.go
+++ b/common/pkg/fcroffermgr/offer_storage.go
@@ -70,7 +70,9 @@ func (o *offerStorage) add(newOffer *cidoffer.CIDOffer) error {
 		return errors.New("offers: Attempt to add an expired offer")
 	}
 
-	for _, contentID := range newOffer.GetCIDs() {
+	// Keep a copy, the caller may use the variable for something else
+	stored := *newOffer
+	for _, contentID := range stored.GetCIDs() {
 		cidStr := contentID.ToString()
 		o.lock.RLock()
 		digestMap, exists = o.cidMap[cidStr]
@@ -87,12 +89,28 @@ func (o *offerStorage) add(newOffer *cidoffer.CIDOffer) error {
 		}
 		// Add offer to digest map
 		digestMap.lock.Lock()
-		digestMap.dMap[digest] = newOffer
+		digestMap.dMap[digest] = &stored
 		digestMap.lock.Unlock()
 	}
 	return nil
 }
 
+// getByDigest returns a copy of the offer with the given digest.
+func (o *offerStorage) getByDigest(digest [cidoffer.CIDOfferDigestSize]byte) (*cidoffer.CIDOffer, bool) {
+	o.lock.RLock()
+	defer o.lock.RUnlock()
+	for _, digestMap := range o.cidMap {
+		digestMap.lock.RLock()
+		offer, exist := digestMap.dMap[digest]
+		digestMap.lock.RUnlock()
+		if exist {
+			res := *offer
+			return &res, true
+		}
+	}
+	return nil, false
+}
+
 // get returns a list of offers that contains piece cid. It only returns offers that are yet expired.
 func (o *offerStorage) get(cid *cid.ContentID) []cidoffer.CIDOffer {
 	res := make([]cidoffer.CIDOffer, 0)
-- 
2.43.0


From cc9f108b952906abff8040107e50f24048ee1cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:02 +0000
Subject: [PATCH 12/34] fix: a client established twice at once lost the
 reputation earned in between

---
 gateway/internal/reputation/reputation.go       |  9 +++------
 gateway/internal/reputation/reputation_store.go | 10 ++++++++++
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/gateway/internal/reputation/reputation.go b/gateway/internal/reputation/reputation.go
index 1239798..f792c2d 100644
--- a/gateway/internal/reputation/reputation.go
+++ b/gateway/internal/reputation/reputation.go
@@ -56,9 +56,9 @@ func GetSingleInstance() *Reputation {
 	return instance
 }
 
-// establishClientReputation initialises the reputation of a Retrieval Client
+// establishClientReputation initialises the reputation of a Retrieval Client, unless it has one already
 func (r *Reputation) establishClientReputation(clientNodeID *nodeid.NodeID) {
-	r.setClientReputation(clientNodeID, clientInitialReputation)
+	r.createClientReputation(clientNodeID, clientInitialReputation)
 }
 
 // SetClientReputation sets the reputation of a Retrieval Client
@@ -82,10 +82,7 @@ func (r *Reputation) GetClientReputation(clientNodeID *nodeid.NodeID) (val int64
 // Establishment Challenge being received. The reputation is created for the Retrival
 // Client if the client doesn't have a reputation yet
 func (r *Reputation) ClientEstablishmentChallenge(clientNodeID *nodeid.NodeID) int64 {
-	_, exists := r.getClientReputation(clientNodeID)
-	if !exists {
-		r.establishClientReputation(clientNodeID)
-	}
+	r.establishClientReputation(clientNodeID)
 	return r.changeClientReputation(clientNodeID, clientEstablishmentChallenge)
 }
 
diff --git a/gateway/internal/reputation/reputation_store.go b/gateway/internal/reputation/reputation_store.go
index 895a5d4..b767d12 100644
--- a/gateway/internal/reputation/reputation_store.go
+++ b/gateway/internal/reputation/reputation_store.go
@@ -24,6 +24,16 @@ func (r *Reputation) setClientReputation(clientNodeID *nodeid.NodeID, val int64)
 	r.clientsMapLock.Unlock()
 }
 
+// createClientReputation sets the reputation of a Retrieval Client that does not have one yet.
+func (r *Reputation) createClientReputation(clientNodeID *nodeid.NodeID, val int64) {
+	clientNodeIDStr := clientNodeID.ToString()
+	r.clientsMapLock.Lock()
+	if _, exists := r.clients[clientNodeIDStr]; !exists {
+		r.clients[clientNodeIDStr] = val
+	}
+	r.clientsMapLock.Unlock()
+}
+
 func (r *Reputation) changeClientReputation(clientNodeID *nodeid.NodeID, amount int64) int64 {
 	clientNodeIDStr := clientNodeID.ToString()
 	var val int64
-- 
2.43.0


From ddae1bf968f0915a417dcdb03ffe1d77af9e4f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:02 +0000
Subject: [PATCH 13/34] fix: concurrent draws from one random source returned
 the same values

---
 common/pkg/fcrcrypto/prng.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/common/pkg/fcrcrypto/prng.go b/common/pkg/fcrcrypto/prng.go
index 1f40490..fb665e6 100644
--- a/common/pkg/fcrcrypto/prng.go
+++ b/common/pkg/fcrcrypto/prng.go
@@ -22,6 +22,7 @@ import (
 	"io"
 	"math/big"
 	"net"
+	"sync"
 	"time"
 
 	"github.com/davidlazar/go-crypto/drbg"
@@ -44,8 +45,9 @@ type Random interface {
 	GetReader() io.Reader
 }
 
-// RandomImpl holds the underlying DRBG and the PRF state.
+// RandomImpl holds the underlying DRBG and the PRF state. It may be used by several threads.
 type randomImpl struct {
+	lock       sync.Mutex
 	drbg       *drbg.DRBG
 	prfHasher  hash.Hash
 	prfState   []byte
@@ -71,6 +73,9 @@ func NewPRNG(securityDomain []byte) Random {
 
 // ReadBytes reads random values into b
 func (r *randomImpl) ReadBytes(b []byte) {
+	r.lock.Lock()
+	defer r.lock.Unlock()
+
 	lengthPerIteration := len(r.prfState)
 	lenOutput := len(b)
 
@@ -115,6 +120,9 @@ func (r *randomImpl) Read(b []byte) (n int, err error) {
 
 // Reseed adds seed material to the PRNG.
 func (r *randomImpl) Reseed(seed []byte) {
+	r.lock.Lock()
+	defer r.lock.Unlock()
+
 	r.drbg.Reseed(seed)
 
 	// Combine the current state of the PRF and the seed.
-- 
2.43.0


From 0a532ac3ceb0b1cc2a431e8b2d270ad4cd8d2328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:02 +0000
Subject: [PATCH 14/34] fix: concurrent creation of random sources corrupted
 the pool of sources

---
 common/pkg/fcrcrypto/prng_pool.go    | 12 ++++++++++++
 common/pkg/fcrcrypto/prng_private.go |  4 ++--
 common/pkg/fcrcrypto/prng_public.go  |  2 +-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/common/pkg/fcrcrypto/prng_pool.go b/common/pkg/fcrcrypto/prng_pool.go
index 5ac9f24..9ce2904 100644
--- a/common/pkg/fcrcrypto/prng_pool.go
+++ b/common/pkg/fcrcrypto/prng_pool.go
@@ -15,8 +15,18 @@ package fcrcrypto
  * SPDX-License-Identifier: Apache-2.0
  */
 
+import "sync"
+
 // Array of PRNGs that will be reseeded by the global quick reseed.
 var prngPool []Random
+var prngPoolLock sync.RWMutex
+
+// addToPRNGPool makes the global quick reseed reach a PRNG.
+func addToPRNGPool(prng Random) {
+	prngPoolLock.Lock()
+	defer prngPoolLock.Unlock()
+	prngPool = append(prngPool, prng)
+}
 
 // PRNGEntropyKick is called when an application event occurs that an attacker
 // on a computer on the network can not observe. For example, when a message
@@ -24,6 +34,8 @@ var prngPool []Random
 // or even micro second when a message is serviced. However, they are unlikely
 // to know the timing down to the nearest nano second.
 func PRNGEntropyKick() {
+	prngPoolLock.RLock()
+	defer prngPoolLock.RUnlock()
 	for _, prng := range prngPool {
 		prng.QuickReseedKick()
 	}
diff --git a/common/pkg/fcrcrypto/prng_private.go b/common/pkg/fcrcrypto/prng_private.go
index 2e2cb42..83e14be 100644
--- a/common/pkg/fcrcrypto/prng_private.go
+++ b/common/pkg/fcrcrypto/prng_private.go
@@ -39,7 +39,7 @@ var doOnce1 sync.Once
 func GetPrivatePRNG() Random {
 	doOnce1.Do(func() {
 		privatePRNG = NewPRNG([]byte("private"))
-		prngPool = append(prngPool, privatePRNG)
+		addToPRNGPool(privatePRNG)
 	})
 	return privatePRNG
 }
@@ -49,6 +49,6 @@ func GetPrivatePRNG() Random {
 // guarentee security domain separation.
 func NewPrivatePRNG(securityDomain []byte) Random {
 	aPRNG := NewPRNG(securityDomain)
-	prngPool = append(prngPool, aPRNG)
+	addToPRNGPool(aPRNG)
 	return aPRNG
 }
diff --git a/common/pkg/fcrcrypto/prng_public.go b/common/pkg/fcrcrypto/prng_public.go
index d1d265c..1b28871 100644
--- a/common/pkg/fcrcrypto/prng_public.go
+++ b/common/pkg/fcrcrypto/prng_public.go
@@ -36,7 +36,7 @@ var doOnce sync.Once
 func GetPublicPRNG() Random {
 	doOnce.Do(func() {
 		publicPRNG = NewPRNG([]byte("public"))
-		prngPool = append(prngPool, publicPRNG)
+		addToPRNGPool(publicPRNG)
 	})
 	return publicPRNG
 }
-- 
2.43.0


From bfd81ea3466439bad0e75f76e4b71522fde0e82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:02 +0000
Subject: [PATCH 15/34] fix: every request to the register leaked a connection
 to its store

---
 register/internal/handlers/gateways_handler.go  | 4 ++++
 register/internal/handlers/providers_handler.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/register/internal/handlers/gateways_handler.go b/register/internal/handlers/gateways_handler.go
index 924ab8e..7b03973 100644
--- a/register/internal/handlers/gateways_handler.go
+++ b/register/internal/handlers/gateways_handler.go
@@ -25,6 +25,7 @@ func AddGatewayRegister(params op.AddGatewayRegisterParams) middleware.Responder
 		Password: apiconfig.GetString("REDIS_PASSWORD"),
 		DB:       0, // use default DB
 	})
+	defer rdb.Close()
 
 	err := rdb.HSet(ctx, "gateway", register.NodeID, register).Err()
 	if err != nil {
@@ -46,6 +47,7 @@ func GetGatewayRegisters(_ op.GetGatewayRegistersParams) middleware.Responder {
 		Password: apiconfig.GetString("REDIS_PASSWORD"),
 		DB:       0, // use default DB
 	})
+	defer rdb.Close()
 
 	gatewayRegisters, err := rdb.HGetAll(ctx, "gateway").Result()
 	if err != nil {
@@ -80,6 +82,7 @@ func GetGatewayRegisterByID(params op.GetGatewayRegistersByIDParams) middleware.
 		Password: apiconfig.GetString("REDIS_PASSWORD"),
 		DB:       0, // use default DB
 	})
+	defer rdb.Close()
 
 	gatewayRegister, err := rdb.HGet(ctx, "gateway", registerID).Result()
 	if err != nil {
@@ -106,6 +109,7 @@ func DeleteGatewayRegisters(_ op.DeleteGatewayRegisterParams) middleware.Respond
 		Password: apiconfig.GetString("REDIS_PASSWORD"),
 		DB:       0, // use default DB
 	})
+	defer rdb.Close()
 
 	ctx := context.Background()
 
diff --git a/register/internal/handlers/providers_handler.go b/register/internal/handlers/providers_handler.go
index 62b7c0e..51878d8 100644
--- a/register/internal/handlers/providers_handler.go
+++ b/register/internal/handlers/providers_handler.go
@@ -25,6 +25,7 @@ func AddProviderRegister(params op.AddProviderRegisterParams) middleware.Respond
 		Password: apiconfig.GetString("REDIS_PASSWORD"),
 		DB:       0, // use default DB
 	})
+	defer rdb.Close()
 
 	err := rdb.HSet(ctx, "provider", register.NodeID, register).Err()
 	if err != nil {
@@ -48,6 +49,7 @@ func GetProviderRegisters(_ op.GetProviderRegistersParams) middleware.Responder
 		Password: apiconfig.GetString("REDIS_PASSWORD"),
 		DB:       0, // use default DB
 	})
+	defer rdb.Close()
 
 	providerRegisters, err := rdb.HGetAll(ctx, "provider").Result()
 	if err != nil {
@@ -80,6 +82,7 @@ func GetProviderRegisterByID(params op.GetProviderRegistersByIDParams) middlewar
 		Password: apiconfig.GetString("REDIS_PASSWORD"),
 		DB:       0, // use default DB
 	})
+	defer rdb.Close()
 
 	register, err := rdb.HGet(ctx, "provider", registerID).Result()
 	if err != nil {
@@ -108,6 +111,7 @@ func DeleteProviderRegisters(_ op.DeleteProviderRegisterParams) middleware.Respo
 		Password: apiconfig.GetString("REDIS_PASSWORD"),
 		DB:       0, // use default DB
 	})
+	defer rdb.Close()
 
 	ctx := context.Background()
 
-- 
2.43.0


From 0f6bbde08982a05d29e6c2ae9bed2a657486c827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:36 +0000
Subject: [PATCH 16/34] fix: the client returned offers that are forged or for
 other content

Standard discovery verified each offer and then returned all of them, DHT discovery v2 verified none, and no kind of
discovery checked that an offer is for the content that was asked for.
---
 .../fcrclient/filecoin_retrieval_client.go    | 98 ++++---------------
 1 file changed, 20 insertions(+), 78 deletions(-)

diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index 3002ad8..d7f0363 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -305,8 +305,18 @@ func (c *FilecoinRetrievalClient) FindOffersStandardDiscovery(contentID *cid.Con
 		logging.Warn("GatewayStdDiscovery error. Gateway: %s, Error: %s", gw.GetNodeID(), err)
 		return make([]cidoffer.SubCIDOffer, 0), errors.New("error in requesting standard discovery")
 	}
+	return c.verifyOffers(contentID, offers), nil
+}
+
+// verifyOffers returns the offers that are for the given content, are signed by their provider and carry a valid merkle proof.
+func (c *FilecoinRetrievalClient) verifyOffers(contentID *cid.ContentID, offers []cidoffer.SubCIDOffer) []cidoffer.SubCIDOffer {
+	res := make([]cidoffer.SubCIDOffer, 0)
 	// Verify the offer one by one
 	for _, offer := range offers {
+		if offer.GetSubCID().ToString() != contentID.ToString() {
+			logging.Error("Offer is not for the requested content.")
+			continue
+		}
 		// Get provider's pubkey
 		provider := c.registerMgr.GetProvider(offer.GetProviderID())
 		if provider == nil {
@@ -323,9 +333,8 @@ func (c *FilecoinRetrievalClient) FindOffersStandardDiscovery(contentID *cid.Con
 			continue
 		}
 		// Verify the offer sig
-		err = offer.Verify(pubKey)
-		if err != nil {
-			logging.Error("Offer signature fail to verify 4, with error: " + fmt.Sprintf("%v", err))
+		if err := offer.Verify(pubKey); err != nil {
+			logging.Error("Offer signature fail to verify, with error: %v", err)
 			continue
 		}
 		// Now Verify the merkle proof
@@ -334,9 +343,10 @@ func (c *FilecoinRetrievalClient) FindOffersStandardDiscovery(contentID *cid.Con
 			continue
 		}
 		// Offer pass verification
+		res = append(res, offer)
 		logging.Info("Offer pass every verification, added to result")
 	}
-	return offers, nil
+	return res
 }
 
 // FindOffersDHTDiscovery finds offer using dht discovery from given gateways
@@ -388,38 +398,7 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscovery(contentID *cid.ContentI
 			logging.Error("Fail to decode response")
 			continue
 		}
-		entry := make([]cidoffer.SubCIDOffer, 0)
-		for _, offer := range offers {
-			// Get provider's pubkey
-			provider := c.registerMgr.GetProvider(offer.GetProviderID())
-			if provider == nil {
-				logging.Error("Error getting provider info.")
-				continue
-			}
-			if !validateProviderInfo(provider) {
-				logging.Error("Provider register info not valid.")
-				continue
-			}
-			pubKey, err := provider.GetSigningKey()
-			if err != nil {
-				logging.Error("Fail to obtain public key.")
-				continue
-			}
-			// Verify the offer sig
-			err = offer.Verify(pubKey)
-			if err != nil {
-				logging.Error("Offer signature fail to verify 5, with error: " + fmt.Sprintf("%v", err))
-				continue
-			}
-			// Now Verify the merkle proof
-			if offer.VerifyMerkleProof() != nil {
-				logging.Error("Merkle proof verification failed.")
-				continue
-			}
-			// Offer pass verification
-			entry = append(entry, offer)
-			logging.Info("Offer pass every verification, added to result")
-		}
+		entry := c.verifyOffers(contentID, offers)
 		offersMap[id.ToString()] = &entry
 	}
 
@@ -556,7 +535,8 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscoveryV2(contentID *cid.Conten
 		return nil, fmt.Errorf("error getting sub-offers from their digests: %s", discoverError)
 	}
 	for _, entry := range allGatewaysOffers {
-		offersMap[entry.GatewayID.ToString()] = &entry.SubOffers
+		subOffers := c.verifyOffers(contentID, entry.SubOffers)
+		offersMap[entry.GatewayID.ToString()] = &subOffers
 	}
 
 	return offersMap, nil
@@ -720,48 +700,10 @@ func (c *FilecoinRetrievalClient) FindOffersStandardDiscoveryV2(contentID *cid.C
 
 	offers, err := c.clientApi.RequestStandardDiscoverOffer(gw, contentID, rand.Int63(), time.Now().Unix()+c.Settings.EstablishmentTTL(), offerDigests, paychAddr, voucher)
 
-	var validOffers []cidoffer.SubCIDOffer
-	// Verify the offer one by one
-	for _, offer := range offers {
-		// Get provider's pubkey
-		provider := c.registerMgr.GetProvider(offer.GetProviderID())
-		if provider == nil {
-			logging.Error("Error getting provider info.")
-			continue
-		}
-		if !validateProviderInfo(provider) {
-			logging.Error("Provider register info not valid.")
-			continue
-		}
-		if err != nil {
-			logging.Error("Offer signature fail to verify 1, with error: " + fmt.Sprintf("%v", err))
-			continue
-		}
-		pubKey, err := provider.GetSigningKey()
-		if err != nil {
-			logging.Error("Fail to obtain public key.")
-			continue
-		}
-		// Verify the offer sig
-		err = offer.Verify(pubKey)
-		if err != nil {
-			logging.Error("Offer signature fail to verify 2, with error: " + fmt.Sprintf("%v", err))
-			continue
-		}
-		// Now Verify the merkle proof
-		if offer.VerifyMerkleProof() != nil {
-			logging.Error("Merkle proof verification failed.")
-			continue
-		}
-		// Offer pass verification
-		logging.Info("Offer pass every verification, added to result")
-
-		validOffers = append(validOffers, offer)
-		if len(validOffers) == maxOffers {
-			break
-		}
+	validOffers := c.verifyOffers(contentID, offers)
+	if len(validOffers) > maxOffers {
+		validOffers = validOffers[:maxOffers]
 	}
-
 	return validOffers, nil
 }
 
-- 
2.43.0


From 7ab4d1860056d29b3bfb07c641cff52a3cc86240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:07 +0000
Subject: [PATCH 17/34] fix: one gateway's answer made the client lose the
 offers of all others in DHT discovery

An answer of one contacted gateway that found nothing, asked for payment or could not be decoded ended the whole call, and
digests were requested from the wrong gateways as soon as one gateway had been skipped.
---
 .../pkg/api/clientapi/dht_discover_offer_requester.go |  4 +++-
 client/pkg/fcrclient/filecoin_retrieval_client.go     | 11 +++++++----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/client/pkg/api/clientapi/dht_discover_offer_requester.go b/client/pkg/api/clientapi/dht_discover_offer_requester.go
index 2046265..2036ffc 100644
--- a/client/pkg/api/clientapi/dht_discover_offer_requester.go
+++ b/client/pkg/api/clientapi/dht_discover_offer_requester.go
@@ -85,9 +85,11 @@ func (c *Client) RequestDHTOfferDiscover(
 		_, _, found, subCIDOffers, _, paymentRequired, paymentChannelAddrToTopup, decodeErr := fcrmessages.DecodeGatewayDHTDiscoverOfferResponse(&fcrMessage)
 		if decodeErr != nil {
 			logging.Error("error decoding gateway DHT discover offer response %s", decodeErr.Error())
+			continue
 		}
 		if paymentRequired {
-			return nil, fmt.Errorf("payment required, in order to proceed topup your balance for payment channel address: %s", paymentChannelAddrToTopup)
+			logging.Error("gateway %s requires payment, payment channel address: %s", gatewayIDs[idx].ToString(), paymentChannelAddrToTopup)
+			continue
 		}
 		// return first good one
 		if found && len(subCIDOffers) > 0 {
diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index d7f0363..4c908d2 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -460,6 +460,7 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscoveryV2(contentID *cid.Conten
 	}
 
 	var addedSubOffersCount int
+	var offersGateways []nodeid.NodeID
 	var offersDigestsFromAllGateways [][]string
 	for i := 0; i < len(contactedGateways); i++ {
 		contactedGatewayID := contactedGateways[i]
@@ -490,16 +491,18 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscoveryV2(contentID *cid.Conten
 			continue
 		}
 		if decodedPaymentRequired {
-			return nil, fmt.Errorf("payment required, in order to proceed topup your balance for payment channel address: %s", paymentChannelAddrToTopup)
+			logging.Error("gateway %s requires payment, payment channel address: %s", contactedGatewayID.ToString(), paymentChannelAddrToTopup)
+			continue
 		}
-		if !found {
-			return offersMap, nil
+		if !found || len(offerDigests) == 0 {
+			continue
 		}
 		// comply with given offers number limit
 		if addedSubOffersCount+len(offerDigests) > offersNumberLimit {
 			offerDigests = offerDigests[:(offersNumberLimit - addedSubOffersCount)]
 		}
 
+		offersGateways = append(offersGateways, contactedGatewayID)
 		offersDigestsFromAllGateways = append(offersDigestsFromAllGateways, offerDigests)
 		addedSubOffersCount += len(offerDigests)
 
@@ -530,7 +533,7 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscoveryV2(contentID *cid.Conten
 	}
 	logging.Info("Successful initial payment for DHT offers discovery, payment channel: %s, voucher: %s", paymentChannel, voucher)
 
-	allGatewaysOffers, discoverError := c.clientApi.RequestDHTOfferDiscover(entryGateway, contactedGateways, contentID, nonce, offersDigestsFromAllGateways, paymentChannel, voucher)
+	allGatewaysOffers, discoverError := c.clientApi.RequestDHTOfferDiscover(entryGateway, offersGateways, contentID, nonce, offersDigestsFromAllGateways, paymentChannel, voucher)
 	if discoverError != nil {
 		return nil, fmt.Errorf("error getting sub-offers from their digests: %s", discoverError)
 	}
-- 
2.43.0


From 25ee23e2a610e7fcd98b51aac55e21b0566f7ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:22 +0000
Subject: [PATCH 18/34] fix: paid standard discovery crashed unless a payment
 manager existed already

It used the payment manager field, which is created on first use, instead of asking for it.
---
 client/pkg/fcrclient/filecoin_retrieval_client.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index 4c908d2..6fb2916 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -639,7 +639,7 @@ func (c *FilecoinRetrievalClient) FindOffersStandardDiscoveryV2(contentID *cid.C
 	cidOffers := make([]cidoffer.SubCIDOffer, 0)
 
 	// It will call the payment manager to pay for the initial request
-	paychAddr, voucher, topup, err := c.paymentMgr.Pay(gw.GetAddress(), 0, c.Settings.searchPrice)
+	paychAddr, voucher, topup, err := c.PaymentMgr().Pay(gw.GetAddress(), 0, c.Settings.searchPrice)
 	logging.Debug("1 gw.GetAddress()=%+v paychAddr=%+v, voucher=%+v, topup=%+v", gw.GetAddress(), paychAddr, voucher, topup)
 	if err != nil {
 		return cidOffers, fmt.Errorf("error paying gateway ID: %s; error:%s", gw.GetNodeID(), err.Error())
@@ -688,7 +688,7 @@ func (c *FilecoinRetrievalClient) FindOffersStandardDiscoveryV2(contentID *cid.C
 	lenOffers := new(big.Int).SetInt64(int64(len(offerDigests)))
 	expectedAmount := lenOffers.Mul(lenOffers, c.Settings.offerPrice)
 
-	paychAddr, voucher, topup, err = c.paymentMgr.Pay(gw.GetAddress(), 0, expectedAmount)
+	paychAddr, voucher, topup, err = c.PaymentMgr().Pay(gw.GetAddress(), 0, expectedAmount)
 	if err != nil {
 		return cidOffers, fmt.Errorf("error paying expected amount to gateway ID: %s; error:%s", gw.GetNodeID(), err.Error())
 	}
-- 
2.43.0


From 483c1de2fc35cca1b1e4ff006ed662b68a6b7291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:16 +0000
Subject: [PATCH 19/34] fix: a malformed offer from a gateway crashed the
 client

An offer with an undecodable provider or content id, or a merkle proof whose index is shorter than its path, was decoded
without error and dereferenced later.
---
 common/pkg/cidoffer/subcidoffer.go | 10 ++++++++--
 common/pkg/fcrmerkletree/proof.go  |  3 +++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/common/pkg/cidoffer/subcidoffer.go b/common/pkg/cidoffer/subcidoffer.go
index 478e057..60735fb 100644
--- a/common/pkg/cidoffer/subcidoffer.go
+++ b/common/pkg/cidoffer/subcidoffer.go
@@ -167,9 +167,15 @@ func (c *SubCIDOffer) UnmarshalJSON(p []byte) error {
 	if err != nil {
 		return err
 	}
-	providerID, _ := nodeid.NewNodeIDFromHexString(cJson.ProviderID)
+	providerID, err := nodeid.NewNodeIDFromHexString(cJson.ProviderID)
+	if err != nil {
+		return err
+	}
+	subCID, err := cid.NewContentIDFromHexString(cJson.SubCID)
+	if err != nil {
+		return err
+	}
 	c.providerID = providerID
-	subCID, _ := cid.NewContentIDFromHexString(cJson.SubCID)
 	c.subCID = subCID
 	c.merkleRoot = cJson.MerkleRoot
 	c.merkleProof = &cJson.MerkleProof
diff --git a/common/pkg/fcrmerkletree/proof.go b/common/pkg/fcrmerkletree/proof.go
index 7224178..d4fdf51 100644
--- a/common/pkg/fcrmerkletree/proof.go
+++ b/common/pkg/fcrmerkletree/proof.go
@@ -114,6 +114,9 @@ func (mp *FCRMerkleProof) UnmarshalJSON(p []byte) error {
 	if err != nil {
 		return err
 	}
+	if len(path) != len(index) {
+		return fmt.Errorf("FCRMerkleProof: Path and index do not match")
+	}
 	mp.path = path
 	mp.index = index
 	return nil
-- 
2.43.0


From dae773e58a8ff7ee6ebbf7abd8819f119a630455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:16 +0000
Subject: [PATCH 20/34] fix: messages and offers with undecodable ids crashed
 whoever received them

Decoders ignored the error of decoding an id and returned a nil id, or dereferenced it right away.
---
 common/pkg/cid/cid.go                             |  9 ++++++---
 common/pkg/cidoffer/cidoffer.go                   | 11 +++++++++--
 .../client_dht_discover_offer_request.go          | 11 +++++++++--
 .../client_dht_discover_offer_response.go         | 11 +++++++++--
 .../fcrmessages/client_dht_discover_request.go    |  5 ++++-
 .../fcrmessages/client_dht_discover_request_v2.go |  5 ++++-
 .../fcrmessages/client_dht_discover_response.go   | 10 +++++++++-
 .../client_dht_discover_response_v2.go            | 10 +++++++++-
 .../fcrmessages/client_dht_offer_ack_request.go   | 10 ++++++++--
 .../fcrmessages/client_dht_offer_ack_response.go  | 10 ++++++++--
 .../fcrmessages/client_establishment_request.go   |  5 ++++-
 .../fcrmessages/client_establishment_response.go  |  5 ++++-
 .../client_standard_discover_offer_request.go     |  5 ++++-
 .../client_standard_discover_offer_response.go    |  5 ++++-
 .../client_standard_discover_request.go           |  5 ++++-
 .../client_standard_discover_request_v2.go        |  5 ++++-
 .../client_standard_discover_response.go          |  5 ++++-
 .../client_standard_discover_response_v2.go       |  5 ++++-
 .../gateway_dht_discover_offer_request.go         |  5 ++++-
 .../gateway_dht_discover_offer_response.go        |  5 ++++-
 .../fcrmessages/gateway_dht_discover_request.go   | 10 ++++++++--
 .../gateway_dht_discover_request_v2.go            | 10 ++++++++--
 .../fcrmessages/gateway_dht_discover_response.go  |  5 ++++-
 .../gateway_dht_discover_response_v2.go           |  5 ++++-
 .../fcrmessages/gateway_list_dht_offer_request.go | 15 ++++++++++++---
 ..._provider_group_cid_offer_supported_request.go |  5 ++++-
 common/pkg/fcrmessages/gateway_ping_request.go    |  5 ++++-
 .../gatewayadmin_get_reputation_request.go        |  5 ++++-
 .../gatewayadmin_get_reputation_response.go       |  5 ++++-
 .../gatewayadmin_initialise_key_request.go        |  5 ++++-
 .../gatewayadmin_initialise_key_request_v2.go     |  5 ++++-
 .../gatewayadmin_set_reputation_request.go        |  5 ++++-
 .../gatewayadmin_set_reputation_response.go       |  5 ++++-
 ...dmin_update_group_cid_offer_support_request.go | 11 +++++++++--
 .../provider_publish_dht_offer_request.go         |  5 ++++-
 .../provider_publish_group_offer_request.go       |  5 ++++-
 .../provider_publish_group_offer_response.go      |  5 ++++-
 .../provideradmin_get_published_offer_request.go  |  6 +++++-
 .../provideradmin_initialise_key_request.go       |  5 ++++-
 .../provideradmin_initialise_key_request_v2.go    |  5 ++++-
 .../provideradmin_publish_dht_offer_request.go    |  6 +++++-
 .../provideradmin_publish_group_offer_request.go  |  6 +++++-
 common/pkg/nodeid/nodeid.go                       |  9 ++++++---
 43 files changed, 233 insertions(+), 57 deletions(-)

diff --git a/common/pkg/cid/cid.go b/common/pkg/cid/cid.go
index 0c3d086..5b93453 100644
--- a/common/pkg/cid/cid.go
+++ b/common/pkg/cid/cid.go
@@ -135,11 +135,14 @@ func MapCIDToString(cids []ContentID) []string {
 }
 
 // Map - used to returns a new slice containing CIDs as string values
-func MapStringToCID(cids []string) []ContentID {
+func MapStringToCID(cids []string) ([]ContentID, error) {
 	results := make([]ContentID, len(cids))
 	for i, v := range cids {
-		contentID, _ := NewContentIDFromHexString(v)
+		contentID, err := NewContentIDFromHexString(v)
+		if err != nil {
+			return nil, err
+		}
 		results[i] = *contentID
 	}
-	return results
+	return results, nil
 }
diff --git a/common/pkg/cidoffer/cidoffer.go b/common/pkg/cidoffer/cidoffer.go
index ddb0a83..75c744f 100644
--- a/common/pkg/cidoffer/cidoffer.go
+++ b/common/pkg/cidoffer/cidoffer.go
@@ -231,9 +231,16 @@ func (c *CIDOffer) UnmarshalJSON(p []byte) error {
 	if err != nil {
 		return err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(cJson.ProviderID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(cJson.ProviderID)
+	if err != nil {
+		return err
+	}
+	cids, err := cid.MapStringToCID(cJson.CIDs)
+	if err != nil {
+		return err
+	}
 	c.providerID = nodeID
-	c.cids = cid.MapStringToCID(cJson.CIDs)
+	c.cids = cids
 	c.price = cJson.Price
 	c.expiry = cJson.Expiry
 	c.qos = cJson.QoS
diff --git a/common/pkg/fcrmessages/client_dht_discover_offer_request.go b/common/pkg/fcrmessages/client_dht_discover_offer_request.go
index ed7bd33..7c9699a 100644
--- a/common/pkg/fcrmessages/client_dht_discover_offer_request.go
+++ b/common/pkg/fcrmessages/client_dht_discover_offer_request.go
@@ -74,6 +74,13 @@ func DecodeClientDHTDiscoverOfferRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, nil, nil, "", "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
-	return contentID, msg.Nonce, msg.GatewaysDigests, nodeid.MapStringToNodeID(msg.GatewayIDs), msg.PaychAddr, msg.Voucher, nil
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, nil, nil, "", "", err
+	}
+	gatewayIDs, err := nodeid.MapStringToNodeID(msg.GatewayIDs)
+	if err != nil {
+		return nil, 0, nil, nil, "", "", err
+	}
+	return contentID, msg.Nonce, msg.GatewaysDigests, gatewayIDs, msg.PaychAddr, msg.Voucher, nil
 }
diff --git a/common/pkg/fcrmessages/client_dht_discover_offer_response.go b/common/pkg/fcrmessages/client_dht_discover_offer_response.go
index d1f12b9..2ab080e 100644
--- a/common/pkg/fcrmessages/client_dht_discover_offer_response.go
+++ b/common/pkg/fcrmessages/client_dht_discover_offer_response.go
@@ -74,6 +74,13 @@ func DecodeClientDHTDiscoverOfferResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, nil, nil, false, "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
-	return contentID, msg.Nonce, nodeid.MapStringToNodeID(msg.GatewayIDs), msg.Response, msg.PaymentRequired, msg.PaymentChannel, nil
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, nil, nil, false, "", err
+	}
+	gatewayIDs, err := nodeid.MapStringToNodeID(msg.GatewayIDs)
+	if err != nil {
+		return nil, 0, nil, nil, false, "", err
+	}
+	return contentID, msg.Nonce, gatewayIDs, msg.Response, msg.PaymentRequired, msg.PaymentChannel, nil
 }
diff --git a/common/pkg/fcrmessages/client_dht_discover_request.go b/common/pkg/fcrmessages/client_dht_discover_request.go
index 21e2a47..8ca0ac7 100644
--- a/common/pkg/fcrmessages/client_dht_discover_request.go
+++ b/common/pkg/fcrmessages/client_dht_discover_request.go
@@ -77,6 +77,9 @@ func DecodeClientDHTDiscoverRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, 0, 0, false, "", "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, 0, 0, false, "", "", err
+	}
 	return contentID, msg.Nonce, msg.TTL, msg.NumDHT, msg.IncrementalResults, msg.PaychAddr, msg.Voucher, nil
 }
diff --git a/common/pkg/fcrmessages/client_dht_discover_request_v2.go b/common/pkg/fcrmessages/client_dht_discover_request_v2.go
index 589c47f..85b2df5 100644
--- a/common/pkg/fcrmessages/client_dht_discover_request_v2.go
+++ b/common/pkg/fcrmessages/client_dht_discover_request_v2.go
@@ -77,6 +77,9 @@ func DecodeClientDHTDiscoverRequestV2(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, 0, 0, false, "", "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, 0, 0, false, "", "", err
+	}
 	return contentID, msg.Nonce, msg.TTL, msg.NumDHT, msg.IncrementalResults, msg.PaychAddr, msg.Voucher, nil
 }
diff --git a/common/pkg/fcrmessages/client_dht_discover_response.go b/common/pkg/fcrmessages/client_dht_discover_response.go
index f0086b8..e373c5f 100644
--- a/common/pkg/fcrmessages/client_dht_discover_response.go
+++ b/common/pkg/fcrmessages/client_dht_discover_response.go
@@ -73,5 +73,13 @@ func DecodeClientDHTDiscoverResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, nil, 0, false, "", err
 	}
-	return nodeid.MapStringToNodeID(msg.Contacted), msg.Response, nodeid.MapStringToNodeID(msg.UnContactable), msg.Nonce, msg.PaymentRequired, msg.PaymentChannel, nil
+	contacted, err := nodeid.MapStringToNodeID(msg.Contacted)
+	if err != nil {
+		return nil, nil, nil, 0, false, "", err
+	}
+	unContactable, err := nodeid.MapStringToNodeID(msg.UnContactable)
+	if err != nil {
+		return nil, nil, nil, 0, false, "", err
+	}
+	return contacted, msg.Response, unContactable, msg.Nonce, msg.PaymentRequired, msg.PaymentChannel, nil
 }
diff --git a/common/pkg/fcrmessages/client_dht_discover_response_v2.go b/common/pkg/fcrmessages/client_dht_discover_response_v2.go
index a1ecace..acec4cb 100644
--- a/common/pkg/fcrmessages/client_dht_discover_response_v2.go
+++ b/common/pkg/fcrmessages/client_dht_discover_response_v2.go
@@ -73,5 +73,13 @@ func DecodeClientDHTDiscoverResponseV2(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, nil, 0, false, "", err
 	}
-	return nodeid.MapStringToNodeID(msg.Contacted), msg.Response, nodeid.MapStringToNodeID(msg.UnContactable), msg.Nonce, msg.PaymentRequired, msg.PaymentChannel, nil
+	contacted, err := nodeid.MapStringToNodeID(msg.Contacted)
+	if err != nil {
+		return nil, nil, nil, 0, false, "", err
+	}
+	unContactable, err := nodeid.MapStringToNodeID(msg.UnContactable)
+	if err != nil {
+		return nil, nil, nil, 0, false, "", err
+	}
+	return contacted, msg.Response, unContactable, msg.Nonce, msg.PaymentRequired, msg.PaymentChannel, nil
 }
diff --git a/common/pkg/fcrmessages/client_dht_offer_ack_request.go b/common/pkg/fcrmessages/client_dht_offer_ack_request.go
index ee27eb7..bf9acca 100644
--- a/common/pkg/fcrmessages/client_dht_offer_ack_request.go
+++ b/common/pkg/fcrmessages/client_dht_offer_ack_request.go
@@ -58,7 +58,13 @@ func DecodeClientDHTOfferAckRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, nil, err
+	}
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, nil, err
+	}
 	return contentID, nodeID, nil
 }
diff --git a/common/pkg/fcrmessages/client_dht_offer_ack_response.go b/common/pkg/fcrmessages/client_dht_offer_ack_response.go
index 91d7953..d957d0b 100644
--- a/common/pkg/fcrmessages/client_dht_offer_ack_response.go
+++ b/common/pkg/fcrmessages/client_dht_offer_ack_response.go
@@ -70,7 +70,13 @@ func DecodeClientDHTOfferAckResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, false, nil, nil, err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, nil, false, nil, nil, err
+	}
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, nil, false, nil, nil, err
+	}
 	return contentID, nodeID, msg.Found, &msg.PublishDHTOfferRequest, &msg.PublishDHTOfferResponse, nil
 }
diff --git a/common/pkg/fcrmessages/client_establishment_request.go b/common/pkg/fcrmessages/client_establishment_request.go
index 3fd9a1b..7f73f91 100644
--- a/common/pkg/fcrmessages/client_establishment_request.go
+++ b/common/pkg/fcrmessages/client_establishment_request.go
@@ -61,6 +61,9 @@ func DecodeClientEstablishmentRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, "", 0, err
 	}
-	clientID, _ := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	clientID, err := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	if err != nil {
+		return nil, "", 0, err
+	}
 	return clientID, msg.Challenge, msg.TTL, nil
 }
diff --git a/common/pkg/fcrmessages/client_establishment_response.go b/common/pkg/fcrmessages/client_establishment_response.go
index 8183799..f701485 100644
--- a/common/pkg/fcrmessages/client_establishment_response.go
+++ b/common/pkg/fcrmessages/client_establishment_response.go
@@ -57,6 +57,9 @@ func DecodeClientEstablishmentResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, "", err
 	}
-	gatewayID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	gatewayID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, "", err
+	}
 	return gatewayID, msg.Challenge, nil
 }
diff --git a/common/pkg/fcrmessages/client_standard_discover_offer_request.go b/common/pkg/fcrmessages/client_standard_discover_offer_request.go
index 5311b79..ca69461 100644
--- a/common/pkg/fcrmessages/client_standard_discover_offer_request.go
+++ b/common/pkg/fcrmessages/client_standard_discover_offer_request.go
@@ -73,6 +73,9 @@ func DecodeClientStandardDiscoverOfferRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, 0, []string{}, "", "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, 0, []string{}, "", "", err
+	}
 	return contentID, msg.Nonce, msg.TTL, msg.OfferDigests, msg.PaychAddr, msg.Voucher, nil
 }
diff --git a/common/pkg/fcrmessages/client_standard_discover_offer_response.go b/common/pkg/fcrmessages/client_standard_discover_offer_response.go
index 54959dc..6fb6bfb 100644
--- a/common/pkg/fcrmessages/client_standard_discover_offer_response.go
+++ b/common/pkg/fcrmessages/client_standard_discover_offer_response.go
@@ -78,6 +78,9 @@ func DecodeClientStandardDiscoverOfferResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, false, nil, nil, false, "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, false, nil, nil, false, "", err
+	}
 	return contentID, msg.Nonce, msg.Found, msg.SubCIDOffers, msg.FundedPaymentChannel, msg.PaymentRequired, msg.PaymentChannel, nil
 }
diff --git a/common/pkg/fcrmessages/client_standard_discover_request.go b/common/pkg/fcrmessages/client_standard_discover_request.go
index 2e73878..0e8e823 100644
--- a/common/pkg/fcrmessages/client_standard_discover_request.go
+++ b/common/pkg/fcrmessages/client_standard_discover_request.go
@@ -69,6 +69,9 @@ func DecodeClientStandardDiscoverRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, 0, "", "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, 0, "", "", err
+	}
 	return contentID, msg.Nonce, msg.TTL, msg.PaychAddr, msg.Voucher, nil
 }
diff --git a/common/pkg/fcrmessages/client_standard_discover_request_v2.go b/common/pkg/fcrmessages/client_standard_discover_request_v2.go
index a5051ab..14d1e5e 100644
--- a/common/pkg/fcrmessages/client_standard_discover_request_v2.go
+++ b/common/pkg/fcrmessages/client_standard_discover_request_v2.go
@@ -69,6 +69,9 @@ func DecodeClientStandardDiscoverRequestV2(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, 0, "", "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, 0, "", "", err
+	}
 	return contentID, msg.Nonce, msg.TTL, msg.PaychAddr, msg.Voucher, nil
 }
diff --git a/common/pkg/fcrmessages/client_standard_discover_response.go b/common/pkg/fcrmessages/client_standard_discover_response.go
index 6ea21d8..9bcbfb5 100644
--- a/common/pkg/fcrmessages/client_standard_discover_response.go
+++ b/common/pkg/fcrmessages/client_standard_discover_response.go
@@ -70,6 +70,9 @@ func DecodeClientStandardDiscoverResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, false, nil, nil, err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, false, nil, nil, err
+	}
 	return contentID, msg.Nonce, msg.Found, msg.SubCIDOffers, msg.FundedPaymentChannel, nil
 }
diff --git a/common/pkg/fcrmessages/client_standard_discover_response_v2.go b/common/pkg/fcrmessages/client_standard_discover_response_v2.go
index d0d17a0..f4718cd 100644
--- a/common/pkg/fcrmessages/client_standard_discover_response_v2.go
+++ b/common/pkg/fcrmessages/client_standard_discover_response_v2.go
@@ -77,6 +77,9 @@ func DecodeClientStandardDiscoverResponseV2(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, false, nil, nil, false, "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, false, nil, nil, false, "", err
+	}
 	return contentID, msg.Nonce, msg.Found, msg.SubCIDOfferDigests, msg.FundedPaymentChannel, msg.PaymentRequired, msg.PaymentChannel, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_dht_discover_offer_request.go b/common/pkg/fcrmessages/gateway_dht_discover_offer_request.go
index 73f38a0..7efed41 100644
--- a/common/pkg/fcrmessages/gateway_dht_discover_offer_request.go
+++ b/common/pkg/fcrmessages/gateway_dht_discover_offer_request.go
@@ -69,6 +69,9 @@ func DecodeGatewayDHTDiscoverOfferRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, []string{}, "", "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, []string{}, "", "", err
+	}
 	return contentID, msg.Nonce, msg.OfferDigests, msg.PaychAddr, msg.Voucher, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_dht_discover_offer_response.go b/common/pkg/fcrmessages/gateway_dht_discover_offer_response.go
index fd2c52f..9fd63f6 100644
--- a/common/pkg/fcrmessages/gateway_dht_discover_offer_response.go
+++ b/common/pkg/fcrmessages/gateway_dht_discover_offer_response.go
@@ -78,6 +78,9 @@ func DecodeGatewayDHTDiscoverOfferResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, false, nil, nil, false, "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, false, nil, nil, false, "", err
+	}
 	return contentID, msg.Nonce, msg.Found, msg.SubCIDOffers, msg.FundedPaymentChannel, msg.PaymentRequired, msg.PaymentChannel, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_dht_discover_request.go b/common/pkg/fcrmessages/gateway_dht_discover_request.go
index 90899ea..7df8b71 100644
--- a/common/pkg/fcrmessages/gateway_dht_discover_request.go
+++ b/common/pkg/fcrmessages/gateway_dht_discover_request.go
@@ -74,7 +74,13 @@ func DecodeGatewayDHTDiscoverRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, 0, 0, "", "", err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, nil, 0, 0, "", "", err
+	}
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, nil, 0, 0, "", "", err
+	}
 	return nodeID, contentID, msg.Nonce, msg.TTL, msg.PaychAddr, msg.Voucher, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_dht_discover_request_v2.go b/common/pkg/fcrmessages/gateway_dht_discover_request_v2.go
index 2c5b5d4..c3dcda2 100644
--- a/common/pkg/fcrmessages/gateway_dht_discover_request_v2.go
+++ b/common/pkg/fcrmessages/gateway_dht_discover_request_v2.go
@@ -74,7 +74,13 @@ func DecodeGatewayDHTDiscoverRequestV2(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, 0, 0, "", "", err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, nil, 0, 0, "", "", err
+	}
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, nil, 0, 0, "", "", err
+	}
 	return nodeID, contentID, msg.Nonce, msg.TTL, msg.PaychAddr, msg.Voucher, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_dht_discover_response.go b/common/pkg/fcrmessages/gateway_dht_discover_response.go
index 0d89a65..69c751f 100644
--- a/common/pkg/fcrmessages/gateway_dht_discover_response.go
+++ b/common/pkg/fcrmessages/gateway_dht_discover_response.go
@@ -70,6 +70,9 @@ func DecodeGatewayDHTDiscoverResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, false, nil, nil, err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, false, nil, nil, err
+	}
 	return contentID, msg.Nonce, msg.Found, msg.SubCIDOffers, msg.FundedPaymentChannel, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_dht_discover_response_v2.go b/common/pkg/fcrmessages/gateway_dht_discover_response_v2.go
index 53a5fdb..2675f6a 100644
--- a/common/pkg/fcrmessages/gateway_dht_discover_response_v2.go
+++ b/common/pkg/fcrmessages/gateway_dht_discover_response_v2.go
@@ -77,6 +77,9 @@ func DecodeGatewayDHTDiscoverResponseV2(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, false, nil, nil, false, "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, false, nil, nil, false, "", err
+	}
 	return contentID, msg.Nonce, msg.Found, msg.SubCIDOfferDigests, msg.FundedPaymentChannel, msg.PaymentRequired, msg.PaymentChannel, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_list_dht_offer_request.go b/common/pkg/fcrmessages/gateway_list_dht_offer_request.go
index 0d2758a..ec59e68 100644
--- a/common/pkg/fcrmessages/gateway_list_dht_offer_request.go
+++ b/common/pkg/fcrmessages/gateway_list_dht_offer_request.go
@@ -79,8 +79,17 @@ func DecodeGatewayListDHTOfferRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, nil, "", "", "", nil, err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
-	contentIDMin, _ := cid.NewContentIDFromHexString(msg.CIDMin)
-	contentIDMax, _ := cid.NewContentIDFromHexString(msg.CIDMax)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, nil, nil, "", "", "", nil, err
+	}
+	contentIDMin, err := cid.NewContentIDFromHexString(msg.CIDMin)
+	if err != nil {
+		return nil, nil, nil, "", "", "", nil, err
+	}
+	contentIDMax, err := cid.NewContentIDFromHexString(msg.CIDMax)
+	if err != nil {
+		return nil, nil, nil, "", "", "", nil, err
+	}
 	return nodeID, contentIDMin, contentIDMax, msg.BlockHash, msg.TransactionReceipt, msg.MerkleRoot, &msg.MerkleProof, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_notify_provider_group_cid_offer_supported_request.go b/common/pkg/fcrmessages/gateway_notify_provider_group_cid_offer_supported_request.go
index 7d1f718..af74455 100644
--- a/common/pkg/fcrmessages/gateway_notify_provider_group_cid_offer_supported_request.go
+++ b/common/pkg/fcrmessages/gateway_notify_provider_group_cid_offer_supported_request.go
@@ -54,6 +54,9 @@ func DecodeGatewayNotifyProviderGroupCIDOfferSupportRequest(fcrMsg *FCRMessage)
 	if err != nil {
 		return nil, false, err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, false, err
+	}
 	return nodeID, msg.GroupCIDOfferSupported, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_ping_request.go b/common/pkg/fcrmessages/gateway_ping_request.go
index 94e20bc..e000d43 100644
--- a/common/pkg/fcrmessages/gateway_ping_request.go
+++ b/common/pkg/fcrmessages/gateway_ping_request.go
@@ -62,6 +62,9 @@ func DecodeGatewayPingRequest(fcrMsg *FCRMessage) (
 		return nil, 0, 0, fmt.Errorf("invalid message: %s", err)
 	}
 
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, 0, 0, err
+	}
 	return nodeID, msg.Nonce, msg.TTL, nil
 }
diff --git a/common/pkg/fcrmessages/gatewayadmin_get_reputation_request.go b/common/pkg/fcrmessages/gatewayadmin_get_reputation_request.go
index e3e9ee0..1435889 100644
--- a/common/pkg/fcrmessages/gatewayadmin_get_reputation_request.go
+++ b/common/pkg/fcrmessages/gatewayadmin_get_reputation_request.go
@@ -53,6 +53,9 @@ func DecodeGatewayAdminGetReputationRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	if err != nil {
+		return nil, err
+	}
 	return nodeID, nil
 }
diff --git a/common/pkg/fcrmessages/gatewayadmin_get_reputation_response.go b/common/pkg/fcrmessages/gatewayadmin_get_reputation_response.go
index 5d5a1ea..a3c9673 100644
--- a/common/pkg/fcrmessages/gatewayadmin_get_reputation_response.go
+++ b/common/pkg/fcrmessages/gatewayadmin_get_reputation_response.go
@@ -61,6 +61,9 @@ func DecodeGatewayAdminGetReputationResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, false, err
 	}
-	contentID, _ := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	contentID, err := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	if err != nil {
+		return nil, 0, false, err
+	}
 	return contentID, msg.Reputation, msg.Exists, nil
 }
diff --git a/common/pkg/fcrmessages/gatewayadmin_initialise_key_request.go b/common/pkg/fcrmessages/gatewayadmin_initialise_key_request.go
index 1704a38..9390921 100644
--- a/common/pkg/fcrmessages/gatewayadmin_initialise_key_request.go
+++ b/common/pkg/fcrmessages/gatewayadmin_initialise_key_request.go
@@ -67,6 +67,9 @@ func DecodeGatewayAdminInitialiseKeyRequest(fcrMsg *FCRMessage) (
 		return nil, nil, nil, errors.New("fail to decode private key")
 	}
 	privKeyVer := fcrcrypto.DecodeKeyVersion(msg.PrivateKeyVersion)
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, nil, nil, err
+	}
 	return nodeID, privKey, privKeyVer, nil
 }
diff --git a/common/pkg/fcrmessages/gatewayadmin_initialise_key_request_v2.go b/common/pkg/fcrmessages/gatewayadmin_initialise_key_request_v2.go
index 7186925..440d5e4 100644
--- a/common/pkg/fcrmessages/gatewayadmin_initialise_key_request_v2.go
+++ b/common/pkg/fcrmessages/gatewayadmin_initialise_key_request_v2.go
@@ -80,6 +80,9 @@ func DecodeGatewayAdminInitialiseKeyRequestV2(fcrMsg *FCRMessage) (
 		return nil, nil, nil, "", "", "", errors.New("fail to decode private key")
 	}
 	privKeyVer := fcrcrypto.DecodeKeyVersion(msg.PrivateKeyVersion)
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, nil, nil, "", "", "", err
+	}
 	return nodeID, privKey, privKeyVer, msg.WalletPrivateKey, msg.LotusAP, msg.LotusAuthToken, nil
 }
diff --git a/common/pkg/fcrmessages/gatewayadmin_set_reputation_request.go b/common/pkg/fcrmessages/gatewayadmin_set_reputation_request.go
index 52cb4e0..4f61e7b 100644
--- a/common/pkg/fcrmessages/gatewayadmin_set_reputation_request.go
+++ b/common/pkg/fcrmessages/gatewayadmin_set_reputation_request.go
@@ -57,6 +57,9 @@ func DecodeGatewayAdminSetReputationRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	if err != nil {
+		return nil, 0, err
+	}
 	return nodeID, msg.Reputation, nil
 }
diff --git a/common/pkg/fcrmessages/gatewayadmin_set_reputation_response.go b/common/pkg/fcrmessages/gatewayadmin_set_reputation_response.go
index 069f216..bdf47b2 100644
--- a/common/pkg/fcrmessages/gatewayadmin_set_reputation_response.go
+++ b/common/pkg/fcrmessages/gatewayadmin_set_reputation_response.go
@@ -61,6 +61,9 @@ func DecodeGatewayAdminSetReputationResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, false, err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	if err != nil {
+		return nil, 0, false, err
+	}
 	return nodeID, msg.Reputation, msg.Exists, nil
 }
diff --git a/common/pkg/fcrmessages/gatewayadmin_update_group_cid_offer_support_request.go b/common/pkg/fcrmessages/gatewayadmin_update_group_cid_offer_support_request.go
index d7223a1..1519f5d 100644
--- a/common/pkg/fcrmessages/gatewayadmin_update_group_cid_offer_support_request.go
+++ b/common/pkg/fcrmessages/gatewayadmin_update_group_cid_offer_support_request.go
@@ -54,6 +54,13 @@ func DecodeUpdateGatewayGroupCIDOfferSupportRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
-	return nodeID, nodeid.MapStringToNodeID(msg.ProviderIDs), nil
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, nil, err
+	}
+	providerIDs, err := nodeid.MapStringToNodeID(msg.ProviderIDs)
+	if err != nil {
+		return nil, nil, err
+	}
+	return nodeID, providerIDs, nil
 }
diff --git a/common/pkg/fcrmessages/provider_publish_dht_offer_request.go b/common/pkg/fcrmessages/provider_publish_dht_offer_request.go
index 9a3efaa..8f8def6 100644
--- a/common/pkg/fcrmessages/provider_publish_dht_offer_request.go
+++ b/common/pkg/fcrmessages/provider_publish_dht_offer_request.go
@@ -70,6 +70,9 @@ func DecodeProviderPublishDHTOfferRequest(fcrMsg *FCRMessage) (
 			return nil, 0, nil, errors.New("offers contain group offer")
 		}
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.ProviderID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.ProviderID)
+	if err != nil {
+		return nil, 0, nil, err
+	}
 	return nodeID, msg.Nonce, msg.Offers, nil
 }
diff --git a/common/pkg/fcrmessages/provider_publish_group_offer_request.go b/common/pkg/fcrmessages/provider_publish_group_offer_request.go
index b14f6d4..3496a4d 100644
--- a/common/pkg/fcrmessages/provider_publish_group_offer_request.go
+++ b/common/pkg/fcrmessages/provider_publish_group_offer_request.go
@@ -62,6 +62,9 @@ func DecodeProviderPublishGroupOfferRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, nil, err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.ProviderID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.ProviderID)
+	if err != nil {
+		return nil, 0, nil, err
+	}
 	return nodeID, msg.Nonce, &msg.Offer, nil
 }
diff --git a/common/pkg/fcrmessages/provider_publish_group_offer_response.go b/common/pkg/fcrmessages/provider_publish_group_offer_response.go
index a2f48a6..5ecb290 100644
--- a/common/pkg/fcrmessages/provider_publish_group_offer_response.go
+++ b/common/pkg/fcrmessages/provider_publish_group_offer_response.go
@@ -57,6 +57,9 @@ func DecodeProviderPublishGroupOfferResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, "", err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewaydID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewaydID)
+	if err != nil {
+		return nil, "", err
+	}
 	return nodeID, msg.Digest, nil
 }
diff --git a/common/pkg/fcrmessages/provideradmin_get_published_offer_request.go b/common/pkg/fcrmessages/provideradmin_get_published_offer_request.go
index bdf7387..6c5a3a7 100644
--- a/common/pkg/fcrmessages/provideradmin_get_published_offer_request.go
+++ b/common/pkg/fcrmessages/provideradmin_get_published_offer_request.go
@@ -53,5 +53,9 @@ func DecodeProviderAdminGetPublishedOfferRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, err
 	}
-	return nodeid.MapStringToNodeID(msg.GatewayIDs), nil
+	gatewayIDs, err := nodeid.MapStringToNodeID(msg.GatewayIDs)
+	if err != nil {
+		return nil, err
+	}
+	return gatewayIDs, nil
 }
diff --git a/common/pkg/fcrmessages/provideradmin_initialise_key_request.go b/common/pkg/fcrmessages/provideradmin_initialise_key_request.go
index 2d57645..e5edb44 100644
--- a/common/pkg/fcrmessages/provideradmin_initialise_key_request.go
+++ b/common/pkg/fcrmessages/provideradmin_initialise_key_request.go
@@ -67,6 +67,9 @@ func DecodeProviderAdminInitialiseKeyRequest(fcrMsg *FCRMessage) (
 		return nil, nil, nil, errors.New("fail to decode private key")
 	}
 	privKeyVer := fcrcrypto.DecodeKeyVersion(msg.PrivateKeyVersion)
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.ProviderID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.ProviderID)
+	if err != nil {
+		return nil, nil, nil, err
+	}
 	return nodeID, privKey, privKeyVer, nil
 }
diff --git a/common/pkg/fcrmessages/provideradmin_initialise_key_request_v2.go b/common/pkg/fcrmessages/provideradmin_initialise_key_request_v2.go
index 1ffd7e4..dcb7033 100644
--- a/common/pkg/fcrmessages/provideradmin_initialise_key_request_v2.go
+++ b/common/pkg/fcrmessages/provideradmin_initialise_key_request_v2.go
@@ -80,6 +80,9 @@ func DecodeProviderAdminInitialiseKeyRequestV2(fcrMsg *FCRMessage) (
 		return nil, nil, nil, "", "", "", errors.New("fail to decode private key")
 	}
 	privKeyVer := fcrcrypto.DecodeKeyVersion(msg.PrivateKeyVersion)
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.ProviderID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.ProviderID)
+	if err != nil {
+		return nil, nil, nil, "", "", "", err
+	}
 	return nodeID, privKey, privKeyVer, msg.WalletPrivateKey, msg.LotusAP, msg.LotusAuthToken, nil
 }
diff --git a/common/pkg/fcrmessages/provideradmin_publish_dht_offer_request.go b/common/pkg/fcrmessages/provideradmin_publish_dht_offer_request.go
index c0fc29b..c262df3 100644
--- a/common/pkg/fcrmessages/provideradmin_publish_dht_offer_request.go
+++ b/common/pkg/fcrmessages/provideradmin_publish_dht_offer_request.go
@@ -65,5 +65,9 @@ func DecodeProviderAdminPublishDHTOfferRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, nil, nil, err
 	}
-	return cid.MapStringToCID(msg.CIDs), msg.Price, msg.Expiry, msg.QoS, nil
+	cids, err := cid.MapStringToCID(msg.CIDs)
+	if err != nil {
+		return nil, nil, nil, nil, err
+	}
+	return cids, msg.Price, msg.Expiry, msg.QoS, nil
 }
diff --git a/common/pkg/fcrmessages/provideradmin_publish_group_offer_request.go b/common/pkg/fcrmessages/provideradmin_publish_group_offer_request.go
index eb20a25..5a09d9f 100644
--- a/common/pkg/fcrmessages/provideradmin_publish_group_offer_request.go
+++ b/common/pkg/fcrmessages/provideradmin_publish_group_offer_request.go
@@ -65,5 +65,9 @@ func DecodeProviderAdminPublishGroupOfferRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, 0, 0, err
 	}
-	return cid.MapStringToCID(msg.CIDs), msg.Price, msg.Expiry, msg.QoS, nil
+	cids, err := cid.MapStringToCID(msg.CIDs)
+	if err != nil {
+		return nil, 0, 0, 0, err
+	}
+	return cids, msg.Price, msg.Expiry, msg.QoS, nil
 }
diff --git a/common/pkg/nodeid/nodeid.go b/common/pkg/nodeid/nodeid.go
index c0d6a7c..5ddc341 100644
--- a/common/pkg/nodeid/nodeid.go
+++ b/common/pkg/nodeid/nodeid.go
@@ -179,11 +179,14 @@ func MapNodeIDToString(cids []NodeID) []string {
 }
 
 // Map - used to returns a new slice containing CIDs as string values
-func MapStringToNodeID(cids []string) []NodeID {
+func MapStringToNodeID(cids []string) ([]NodeID, error) {
 	results := make([]NodeID, len(cids))
 	for i, v := range cids {
-		nodeID, _ := NewNodeIDFromHexString(v)
+		nodeID, err := NewNodeIDFromHexString(v)
+		if err != nil {
+			return nil, err
+		}
 		results[i] = *nodeID
 	}
-	return results
+	return results, nil
 }
-- 
2.43.0


From 9ba294418cfb05dcd074fbc37494f186eed4268e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:26 +0000
Subject: [PATCH 21/34] fix: the client took answers to expired challenges as
 proof

The time-to-live of an establishment challenge was sent to the gateway but never checked by the client itself.
---
 client/pkg/api/clientapi/establishment_requester.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/client/pkg/api/clientapi/establishment_requester.go b/client/pkg/api/clientapi/establishment_requester.go
index 14c95fd..7acffe7 100644
--- a/client/pkg/api/clientapi/establishment_requester.go
+++ b/client/pkg/api/clientapi/establishment_requester.go
@@ -18,6 +18,7 @@ package clientapi
 import (
 	"encoding/base64"
 	"errors"
+	"time"
 
 	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
 	"github.com/ConsenSys/fc-retrieval/common/pkg/logging"
@@ -50,6 +51,11 @@ func (c *Client) RequestEstablishment(
 		return err
 	}
 
+	// An answer given after the challenge expired does not count
+	if time.Now().Unix() > ttl {
+		return errors.New("response is too late")
+	}
+
 	// Get the gateway's public key
 	pubKey, err := gatewayRegistrar.GetSigningKey()
 	if err != nil {
-- 
2.43.0


From b25c9124851ecd62ddd33039f7dc37897692dbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:10 +0000
Subject: [PATCH 22/34] fix: concurrent changes of a client's gateways
 resurrected removed ones and counted others twice

A gateway removed while it was being established became active, though it was no longer to be used, and two threads adding
the same gateway both reported to have added it.
---
 .../fcrclient/filecoin_retrieval_client.go    | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index 6fb2916..56efd11 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -145,11 +145,14 @@ func (c *FilecoinRetrievalClient) AddGatewaysToUse(gwNodeIDs []*nodeid.NodeID) i
 			logging.Error("Register info not valid.")
 			continue
 		}
-		// Success
+		// Success, unless somebody else added it meanwhile
 		c.GatewaysToUseLock.Lock()
-		c.GatewaysToUse[gwToAddID.ToString()] = gateway
+		_, exist = c.GatewaysToUse[gwToAddID.ToString()]
+		if !exist {
+			c.GatewaysToUse[gwToAddID.ToString()] = gateway
+			numAdded++
+		}
 		c.GatewaysToUseLock.Unlock()
-		numAdded++
 	}
 	return numAdded
 }
@@ -235,11 +238,17 @@ func (c *FilecoinRetrievalClient) AddActiveGateways(gwNodeIDs []*nodeid.NodeID)
 			logging.Error("Error in initial establishment: %v", err.Error())
 			continue
 		}
-		// It is success
+		// It is success, unless the gateway was removed or somebody else added it meanwhile
+		c.GatewaysToUseLock.RLock()
+		_, toUse := c.GatewaysToUse[gwToAddID.ToString()]
 		c.ActiveGatewaysLock.Lock()
-		c.ActiveGateways[gwToAddID.ToString()] = gatewayRegistrar
+		_, exist = c.ActiveGateways[gwToAddID.ToString()]
+		if toUse && !exist {
+			c.ActiveGateways[gwToAddID.ToString()] = gatewayRegistrar
+			numAdded++
+		}
 		c.ActiveGatewaysLock.Unlock()
-		numAdded++
+		c.GatewaysToUseLock.RUnlock()
 	}
 	return numAdded
 }
-- 
2.43.0


From 05c055f1e5f24512d7dd6fb804c41ab8a0358687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:43 +0000
Subject: [PATCH 23/34] fix: a message that began just before the idle timeout
 broke the connection

---
 common/pkg/fcrp2pserver/tcp_comms.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/common/pkg/fcrp2pserver/tcp_comms.go b/common/pkg/fcrp2pserver/tcp_comms.go
index 01081ea..41b80a4 100644
--- a/common/pkg/fcrp2pserver/tcp_comms.go
+++ b/common/pkg/fcrp2pserver/tcp_comms.go
@@ -43,9 +43,15 @@ func readTCPMessage(conn net.Conn, timeout time.Duration) (*fcrmessages.FCRMessa
 		return nil, err
 	}
 	// The connection is read directly: a buffer would swallow the start of the next message
-	n, err := io.ReadFull(conn, length)
-	if err != nil {
-		if n > 0 && isTimeoutError(err) {
+	if _, err := io.ReadFull(conn, length[:1]); err != nil {
+		return nil, err
+	}
+	// A message has begun: it has the full timeout to arrive, however late it began
+	if err := conn.SetDeadline(time.Now().Add(timeout)); err != nil {
+		return nil, err
+	}
+	if _, err := io.ReadFull(conn, length[1:]); err != nil {
+		if isTimeoutError(err) {
 			return nil, errors.New("timeout in the middle of a message")
 		}
 		return nil, err
-- 
2.43.0


From d821234782713416340d3cc5c802cc55e5040358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:22 +0000
Subject: [PATCH 24/34] fix: gateways stored offers nobody vouches for, and
 parts of refused messages

---
 .../gatewayapi/list_dht_offer_requester.go    | 42 +++++++++++++------
 .../providerapi/publish_dht_offer_handler.go  |  9 +++-
 .../publish_group_offer_handler.go            |  4 ++
 3 files changed, 41 insertions(+), 14 deletions(-)

diff --git a/gateway/internal/api/gatewayapi/list_dht_offer_requester.go b/gateway/internal/api/gatewayapi/list_dht_offer_requester.go
index d0775f8..3ad17b8 100644
--- a/gateway/internal/api/gatewayapi/list_dht_offer_requester.go
+++ b/gateway/internal/api/gatewayapi/list_dht_offer_requester.go
@@ -19,6 +19,7 @@ import (
 	"errors"
 
 	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
+	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
 	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
 	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
 	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrp2pserver"
@@ -104,22 +105,18 @@ func RequestListCIDOffer(reader *fcrp2pserver.FCRServerReader, writer *fcrp2pser
 			logging.Error("Fail to verify the sub message")
 			continue
 		}
-		_, nonce, cidOffers, err := fcrmessages.DecodeProviderPublishDHTOfferRequest(&cidOfferMsg)
+		senderID, nonce, cidOffers, err := fcrmessages.DecodeProviderPublishDHTOfferRequest(&cidOfferMsg)
 		if err != nil {
 			logging.Error("Fail to decode message")
 			continue
 		}
-		// Verify the offers
-		for _, cidOffer := range cidOffers {
-			if cidOffer.Verify(pubKey) != nil {
-				logging.Error("Fail to verify the offer")
-				continue
-			}
-			// Store the offer
-			if c.OffersMgr.AddDHTOffer(&cidOffer) != nil {
-				logging.Error("Fail to store the offer")
-				continue
-			}
+		if senderID.ToString() != providerID.ToString() {
+			logging.Error("The sub message is in the name of another provider")
+			continue
+		}
+		// Only a message whose offers are all good and stored is acknowledged
+		if !verifyAndStore(c, providerID, pubKey, cidOffers) {
+			continue
 		}
 
 		// Sign the offer message
@@ -144,3 +141,24 @@ func RequestListCIDOffer(reader *fcrp2pserver.FCRServerReader, writer *fcrp2pser
 
 	return nil, writer.Write(ack, c.Settings.TCPInactivityTimeout)
 }
+
+// verifyAndStore stores the offers of a provider, if all of them are valid.
+func verifyAndStore(c *core.Core, providerID *nodeid.NodeID, pubKey *fcrcrypto.KeyPair, cidOffers []cidoffer.CIDOffer) bool {
+	for _, cidOffer := range cidOffers {
+		if cidOffer.GetProviderID() == nil || cidOffer.GetProviderID().ToString() != providerID.ToString() {
+			logging.Error("The offer is in the name of another provider")
+			return false
+		}
+		if cidOffer.Verify(pubKey) != nil {
+			logging.Error("Fail to verify the offer")
+			return false
+		}
+	}
+	for _, cidOffer := range cidOffers {
+		if c.OffersMgr.AddDHTOffer(&cidOffer) != nil {
+			logging.Error("Fail to store the offer")
+			return false
+		}
+	}
+	return true
+}
diff --git a/gateway/internal/api/providerapi/publish_dht_offer_handler.go b/gateway/internal/api/providerapi/publish_dht_offer_handler.go
index 8d8de38..4a9abe0 100644
--- a/gateway/internal/api/providerapi/publish_dht_offer_handler.go
+++ b/gateway/internal/api/providerapi/publish_dht_offer_handler.go
@@ -56,13 +56,18 @@ func HandleProviderPublishDHTOfferRequest(_ *fcrp2pserver.FCRServerReader, write
 		return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
 	}
 
-	// Verify the offer one by one
+	// Verify the offers one by one, before any of them is stored
 	for _, offer := range offers {
+		if offer.GetProviderID() == nil || offer.GetProviderID().ToString() != providerID.ToString() {
+			logging.Warn("Offer from %s is in the name of another provider", providerID.ToString())
+			return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
+		}
 		if offer.Verify(pubKey) != nil {
 			logging.Warn("Fail to verify the offer from %s", providerID.ToString())
 			return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
 		}
-
+	}
+	for _, offer := range offers {
 		if c.OffersMgr.AddDHTOffer(&offer) != nil {
 			logging.Error("Internal error in adding single cid offer.")
 			return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
diff --git a/gateway/internal/api/providerapi/publish_group_offer_handler.go b/gateway/internal/api/providerapi/publish_group_offer_handler.go
index 016016a..99f8858 100644
--- a/gateway/internal/api/providerapi/publish_group_offer_handler.go
+++ b/gateway/internal/api/providerapi/publish_group_offer_handler.go
@@ -54,6 +54,10 @@ func HandleProviderPublishGroupOfferRequest(_ *fcrp2pserver.FCRServerReader, wri
 	}
 
 	// Verify the offer
+	if offer.GetProviderID() == nil || offer.GetProviderID().ToString() != providerID.ToString() {
+		logging.Warn("Offer from %s is in the name of another provider", providerID.ToString())
+		return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
+	}
 	if offer.Verify(pubKey) != nil {
 		logging.Warn("Fail to verify the offer from %s", providerID.ToString())
 		return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
-- 
2.43.0


From 896d3dcff1e5d9fa29ddb29ef8ab9eb19d1a6007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:34 +0000
Subject: [PATCH 25/34] fix: acknowledgements of fetched offers were unsigned
 and lost

---
 .../gatewayapi/list_dht_offer_requester.go    |  4 +++
 .../api/gatewayapi/list_dht_offer_handler.go  | 33 ++++++++++++++-----
 2 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/gateway/internal/api/gatewayapi/list_dht_offer_requester.go b/gateway/internal/api/gatewayapi/list_dht_offer_requester.go
index 3ad17b8..2a4ada4 100644
--- a/gateway/internal/api/gatewayapi/list_dht_offer_requester.go
+++ b/gateway/internal/api/gatewayapi/list_dht_offer_requester.go
@@ -128,6 +128,10 @@ func RequestListCIDOffer(reader *fcrp2pserver.FCRServerReader, writer *fcrp2pser
 		if err != nil {
 			return nil, err
 		}
+		// Sign the acknowledgement, the provider shows it to clients
+		if cidOfferMsgAck.Sign(c.GatewayPrivateKey, c.GatewayPrivateKeyVersion) != nil {
+			return nil, errors.New("error in signing the acknowledgement")
+		}
 		cidOfferMsgAcks = append(cidOfferMsgAcks, *cidOfferMsgAck)
 	}
 	ack, err := fcrmessages.EncodeGatewayListDHTOfferAck(cidOfferMsgAcks)
diff --git a/provider/internal/api/gatewayapi/list_dht_offer_handler.go b/provider/internal/api/gatewayapi/list_dht_offer_handler.go
index fdf3bc2..b33f354 100644
--- a/provider/internal/api/gatewayapi/list_dht_offer_handler.go
+++ b/provider/internal/api/gatewayapi/list_dht_offer_handler.go
@@ -127,20 +127,31 @@ func HandleGatewayListDHTOfferRequest(reader *fcrp2pserver.FCRServerReader, writ
 	}
 
 	acknowledgements, err := fcrmessages.DecodeGatewayListDHTOfferAck(acks)
-	if len(acknowledgements) != len(msgs) {
-		return errors.New("invalid response")
+	if err != nil {
+		return err
 	}
-	for i, acknowledgement := range acknowledgements {
+	// The gateway acknowledges in order, but leaves out messages it has not stored
+	i := 0
+	for _, acknowledgement := range acknowledgements {
+		if acknowledgement.Verify(pubKey) != nil {
+			return errors.New("fail to verify the acknowledgement")
+		}
 		// TODO: Check nonce.
 		_, signature, err := fcrmessages.DecodeProviderPublishDHTOfferResponse(&acknowledgement)
 		if err != nil {
 			return err
 		}
-		ok, err := fcrcrypto.VerifyMessage(pubKey, signature, msgs[i].GetMessageBody())
-		if err != nil {
-			return err
+		// Find the message it acknowledges
+		for ; i < len(msgs); i++ {
+			ok, err := fcrcrypto.VerifyMessage(pubKey, signature, msgs[i].GetMessageBody())
+			if err != nil {
+				return err
+			}
+			if ok {
+				break
+			}
 		}
-		if !ok {
+		if i == len(msgs) {
 			return errors.New("verification failed")
 		}
 		// It's okay, add to acknowledgements map
@@ -150,12 +161,18 @@ func HandleGatewayListDHTOfferRequest(reader *fcrp2pserver.FCRServerReader, writ
 		}
 		c.AcknowledgementMapLock.Lock()
 		for _, sentOffer := range sentOffers {
-			c.AcknowledgementMap[sentOffer.GetCIDs()[0].ToString()][gatewayID.ToString()] = core.DHTAcknowledgement{
+			cidMap, ok := c.AcknowledgementMap[sentOffer.GetCIDs()[0].ToString()]
+			if !ok {
+				cidMap = make(map[string]core.DHTAcknowledgement)
+				c.AcknowledgementMap[sentOffer.GetCIDs()[0].ToString()] = cidMap
+			}
+			cidMap[gatewayID.ToString()] = core.DHTAcknowledgement{
 				Msg:    msgs[i],
 				MsgAck: acknowledgement,
 			}
 		}
 		c.AcknowledgementMapLock.Unlock()
+		i++
 	}
 	return nil
 }
-- 
2.43.0


From bcd93ff78ff4402a9c3efe8e31055837c7081db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:03 +0000
Subject: [PATCH 26/34] fix: nodes without keys or wallet crashed on requests,
 failed initialisation left them half set up

---
 common/pkg/fcrcrypto/msg_signing.go                  |  3 +++
 common/pkg/fcrpaymentmgr/payment_manager.go          | 12 ++++++++++++
 .../internal/api/adminapi/initialise_key_handler.go  |  2 +-
 .../api/adminapi/initialise_key_handler_v2.go        |  9 +++++----
 .../internal/api/adminapi/set_group_cid_support.go   |  8 ++++++++
 .../internal/api/clientapi/establishment_handler.go  |  7 +++++++
 .../api/providerapi/publish_group_offer_handler.go   |  5 +++++
 .../internal/api/adminapi/initialise_key_handler.go  |  2 +-
 .../api/adminapi/initialise_key_handler_v2.go        |  9 +++++----
 9 files changed, 47 insertions(+), 10 deletions(-)

diff --git a/common/pkg/fcrcrypto/msg_signing.go b/common/pkg/fcrcrypto/msg_signing.go
index 2fce9ef..34e5614 100644
--- a/common/pkg/fcrcrypto/msg_signing.go
+++ b/common/pkg/fcrcrypto/msg_signing.go
@@ -37,6 +37,9 @@ const (
 // SignMessage signs a message using the specified private key.
 // Note that the struct must contain a field "Signature"
 func SignMessage(pKey *KeyPair, keyVersion *KeyVersion, msg []byte) (string, error) {
+	if pKey == nil || keyVersion == nil {
+		return "", errors.New("no key to sign with")
+	}
 	rawSig, err := pKey.Sign(msg)
 	if err != nil {
 		return "", err
diff --git a/common/pkg/fcrpaymentmgr/payment_manager.go b/common/pkg/fcrpaymentmgr/payment_manager.go
index 41e7b53..46a4130 100644
--- a/common/pkg/fcrpaymentmgr/payment_manager.go
+++ b/common/pkg/fcrpaymentmgr/payment_manager.go
@@ -66,6 +66,9 @@ type FCRPaymentMgr struct {
 	inboundChsLock sync.RWMutex
 }
 
+// errNotInitialised is returned by a node that has been given no wallet
+var errNotInitialised = errors.New("payment manager is not initialised")
+
 // channelState represents the state of a channel
 type channelState struct {
 	addr     address.Address
@@ -120,6 +123,9 @@ func (mgr *FCRPaymentMgr) Topup(recipient string, amount *big.Int) error {
 	if err != nil {
 		return err
 	}
+	if mgr == nil {
+		return errNotInitialised
+	}
 	// Get API
 	api, closer, err := getLotusAPI(mgr.authToken, mgr.lotusAPIAddr)
 	if err != nil {
@@ -216,6 +222,9 @@ func (mgr *FCRPaymentMgr) Topup(recipient string, amount *big.Int) error {
 // Pay will generate a voucher and pay the recipient a given amount.
 // Return channel address, voucher, true if needs to top up, and error.
 func (mgr *FCRPaymentMgr) Pay(recipient string, lane uint64, amount *big.Int) (string, string, bool, error) {
+	if mgr == nil {
+		return "", "", false, errNotInitialised
+	}
 	zero, err := types.ParseFIL("0")
 	if err != nil {
 		return "", "", false, err
@@ -281,6 +290,9 @@ func (mgr *FCRPaymentMgr) Pay(recipient string, lane uint64, amount *big.Int) (s
 // Receive will receive a given voucher at a given payment channel and return the amount received.
 // Amount of 1000000000000000000 means 1 coin received.
 func (mgr *FCRPaymentMgr) Receive(channel string, voucher string) (*big.Int, error) {
+	if mgr == nil {
+		return nil, errNotInitialised
+	}
 	// TODO: We can query the lane state from the chain via chain get object,
 	// but don't know how to interpret the result.
 	// It is entirely possible to do validation completely against local storage, just like below.
diff --git a/gateway/internal/api/adminapi/initialise_key_handler.go b/gateway/internal/api/adminapi/initialise_key_handler.go
index 0fcee61..c0a73ce 100644
--- a/gateway/internal/api/adminapi/initialise_key_handler.go
+++ b/gateway/internal/api/adminapi/initialise_key_handler.go
@@ -39,8 +39,8 @@ func HandleGatewayAdminInitialiseKeyRequest(w rest.ResponseWriter, request *fcrm
 	}
 
 	c.GatewayID = nodeID
-	c.GatewayPrivateKey = privKey
 	c.GatewayPrivateKeyVersion = privKeyVer
+	c.GatewayPrivateKey = privKey
 
 	// Construct message
 	response, err := fcrmessages.EncodeGatewayAdminInitialiseKeyResponse(true)
diff --git a/gateway/internal/api/adminapi/initialise_key_handler_v2.go b/gateway/internal/api/adminapi/initialise_key_handler_v2.go
index 22e3eeb..c489c12 100644
--- a/gateway/internal/api/adminapi/initialise_key_handler_v2.go
+++ b/gateway/internal/api/adminapi/initialise_key_handler_v2.go
@@ -39,16 +39,17 @@ func HandleGatewayAdminInitialiseKeyRequestV2(w rest.ResponseWriter, request *fc
 		return
 	}
 
-	c.GatewayID = nodeID
-	c.GatewayPrivateKey = privKey
-	c.GatewayPrivateKeyVersion = privKeyVer
-	c.PaymentMgr, err = fcrpaymentmgr.NewFCRPaymentMgr(walletPrivKey, lotusAP, lotusAuth)
+	paymentMgr, err := fcrpaymentmgr.NewFCRPaymentMgr(walletPrivKey, lotusAP, lotusAuth)
 	if err != nil {
 		s := "Fail to initialize payment manager."
 		logging.Error(s + err.Error())
 		rest.Error(w, s, http.StatusBadRequest)
 		return
 	}
+	c.GatewayID = nodeID
+	c.GatewayPrivateKeyVersion = privKeyVer
+	c.PaymentMgr = paymentMgr
+	c.GatewayPrivateKey = privKey
 
 	// Construct message
 	response, err := fcrmessages.EncodeGatewayAdminInitialiseKeyResponse(true)
diff --git a/gateway/internal/api/adminapi/set_group_cid_support.go b/gateway/internal/api/adminapi/set_group_cid_support.go
index f9f0382..6b93f18 100644
--- a/gateway/internal/api/adminapi/set_group_cid_support.go
+++ b/gateway/internal/api/adminapi/set_group_cid_support.go
@@ -31,6 +31,14 @@ import (
 // HandleGatewayAdminUpdateGatewayGroupCIDOfferSupportRequest handles updating state of the Gateway, namely if it supports group CID offers
 func HandleGatewayAdminUpdateGatewayGroupCIDOfferSupportRequest(w rest.ResponseWriter, request *fcrmessages.FCRMessage) {
 	c := core.GetSingleInstance()
+
+	if c.GatewayPrivateKey == nil {
+		s := "This gateway hasn't been initialised by the admin"
+		logging.Error(s)
+		rest.Error(w, s, http.StatusBadRequest)
+		return
+	}
+
 	_, providerIDs, err := fcrmessages.DecodeUpdateGatewayGroupCIDOfferSupportRequest(request)
 	if err != nil {
 		s := "Fail to decode message."
diff --git a/gateway/internal/api/clientapi/establishment_handler.go b/gateway/internal/api/clientapi/establishment_handler.go
index ff9fb13..b5b72f1 100644
--- a/gateway/internal/api/clientapi/establishment_handler.go
+++ b/gateway/internal/api/clientapi/establishment_handler.go
@@ -31,6 +31,13 @@ func HandleClientEstablishmentRequest(w rest.ResponseWriter, request *fcrmessage
 	// Get core structure
 	c := core.GetSingleInstance()
 
+	if c.GatewayPrivateKey == nil {
+		s := "This gateway hasn't been initialised by the admin"
+		logging.Error(s)
+		rest.Error(w, s, http.StatusBadRequest)
+		return
+	}
+
 	clientID, challenge, ttl, err := fcrmessages.DecodeClientEstablishmentRequest(request)
 	if err != nil {
 		s := "Fail to decode message."
diff --git a/gateway/internal/api/providerapi/publish_group_offer_handler.go b/gateway/internal/api/providerapi/publish_group_offer_handler.go
index 99f8858..3cfc595 100644
--- a/gateway/internal/api/providerapi/publish_group_offer_handler.go
+++ b/gateway/internal/api/providerapi/publish_group_offer_handler.go
@@ -63,6 +63,11 @@ func HandleProviderPublishGroupOfferRequest(_ *fcrp2pserver.FCRServerReader, wri
 		return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
 	}
 
+	if c.GatewayPrivateKey == nil {
+		logging.Warn("This gateway hasn't been initialised by the admin")
+		return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
+	}
+
 	// Store the offer
 	if c.OffersMgr.AddGroupOffer(offer) != nil {
 		logging.Error("Internal error in adding group cid offer.")
diff --git a/provider/internal/api/adminapi/initialise_key_handler.go b/provider/internal/api/adminapi/initialise_key_handler.go
index 88eb471..c3e7c08 100644
--- a/provider/internal/api/adminapi/initialise_key_handler.go
+++ b/provider/internal/api/adminapi/initialise_key_handler.go
@@ -39,8 +39,8 @@ func HandleProviderAdminInitialiseKeyRequest(w rest.ResponseWriter, request *fcr
 	}
 
 	c.ProviderID = nodeID
-	c.ProviderPrivateKey = privKey
 	c.ProviderPrivateKeyVersion = privKeyVer
+	c.ProviderPrivateKey = privKey
 
 	// Construct messaqe
 	response, err := fcrmessages.EncodeProviderAdminInitialiseKeyResponse(true)
diff --git a/provider/internal/api/adminapi/initialise_key_handler_v2.go b/provider/internal/api/adminapi/initialise_key_handler_v2.go
index 37831b1..0b9dc94 100644
--- a/provider/internal/api/adminapi/initialise_key_handler_v2.go
+++ b/provider/internal/api/adminapi/initialise_key_handler_v2.go
@@ -39,16 +39,17 @@ func HandleProviderAdminInitialiseKeyRequestV2(w rest.ResponseWriter, request *f
 		return
 	}
 
-	c.ProviderID = nodeID
-	c.ProviderPrivateKey = privKey
-	c.ProviderPrivateKeyVersion = privKeyVer
-	c.PaymentMgr, err = fcrpaymentmgr.NewFCRPaymentMgr(walletPrivKey, lotusAP, lotusAuth)
+	paymentMgr, err := fcrpaymentmgr.NewFCRPaymentMgr(walletPrivKey, lotusAP, lotusAuth)
 	if err != nil {
 		s := "Fail to initialize payment manager."
 		logging.Error(s + err.Error())
 		rest.Error(w, s, http.StatusBadRequest)
 		return
 	}
+	c.ProviderID = nodeID
+	c.ProviderPrivateKeyVersion = privKeyVer
+	c.PaymentMgr = paymentMgr
+	c.ProviderPrivateKey = privKey
 
 	// Construct messaqe
 	response, err := fcrmessages.EncodeProviderAdminInitialiseKeyResponse(true)
-- 
2.43.0


From 08494dafd65a34601a52446dac513b331d38bcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:16 +0000
Subject: [PATCH 27/34] fix: providers sent a gateway the whole batch once for
 each content in it

---
 provider/internal/api/adminapi/publish_dht_offer_handler.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/provider/internal/api/adminapi/publish_dht_offer_handler.go b/provider/internal/api/adminapi/publish_dht_offer_handler.go
index 33d94ca..93cece7 100644
--- a/provider/internal/api/adminapi/publish_dht_offer_handler.go
+++ b/provider/internal/api/adminapi/publish_dht_offer_handler.go
@@ -82,7 +82,7 @@ func HandleProviderAdminPublishDHTOfferRequest(w rest.ResponseWriter, request *f
     }
 	}
 
-	for _, contendID := range cids {
+	for i, contendID := range cids {
 		gateways, err := c.RegisterMgr.GetGatewaysNearCID(&contendID, 16, nil)
 		if err != nil {
 			s := "Internal error: Fail to get gateways near the given cid."
@@ -99,7 +99,7 @@ func HandleProviderAdminPublishDHTOfferRequest(w rest.ResponseWriter, request *f
 				rest.Error(w, s, http.StatusBadRequest)
 				return
 			}
-			_, err = c.P2PServer.RequestGatewayFromProvider(gatewayID, fcrmessages.ProviderPublishDHTOfferRequestType, offers, gatewayID)
+			_, err = c.P2PServer.RequestGatewayFromProvider(gatewayID, fcrmessages.ProviderPublishDHTOfferRequestType, offers[i:i+1], gatewayID)
 			if err != nil {
 				logging.Error("Error in publishing dht offer to %s: %s", gatewayID.ToString(), err.Error())
 			}
-- 
2.43.0


From 54f3455c9745b3152a23e82df4d717a3aba071f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:30 +0000
Subject: [PATCH 28/34] fix: registering reported success although the register
 refused

---
 common/pkg/request/request.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/pkg/request/request.go b/common/pkg/request/request.go
index 6e2c209..e1018d7 100644
--- a/common/pkg/request/request.go
+++ b/common/pkg/request/request.go
@@ -92,6 +92,9 @@ func (c *HttpCommunicator) SendJSON(url string, data interface{}) error {
 	if err := r.Body.Close(); err != nil {
 		return err
 	}
+	if r.StatusCode < 200 || r.StatusCode > 299 {
+		return errors.New("SendJSON receive error code: " + r.Status)
+	}
 	return nil
 }
 
-- 
2.43.0


From d3ffcd3ad7dd7e941e4187e4ec1e15e9a24857bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:03 +0000
Subject: [PATCH 29/34] fix: paid offer requests crashed on unknown digests,
 raised the price and answered unpaid ones

---
 .../standard_discover_offer_handler.go        | 16 ++++----
 .../api/gatewayapi/dht_discover_handler_v2.go |  2 +-
 .../gatewayapi/dht_discover_offer_handler.go  | 39 ++++++++++---------
 3 files changed, 31 insertions(+), 26 deletions(-)

diff --git a/gateway/internal/api/clientapi/standard_discover_offer_handler.go b/gateway/internal/api/clientapi/standard_discover_offer_handler.go
index c2bed7d..ff97dbd 100644
--- a/gateway/internal/api/clientapi/standard_discover_offer_handler.go
+++ b/gateway/internal/api/clientapi/standard_discover_offer_handler.go
@@ -54,23 +54,25 @@ func HandleClientStandardDiscoverOfferRequest(writer rest.ResponseWriter, reques
 	expectedAmount.Mul(c.Settings.OfferPrice, expectedAmount)
 	if err == nil && receive.Cmp(expectedAmount) >= 0 {
 		// Success - Search for offers
-		subOffers := make([]cidoffer.SubCIDOffer, len(offerDigests))
-		fundedPaymentChannel := make([]bool, len(offerDigests))
-		found := false
+		subOffers := make([]cidoffer.SubCIDOffer, 0)
+		fundedPaymentChannel := make([]bool, 0)
 
-		for i, digest := range offerDigests {
+		for _, digest := range offerDigests {
 			d := cidoffer.DecodeMessageDigest(digest)
 			offer, exist := c.OffersMgr.GetOfferByDigest(d)
-			fundedPaymentChannel[i] = exist
-			found = exist
+			if !exist {
+				continue
+			}
 
 			cidOffer, err := offer.GenerateSubCIDOffer(pieceCID)
 			if err != nil {
 				continue
 			}
 
-			subOffers[i] = *cidOffer
+			subOffers = append(subOffers, *cidOffer)
+			fundedPaymentChannel = append(fundedPaymentChannel, true)
 		}
+		found := len(subOffers) > 0
 
 		// Construct response
 		response, err = fcrmessages.EncodeClientStandardDiscoverOfferResponse(pieceCID, nonce, found, subOffers, fundedPaymentChannel, false, "")
diff --git a/gateway/internal/api/gatewayapi/dht_discover_handler_v2.go b/gateway/internal/api/gatewayapi/dht_discover_handler_v2.go
index 7226c8f..2b6a782 100644
--- a/gateway/internal/api/gatewayapi/dht_discover_handler_v2.go
+++ b/gateway/internal/api/gatewayapi/dht_discover_handler_v2.go
@@ -81,7 +81,7 @@ func HandleGatewayDHTDiscoverRequestV2(_ *fcrp2pserver.FCRServerReader, writer *
 		// not good - payment required
 		logging.Error("Insufficient Funds, received " + amount.String() + ", expected: " + c.Settings.SearchPrice.String())
 		// Construct response with payment required
-		response, encodingErr = fcrmessages.EncodeGatewayDHTDiscoverResponseV2(pieceCID, nonce, exists, subCIDOfferDigests, fundedPaymentChannel, true, paymentChannelAddress)
+		response, encodingErr = fcrmessages.EncodeGatewayDHTDiscoverResponseV2(pieceCID, nonce, exists, nil, nil, true, paymentChannelAddress)
 	} else {
 		// all good - Construct response
 		response, encodingErr = fcrmessages.EncodeGatewayDHTDiscoverResponseV2(pieceCID, nonce, exists, subCIDOfferDigests, fundedPaymentChannel, false, "")
diff --git a/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go b/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
index 4dc3451..86138db 100644
--- a/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
+++ b/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
@@ -62,30 +62,33 @@ func HandleGatewayDHTOfferRequest(_ *fcrp2pserver.FCRServerReader, writer *fcrp2
 	}
 
 	lenOffers := big.NewInt(int64(len(offerDigests)))
-	expectedAmount := c.Settings.OfferPrice.Mul(c.Settings.OfferPrice, lenOffers)
+	expectedAmount := new(big.Int).Mul(c.Settings.OfferPrice, lenOffers)
 
-	subOffers := make([]cidoffer.SubCIDOffer, len(offerDigests))
-	fundedPaymentChannel := make([]bool, len(offerDigests))
-	const found = true
-
-	for i, digest := range offerDigests {
-		d := cidoffer.DecodeMessageDigest(digest)
-		offer, exist := c.OffersMgr.GetOfferByDigest(d)
-		fundedPaymentChannel[i] = exist
-
-		cidOffer, err := offer.GenerateSubCIDOffer(pieceCID)
-		if err != nil {
-			continue
-		}
-
-		subOffers[i] = *cidOffer
-	}
 	var response *fcrmessages.FCRMessage
 	var encodingErr error
 	if amount.Cmp(expectedAmount) < 0 {
 		logging.Error("Insufficient Funds, received " + amount.String() + ", expected: " + expectedAmount.String())
-		response, encodingErr = fcrmessages.EncodeGatewayDHTDiscoverOfferResponse(pieceCID, nonce, found, subOffers, fundedPaymentChannel, true, paymentChannelAddress)
+		response, encodingErr = fcrmessages.EncodeGatewayDHTDiscoverOfferResponse(pieceCID, nonce, false, nil, nil, true, paymentChannelAddress)
 	} else {
+		subOffers := make([]cidoffer.SubCIDOffer, 0)
+		fundedPaymentChannel := make([]bool, 0)
+
+		for _, digest := range offerDigests {
+			d := cidoffer.DecodeMessageDigest(digest)
+			offer, exist := c.OffersMgr.GetOfferByDigest(d)
+			if !exist {
+				continue
+			}
+
+			cidOffer, err := offer.GenerateSubCIDOffer(pieceCID)
+			if err != nil {
+				continue
+			}
+
+			subOffers = append(subOffers, *cidOffer)
+			fundedPaymentChannel = append(fundedPaymentChannel, true)
+		}
+		found := len(subOffers) > 0
 		// Construct response
 		response, encodingErr = fcrmessages.EncodeGatewayDHTDiscoverOfferResponse(pieceCID, nonce, found, subOffers, fundedPaymentChannel, false, "")
 	}
-- 
2.43.0


From e299a3f8fd488723e1064d4596c3d9122fb0c415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:03 +0000
Subject: [PATCH 30/34] fix: gateways paid other gateways for requests nobody
 paid for

---
 gateway/internal/api/clientapi/dht_discover_handler_v2.go    | 1 +
 gateway/internal/api/clientapi/dht_discover_offer_handler.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/gateway/internal/api/clientapi/dht_discover_handler_v2.go b/gateway/internal/api/clientapi/dht_discover_handler_v2.go
index 3930f07..159801d 100644
--- a/gateway/internal/api/clientapi/dht_discover_handler_v2.go
+++ b/gateway/internal/api/clientapi/dht_discover_handler_v2.go
@@ -71,6 +71,7 @@ func HandleClientDHTCIDDiscoverRequestV2(w rest.ResponseWriter, request *fcrmess
 		s := "Insufficient Funds, received " + amount.String() + ", expected: " + expectedAmount.String()
 		logging.Error(s)
 		rest.Error(w, s, http.StatusInternalServerError)
+		return
 	}
 
 	// Construct response
diff --git a/gateway/internal/api/clientapi/dht_discover_offer_handler.go b/gateway/internal/api/clientapi/dht_discover_offer_handler.go
index 120961c..7f45932 100644
--- a/gateway/internal/api/clientapi/dht_discover_offer_handler.go
+++ b/gateway/internal/api/clientapi/dht_discover_offer_handler.go
@@ -58,6 +58,7 @@ func HandleClientDHTDiscoverOfferRequest(w rest.ResponseWriter, request *fcrmess
 		s := "Insufficient Funds, received " + amount.String() + ", expected: " + expectedAmt.String()
 		logging.Error(s)
 		rest.Error(w, s, http.StatusInternalServerError)
+		return
 	}
 
 	contactedGateways := make([]nodeid.NodeID, 0)
-- 
2.43.0


From cf41d37e2feaaad19cef2c4e03fbfd2c02f9b80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:05 +0000
Subject: [PATCH 31/34] fix: paid distributed searches paid wrong amounts and
 failed for all because of one gateway

---
 .../api/clientapi/dht_discover_handler_v2.go  | 20 ++++-----
 .../clientapi/dht_discover_offer_handler.go   | 41 ++++++++++---------
 2 files changed, 28 insertions(+), 33 deletions(-)

diff --git a/gateway/internal/api/clientapi/dht_discover_handler_v2.go b/gateway/internal/api/clientapi/dht_discover_handler_v2.go
index 159801d..2ed8dcb 100644
--- a/gateway/internal/api/clientapi/dht_discover_handler_v2.go
+++ b/gateway/internal/api/clientapi/dht_discover_handler_v2.go
@@ -92,20 +92,14 @@ func HandleClientDHTCIDDiscoverRequestV2(w rest.ResponseWriter, request *fcrmess
 		// Pay this gateway
 		var needTopup bool
 		paymentChannelAddress, voucher, needTopup, err = c.PaymentMgr.Pay(gw.GetAddress(), 0, c.Settings.SearchPrice)
-		if err != nil {
-			s := "Fail to pay recipient."
-			logging.Error(s + err.Error())
-			rest.Error(w, s, http.StatusBadRequest)
-			return
-		}
-		if needTopup {
+		if err == nil && needTopup {
 			paymentChannelAddress, voucher, err = topupAndPay(c, gw.GetAddress(), defaultPaymentLane, c.Settings.SearchPrice)
-			if err != nil {
-				s := "Internal error: Failure to topup the gateway: " + gw.GetAddress()
-				logging.Error(s + err.Error())
-				rest.Error(w, s, http.StatusInternalServerError)
-				return
-			}
+		}
+		if err != nil {
+			// The others may still have the offers
+			logging.Error("Fail to pay the gateway %s: %s", gw.GetAddress(), err.Error())
+			unContactable = append(unContactable, *id)
+			continue
 		}
 		res, err := c.P2PServer.RequestGatewayFromGateway(id, fcrmessages.GatewayDHTDiscoverRequestV2Type, cid, id, paymentChannelAddress, voucher)
 		if err != nil {
diff --git a/gateway/internal/api/clientapi/dht_discover_offer_handler.go b/gateway/internal/api/clientapi/dht_discover_offer_handler.go
index 7f45932..bb32d72 100644
--- a/gateway/internal/api/clientapi/dht_discover_offer_handler.go
+++ b/gateway/internal/api/clientapi/dht_discover_offer_handler.go
@@ -40,6 +40,13 @@ func HandleClientDHTDiscoverOfferRequest(w rest.ResponseWriter, request *fcrmess
 		return
 	}
 
+	if len(allGatewaysOfferDigests) != len(targetGatewayIDs) {
+		s := "Offer digests and gateways do not have the same length."
+		logging.Error(s)
+		rest.Error(w, s, http.StatusBadRequest)
+		return
+	}
+
 	// Check amount
 	amount, err := c.PaymentMgr.Receive(paymentChannel, voucher)
 	if err != nil {
@@ -64,32 +71,26 @@ func HandleClientDHTDiscoverOfferRequest(w rest.ResponseWriter, request *fcrmess
 	contactedGateways := make([]nodeid.NodeID, 0)
 	contactedResp := make([]fcrmessages.FCRMessage, 0)
 	unContactable := make([]nodeid.NodeID, 0)
-	for idx, targetGatewayID := range targetGatewayIDs {
+	for idx := range targetGatewayIDs {
+		targetGatewayID := targetGatewayIDs[idx]
 		thisGatewayOfferDigests := allGatewaysOfferDigests[idx]
 		targetGateway := c.RegisterMgr.GetGateway(&targetGatewayID)
+		if targetGateway == nil {
+			logging.Error("Gateway information not found for %s.", targetGatewayID.ToString())
+			unContactable = append(unContactable, targetGatewayID)
+			continue
+		}
 		// Pay this gateway
 		toPay := new(big.Int).Mul(big.NewInt(int64(len(thisGatewayOfferDigests))), c.Settings.OfferPrice)
 		paychAddr, voucher, topup, err := c.PaymentMgr.Pay(targetGateway.GetAddress(), 0, toPay)
-		if err != nil {
-			s := "Fail to pay recipient."
-			logging.Error(s + err.Error())
-			rest.Error(w, s, http.StatusBadRequest)
-			return
+		if err == nil && topup {
+			paychAddr, voucher, err = topupAndPay(c, targetGateway.GetAddress(), defaultPaymentLane, toPay)
 		}
-		if topup {
-			if err := c.PaymentMgr.Topup(targetGateway.GetAddress(), c.Settings.TopupAmount); err != nil {
-				s := "Fail to top up."
-				logging.Error(s + err.Error())
-				rest.Error(w, s, http.StatusBadRequest)
-				return
-			}
-			paychAddr, voucher, topup, err = c.PaymentMgr.Pay(targetGateway.GetAddress(), 0, c.Settings.SearchPrice)
-			if err != nil {
-				s := "Fail to pay recipient."
-				logging.Error(s + err.Error())
-				rest.Error(w, s, http.StatusBadRequest)
-				return
-			}
+		if err != nil {
+			// The others may still have the offers
+			logging.Error("Fail to pay the gateway %s: %s", targetGateway.GetAddress(), err.Error())
+			unContactable = append(unContactable, targetGatewayID)
+			continue
 		}
 		// using index from one collection to access another; create a struct?
 		res, err := c.P2PServer.RequestGatewayFromGateway(&targetGatewayID, fcrmessages.GatewayDHTDiscoverOfferRequestType, cid, &targetGatewayID, nonce, thisGatewayOfferDigests, paychAddr, voucher)
-- 
2.43.0


From c9a6867c41cf9308537b9f5190956c21daae819f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:20 +0000
Subject: [PATCH 32/34] fix: paid client searches ignored the configured price,
 paid for nothing found and hid errors

---
 client/pkg/fcrclient/filecoin_retrieval_client.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index 56efd11..d002e04 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -428,7 +428,7 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscoveryV2(contentID *cid.Conten
 		return nil, errors.New("given gatewayID is not in active nodes map")
 	}
 
-	initialRequestPaymentAmount := new(big.Int).Mul(big.NewInt(numDHT), big.NewInt(defaultSearchPrice))
+	initialRequestPaymentAmount := new(big.Int).Mul(big.NewInt(numDHT), c.Settings.searchPrice)
 	paymentChannel, voucher, needTopup, err := c.PaymentMgr().Pay(entryGateway.GetAddress(), defaultPaymentLane, initialRequestPaymentAmount)
 	if err != nil {
 		return nil, fmt.Errorf("Unable to make payment for initial DHT offers discovery, error: %s ", err.Error())
@@ -450,7 +450,7 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscoveryV2(contentID *cid.Conten
 		return nil, fmt.Errorf("error in requesting dht discovery: %s", discoverErr.Error())
 	}
 	if paymentRequired {
-		paymentChannel, voucher, err = c.topupAndPay(paymentChannel, defaultPaymentLane, c.Settings.searchPrice)
+		paymentChannel, voucher, err = c.topupAndPay(entryGateway.GetAddress(), defaultPaymentLane, initialRequestPaymentAmount)
 		if err != nil {
 			return nil, fmt.Errorf("topup error while requesting DHT discovery: %s", err.Error())
 		}
@@ -526,7 +526,8 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscoveryV2(contentID *cid.Conten
 		unit += len(entry)
 	}
 	if unit == 0 {
-		logging.Warn("have zero offer digests from all gateways, about to pay amount of 0")
+		// No offer found
+		return offersMap, nil
 	}
 	offerRequestPaymentAmount := new(big.Int).Mul(big.NewInt(int64(unit)), c.Settings.offerPrice)
 
@@ -711,6 +712,9 @@ func (c *FilecoinRetrievalClient) FindOffersStandardDiscoveryV2(contentID *cid.C
 	}
 
 	offers, err := c.clientApi.RequestStandardDiscoverOffer(gw, contentID, rand.Int63(), time.Now().Unix()+c.Settings.EstablishmentTTL(), offerDigests, paychAddr, voucher)
+	if err != nil {
+		return cidOffers, fmt.Errorf("error getting offers from gateway: %s;  error: %s", gw.GetNodeID(), err.Error())
+	}
 
 	validOffers := c.verifyOffers(contentID, offers)
 	if len(validOffers) > maxOffers {
-- 
2.43.0


From fcb39bce42cdf8d75c0f17534243e6aab07e981f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:55 +0000
Subject: [PATCH 33/34] fix: the first request to a peer that had restarted was
 lost

---
 common/pkg/fcrp2pserver/pool.go      |  1 +
 common/pkg/fcrp2pserver/server.go    | 10 +++++++---
 common/pkg/fcrp2pserver/tcp_comms.go | 11 +++++++++--
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/common/pkg/fcrp2pserver/pool.go b/common/pkg/fcrp2pserver/pool.go
index 3b43fd5..18edd79 100644
--- a/common/pkg/fcrp2pserver/pool.go
+++ b/common/pkg/fcrp2pserver/pool.go
@@ -45,6 +45,7 @@ type communicationChannel struct {
 	lock   sync.RWMutex
 	conn   net.Conn
 	failed bool
+	served bool
 }
 
 // communicationPool holds the node address map and active node connections.
diff --git a/common/pkg/fcrp2pserver/server.go b/common/pkg/fcrp2pserver/server.go
index 950dbeb..fcf13dd 100644
--- a/common/pkg/fcrp2pserver/server.go
+++ b/common/pkg/fcrp2pserver/server.go
@@ -207,7 +207,7 @@ func (s *FCRP2PServer) request(
 		}
 		response, used, err := comm.use(requester, args...)
 		if !used {
-			// The connection failed while this thread waited for it, get another one.
+			// The connection was closed, get another one.
 			removeConn(id, comm)
 			continue
 		}
@@ -220,7 +220,8 @@ func (s *FCRP2PServer) request(
 	}
 }
 
-// use calls a requester on the connection, it returns false if the connection has failed before.
+// use calls a requester on the connection, it returns false if the connection has failed before,
+// or turns out to have been closed by the peer since the last request.
 // After an error the answer may still be on its way, so nobody may use the connection any more.
 func (comm *communicationChannel) use(
 	requester func(reader *FCRServerReader, writer *FCRServerWriter, args ...interface{}) (*fcrmessages.FCRMessage, error),
@@ -236,9 +237,12 @@ func (comm *communicationChannel) use(
 	response, err := requester(reader, writer, args...)
 	if err != nil {
 		comm.failed = true
+		used := !(comm.served && isClosedError(err))
 		if closeErr := comm.conn.Close(); closeErr != nil {
 			logging.Error("P2P Server has error closing connection: %s", closeErr.Error())
 		}
+		return response, used, err
 	}
-	return response, true, err
+	comm.served = true
+	return response, true, nil
 }
diff --git a/common/pkg/fcrp2pserver/tcp_comms.go b/common/pkg/fcrp2pserver/tcp_comms.go
index 41b80a4..be54d63 100644
--- a/common/pkg/fcrp2pserver/tcp_comms.go
+++ b/common/pkg/fcrp2pserver/tcp_comms.go
@@ -19,9 +19,11 @@ import (
 	"bufio"
 	"encoding/binary"
 	"errors"
+	"fmt"
 	"io"
 	"io/ioutil"
 	"net"
+	"syscall"
 	"time"
 
 	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
@@ -33,6 +35,11 @@ func isTimeoutError(err error) bool {
 	return ok && neterr.Timeout()
 }
 
+// isClosedError checks if the given error tells that the peer has closed the connection, before it answered anything
+func isClosedError(err error) bool {
+	return errors.Is(err, io.EOF) || errors.Is(err, syscall.EPIPE) || errors.Is(err, syscall.ECONNRESET)
+}
+
 // readTCPMessage read the tcp message from a given connection.
 // A timeout error is only returned if nothing has been read from the connection.
 func readTCPMessage(conn net.Conn, timeout time.Duration) (*fcrmessages.FCRMessage, error) {
@@ -54,7 +61,7 @@ func readTCPMessage(conn net.Conn, timeout time.Duration) (*fcrmessages.FCRMessa
 		if isTimeoutError(err) {
 			return nil, errors.New("timeout in the middle of a message")
 		}
-		return nil, err
+		return nil, fmt.Errorf("connection broken in the middle of a message: %s", err.Error())
 	}
 	// Set timeout
 	if err := conn.SetDeadline(time.Now().Add(timeout)); err != nil {
@@ -67,7 +74,7 @@ func readTCPMessage(conn net.Conn, timeout time.Duration) (*fcrmessages.FCRMessa
 		if isTimeoutError(err) {
 			return nil, errors.New("timeout in the middle of a message")
 		}
-		return nil, err
+		return nil, fmt.Errorf("connection broken in the middle of a message: %s", err.Error())
 	}
 	if int64(len(data)) != size {
 		return nil, io.ErrUnexpectedEOF
-- 
2.43.0


From 8a1553f3842f56ff9a9995dc8a8d5133a5d61dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:56 +0000
Subject: [PATCH 34/34] fix: concurrent top-ups of one wallet took the same
 nonce

---
 common/pkg/fcrpaymentmgr/payment_manager.go | 35 ++++++++++++---------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/common/pkg/fcrpaymentmgr/payment_manager.go b/common/pkg/fcrpaymentmgr/payment_manager.go
index 46a4130..66c4fe8 100644
--- a/common/pkg/fcrpaymentmgr/payment_manager.go
+++ b/common/pkg/fcrpaymentmgr/payment_manager.go
@@ -64,6 +64,8 @@ type FCRPaymentMgr struct {
 	// map[paych addr] -> channel state
 	inboundChs     map[string]*channelState
 	inboundChsLock sync.RWMutex
+	// pushLock makes sure that no two messages are given the same nonce
+	pushLock sync.Mutex
 }
 
 // errNotInitialised is returned by a node that has been given no wallet
@@ -155,15 +157,9 @@ func (mgr *FCRPaymentMgr) Topup(recipient string, amount *big.Int) error {
 			logging.Debug("error in Topup Create %s", err.Error())
 			return err
 		}
-		signedMsg, err := fillMsg(mgr.privKey, api, msg)
-		if err != nil {
-			logging.Debug("error in Topup fillMsg: %s", err.Error())
-			return err
-		}
 		// Send request to lotus
-		contentID, err := api.MpoolPush(context.Background(), signedMsg)
+		contentID, err := mgr.pushMsg(api, msg)
 		if err != nil {
-			logging.Debug("error in Topup MpoolPush: %s", err.Error())
 			return err
 		}
 		receipt := waitReceipt(&contentID, api)
@@ -198,15 +194,9 @@ func (mgr *FCRPaymentMgr) Topup(recipient string, amount *big.Int) error {
 			Value:  lotusbig.NewFromGo(amount),
 			Method: 0,
 		}
-		signedMsg, err := fillMsg(mgr.privKey, api, msg)
-		if err != nil {
-			logging.Debug("error in Topup fillMsg: %s", err.Error())
-			return err
-		}
 		// Send request to lotus
-		contentID, err := api.MpoolPush(context.Background(), signedMsg)
+		contentID, err := mgr.pushMsg(api, msg)
 		if err != nil {
-			logging.Debug("error in Topup MpoolPush: %s", err.Error())
 			return err
 		}
 		receipt := waitReceipt(&contentID, api)
@@ -440,6 +430,23 @@ func encodedVoucher(sv *paych.SignedVoucher) (string, error) {
 	return base64.RawURLEncoding.EncodeToString(buf.Bytes()), nil
 }
 
+// pushMsg will fill, sign and send a given message
+func (mgr *FCRPaymentMgr) pushMsg(api *apistruct.FullNodeStruct, msg *types.Message) (cid.Cid, error) {
+	mgr.pushLock.Lock()
+	defer mgr.pushLock.Unlock()
+	signedMsg, err := fillMsg(mgr.privKey, api, msg)
+	if err != nil {
+		logging.Debug("error in Topup fillMsg: %s", err.Error())
+		return cid.Undef, err
+	}
+	contentID, err := api.MpoolPush(context.Background(), signedMsg)
+	if err != nil {
+		logging.Debug("error in Topup MpoolPush: %s", err.Error())
+		return cid.Undef, err
+	}
+	return contentID, nil
+}
+
 // fillMsg will fill the gas and sign a given message
 func fillMsg(privKey []byte, api *apistruct.FullNodeStruct, msg *types.Message) (*types.SignedMessage, error) {
 	//TODO: pass context to here?
-- 
2.43.0

