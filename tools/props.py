#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property list)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, state, mech, observe, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=hook)))

p("C01", "Offers a gateway acknowledged survive crashes, whole and unaltered",
  "Once a gateway's offer store has accepted an offer, then after any crash, power failure and restart every look-up for every content identifier the offer covers still returns that offer with the same signed content, until it expires. "
  "An offer whose storing was interrupted or failed is afterwards either findable under all of its identifiers or under none, and look-ups never return an offer that does not cover the identifier, the same offer twice, or content that was never stored. "
  "Store and look-up operations that run concurrently all complete: none blocks or fails because of the others once the disk works.",
  ["crash_points", "fault_sequences", "schedules", "histories"],
  "for every set of offers, order and overlap of stores and look-ups, every process kill or power loss (with lost or torn unsynced writes), disk error or full disk at any point, and any number of restarts",
  "the store's tests insert a few offers into a fresh database on a healthy disk from one goroutine and never reopen it",
  ["common/pkg/offermgr/offer_manager.go"],
  [("offer and offer_cid tables", "the offers a gateway sells from", "common/pkg/offermgr/offer_manager.go")],
  [("sqlite schema and insert sequence", "common/pkg/offermgr/offer_manager.go:insertOffer")],
  ["AddGroupOffer / AddDHTOffer / GetOffers results", "database content after reopen"])

p("C02", "Expired offers are never served; unexpired ones always are",
  "A look-up in a gateway's offer store never returns an offer whose expiry time, as judged by the gateway's own clock, passed before the look-up started, and always returns every stored matching offer that is still unexpired when the look-up ends. "
  "This holds whatever time zone the machine is set to and however its clock advances or jumps between operations.",
  ["histories", "configurations", "fault_sequences"],
  "for every expiry time, every time at which look-ups happen, every clock jump, and every time zone of the host",
  "tests use expiries years away (or already past) in the one time zone of the build machine",
  ["common/pkg/offermgr/offer_manager.go", "common/pkg/cidoffer/cidoffer.go"],
  [("expiry column", "unix seconds after which the offer is void", "common/pkg/offermgr/offer_manager.go")],
  [("expiry condition in the select", "common/pkg/offermgr/offer_manager.go")],
  ["GetOffers result"])

p("C03", "Gateways hold only authentic offers of registered providers",
  "Everything a gateway's offer store contains was signed, over exactly the content stored, with the key that the provider named in it registered for signing, and was sent by that same provider. "
  "Publish requests that are malformed, signed by anyone else, altered on the way or for unknown providers are refused without being stored, and never stop the gateway from accepting honest ones.",
  ["inputs", "fault_sequences", "histories"],
  "for every mixture of honest and forged, altered, replayed or malformed publish messages, from any number of senders, over a faulty network",
  "handler tests send one well-formed message each against stubs",
  ["gateway/internal/api/providerapi/publish_group_offer_handler.go", "gateway/internal/api/providerapi/publish_dht_offer_handler.go"],
  [("offer store", "offers on sale", "common/pkg/offermgr/offer_manager.go")],
  [("message and offer signature checks", "gateway/internal/api/providerapi")],
  ["gateway store content", "client discovery answers", "acknowledgements"])

p("C04", "Clients accept only offers that are genuine and for the content they asked",
  "Whatever gateways answer, each offer a client's find-offer calls hand to the application is for the requested content, was signed by the registered provider it names and proves that content to be part of what was signed. "
  "No answer, however wrong, makes the client crash or makes it discard genuine offers delivered by other gateways in the same call.",
  ["inputs", "schedules", "fault_sequences"],
  "for every behaviour of the gateways contacted (honest, silent, forged, replayed, swapped or mutated answers) and every network fault",
  "client tests talk to one stub returning one canned honest answer",
  ["client/pkg/fcrclient/filecoin_retrieval_client.go", "client/pkg/api/clientapi"],
  [], [("offer verification", "client/pkg/fcrclient/filecoin_retrieval_client.go")],
  ["return values of the client's find-offers calls"])

p("C05", "Published DHT offers reach the responsible gateways, and acks are truthful",
  "When a provider is told to publish single-content offers and all nodes are reachable, every one of the gateways nearest to the content's identifier that the register lists ends up able to answer for that content, each with that content's own offer. "
  "The provider presents to a client an acknowledgement by a gateway for an offer only if that gateway signed it for exactly that offer and stored the offer; whatever a gateway acknowledged, single or group offer, it holds, also after its disk failed for a while; nodes may be given new keys meanwhile; and while it runs it never stops presenting one for a content and gateway for which it received one.",
  ["schedules", "histories", "fault_sequences"],
  "for every set of registered gateways, every batch of offers, and every delivery order, delay, loss or gateway crash while publishing",
  "handler tests use a single stub gateway and one offer",
  ["provider/internal/api/adminapi/publish_dht_offer_handler.go", "provider/internal/api/providerapi/publish_dht_offer_requester.go", "gateway/internal/api/providerapi/publish_dht_offer_handler.go"],
  [("acknowledgement map", "proof per content and gateway", "provider/internal/core/core.go")],
  [("nearest gateway selection", "common/pkg/fcrregistermgr/register_manager.go")],
  ["gateway store content", "client's acknowledgement query"])

p("C06", "A gateway that joins later collects the existing offers for its range",
  "When an operator makes a running gateway, in a network of at least three, fetch the existing single-content offers, and providers are reachable, it afterwards holds every unexpired such offer that the reachable providers published for the identifier range it is responsible for, each intact and each acknowledged to its provider (a provider hands out at most 500 offers in one fetch). "
  "The fetch completes and works again when repeated, whichever gateways were known to the provider before.",
  ["histories", "configurations", "schedules"],
  "for every set of providers, offers and gateways, every order of joining and publishing, and repeated or concurrent fetches",
  "the list handlers are tested with a stub peer and an empty acknowledgement map",
  ["gateway/internal/api/adminapi/list_dht_offer_handler.go", "gateway/internal/api/gatewayapi/list_dht_offer_requester.go", "provider/internal/api/gatewayapi/list_dht_offer_handler.go"],
  [("acknowledgement map", "proof per content and gateway", "provider/internal/core/core.go")],
  [("range computation and paging", "gateway/internal/api/gatewayapi/list_dht_offer_requester.go")],
  ["gateway store content after the operator's command"])

p("C07", "A payment voucher is credited at most once and never beyond its channel",
  "For a payee, the sum of all amounts it ever credits for vouchers drawn on one payment channel is never more than the channel's on-chain funds, nor more than the sum over lanes of the largest valid voucher amount presented, whatever vouchers arrive, however often and from however many threads. "
  "Each voucher presented in order on its lane is credited exactly its increase over the previous one; a voucher that is unsigned, mis-signed, stale, for another channel or another payee is refused and leaves all accounting as it was.",
  ["schedules", "histories", "inputs"],
  "for every number of concurrently received vouchers, every order, duplication or replay, and any mix of valid and invalid ones",
  "tests present a few vouchers one after another from one goroutine",
  ["common/pkg/fcrpaymentmgr/payment_manager.go"],
  [("inbound channel states", "per channel: balance, redeemed amount, lane states", "common/pkg/fcrpaymentmgr/payment_manager.go")],
  [("lane and channel locking in Receive", "common/pkg/fcrpaymentmgr/payment_manager.go:Receive")],
  ["amounts returned by Receive"])

p("C08", "A payer never overspends and each voucher it issues is worth what it meant",
  "Concurrent payments by one payer yield vouchers whose sequence numbers on each lane are all different and whose amounts rise by exactly the amount of each payment, and the vouchers on a channel never promise more than was deposited in it; a payment that would is refused with a demand for top-up and changes nothing. "
  "Top-ups to a recipient all go to one channel and raise what can be paid by exactly the deposited amount, at most once per chain transaction, and never alter the caller's own figures. Top-ups to different recipients at once do not fail because of each other.",
  ["schedules", "histories", "fault_sequences"],
  "for every interleaving of payments and top-ups to any number of recipients and lanes, with chain calls that are slow or fail",
  "tests pay sequentially from one goroutine with an instantly succeeding chain stub",
  ["common/pkg/fcrpaymentmgr/payment_manager.go"],
  [("outbound channel states", "per recipient: channel, balance, redeemed, lanes", "common/pkg/fcrpaymentmgr/payment_manager.go")],
  [("locking in Pay and Topup", "common/pkg/fcrpaymentmgr/payment_manager.go")],
  ["vouchers returned by Pay", "messages pushed to the chain"])

p("C09", "Paid services are rendered only against full payment, at a stable price",
  "A gateway answers a paid request with the paid-for result only if the voucher in that request credited it at least its configured price for what was asked, and it never pays other gateways on behalf of a request that was not fully paid. "
  "A client that pays the price is served the whole result, the client library pays exactly the price it is set to, and the price asked for the same request never changes unless the operator changes it.",
  ["histories", "schedules", "inputs"],
  "for every sequence and interleaving of fully paid, underpaid, unpaid and replayed requests of every paid kind",
  "handler tests exercise single requests with a stubbed payment manager",
  ["gateway/internal/api/clientapi", "gateway/internal/api/gatewayapi"],
  [("configured prices", "search price and offer price", "gateway/internal/util/settings/settings.go")],
  [("comparison of received amount with the price", "gateway/internal/api/clientapi/*_handler*.go")],
  ["responses", "credits in the payment channel", "outgoing vouchers"])

p("C10", "Every peer-to-peer answer belongs to the request that received it",
  "When nodes exchange messages over the peer-to-peer layer, a requester that gets an answer gets the one its peer produced for that very request, complete and unaltered, however many requests share the pooled connections and whatever delays, timeouts, resets or fragmentation occurred before. "
  "A request that cannot be completed reports an error to its caller.",
  ["schedules", "fault_sequences"],
  "for every number of concurrent requesters and peers, and every pattern of latency, fragmentation, stall, timeout, reset and peer restart",
  "the peer-to-peer tests send single small messages between two fresh servers on the loopback",
  ["common/pkg/fcrp2pserver/server.go", "common/pkg/fcrp2pserver/pool.go", "common/pkg/fcrp2pserver/tcp_comms.go"],
  [("connection pool", "reusable connections per peer", "common/pkg/fcrp2pserver/pool.go")],
  [("length-prefixed framing and per-connection lock", "common/pkg/fcrp2pserver")],
  ["values returned by requesters"])

p("C11", "Peer-to-peer communication recovers once faults stop",
  "After network faults and peer restarts have ceased, every request between two running nodes is answered within a bounded number of attempts and bounded time, with no lasting loss of peers, threads or connections. "
  "No failure of one connection prevents requests to other peers.",
  ["schedules", "fault_sequences", "crash_points"],
  "for every history of faults followed by a quiet period",
  "no test injects a connection failure and then continues",
  ["common/pkg/fcrp2pserver/server.go", "common/pkg/fcrp2pserver/pool.go"],
  [("connection pool", "reusable connections per peer", "common/pkg/fcrp2pserver/pool.go")],
  [("removal of failed connections and redial", "common/pkg/fcrp2pserver/pool.go")],
  ["success of requests after the faults stop"])

p("C12", "No bytes from the network can crash a node or disturb its other peers",
  "Whatever bytes strangers send to a gateway's or provider's open ports - garbage, truncated, oversized or well-formed messages with any field missing or nonsensical - and however slowly, the process stays up and keeps answering well-behaved peers correctly. "
  "Such a sender gets an error or a closed connection.",
  ["inputs", "fault_sequences", "schedules"],
  "for every byte stream and every message type on every port, concurrently with honest traffic, over faulty connections",
  "tests send only a few hand-made bad messages to single handlers",
  ["common/pkg/fcrp2pserver/server.go", "common/pkg/fcrrestserver/server.go", "common/pkg/fcrmessages", "gateway/internal/api", "provider/internal/api"],
  [], [("message decoding and handler dispatch", "common/pkg/fcrp2pserver/server.go:handleIncomingConnection")],
  ["process liveness", "answers to honest requests"])

p("C13", "The view of registered nodes is fresh after a refresh and always authentic",
  "After a caller's forced refresh completes, or two refresh periods after a change, the local view of gateways and providers contains every node that stayed registered, with its current record, provided the register answered; when the register fails the previous view stays usable. "
  "The view never contains what the register did not list, a look-up by id never returns another node's record, and a gateway present in the register is found by id even if the local view has not been refreshed yet.",
  ["schedules", "histories", "fault_sequences"],
  "for every interleaving of registrations, removals, refreshes and look-ups by several threads, with register outages and slow or malformed answers",
  "tests refresh once against a static stub register",
  ["common/pkg/fcrregistermgr/register_manager.go"],
  [("registered nodes maps and ring", "local copy of the register", "common/pkg/fcrregistermgr/register_manager.go")],
  [("periodic and forced refresh", "common/pkg/fcrregistermgr/register_manager.go")],
  ["GetGateway / GetProvider / GetAll results"])

p("C14", "Nearest-gateway look-ups are exact on a circular identifier space",
  "For any set of known gateways, asking for the gateways nearest to a content identifier returns exactly those with the smallest circular distance, without duplicates and never more than requested, and the responsible range of a gateway is exactly the span of its neighbours. "
  "This remains true while other threads register, remove and look up gateways: each answer is exact for some set of gateways known between the call and its return.",
  ["schedules", "histories"],
  "for every history of insertions and removals of identifiers, every queried identifier and count, and every interleaving with look-ups by other threads",
  "the ring's tests check a few fixed rings, and never concurrently",
  ["common/pkg/dhtring/dhtring.go", "common/pkg/fcrregistermgr/register_manager.go"],
  [("ring", "sorted circular list of gateway ids", "common/pkg/dhtring/dhtring.go")],
  [("ring search", "common/pkg/dhtring/dhtring.go")],
  ["GetGatewaysNearCID, GetGatewayCIDRange results"])

p("C15", "A provider's in-memory offer store is atomic under concurrency",
  "Concurrent adding, listing and looking up of offers in a provider's offer store behaves as if the operations happened one after another: nothing added is lost or duplicated, each look-up sees all and only what was added, and every offer comes back as it was when added. "
  "No interleaving stops the process or blocks an operation for ever.",
  ["schedules", "histories"],
  "for every interleaving of store operations issued by any number of threads over any identifiers",
  "tests call the store from one goroutine",
  ["common/pkg/fcroffermgr/offer_manager.go", "common/pkg/fcroffermgr/offer_storage.go", "common/pkg/dhtring/dhtring.go"],
  [("offer maps and ring", "all published offers", "common/pkg/fcroffermgr/offer_storage.go")],
  [("read-write locks", "common/pkg/fcroffermgr/offer_manager.go")],
  ["results of the offer manager's methods"])

p("C16", "Client reputation is an exact, bounded tally under concurrency",
  "A client's reputation always equals the outcome of applying, one at a time, all the events recorded for that client - the creation of its record once, at its first establishment, then each reward or penalty clamped to the allowed range - no matter how many threads record events for it. "
  "No event is lost or applied to another client, and no interleaving stops the process.",
  ["schedules", "histories"],
  "for every interleaving of events for any number of clients by any number of threads",
  "tests apply events sequentially",
  ["gateway/internal/reputation/reputation.go"],
  [("reputation map", "score per client", "gateway/internal/reputation/reputation.go")],
  [("mutex around the map", "gateway/internal/reputation/reputation.go")],
  ["reputation values returned"])

p("C17", "Random values drawn for nonces and keys never repeat under concurrency",
  "Values drawn from one random source by any number of threads are never handed out twice, never depend on how draws from threads interleave in a way that loses state, and differ after the source has been restarted or reseeded. "
  "Two sources never produce the same sequence unless they were given the same seed.",
  ["schedules", "histories"],
  "for every interleaving of draws, of any size, by any number of threads",
  "tests draw from one goroutine",
  ["common/pkg/fcrcrypto/prng.go"],
  [("PRNG state", "counter and key", "common/pkg/fcrcrypto/prng.go")],
  [("state update on each draw", "common/pkg/fcrcrypto/prng.go")],
  ["bytes and integers returned"])

p("C18", "The register acknowledges exactly what it stored, for each node separately",
  "When the register service reports success for adding or removing a gateway or provider, the change is in its store and every later query reflects it until another change of the same node; when the store failed, the service reports failure, keeps serving, and no other node's record is affected. "
  "Every listing contains exactly the nodes currently registered of the kind asked for.",
  ["schedules", "histories", "fault_sequences"],
  "for every interleaving of add, get, list and delete requests for any nodes, with failing, slow or disconnected storage at any point",
  "handler tests run against a mock store that never fails, one request at a time",
  ["register/internal/handlers/gateways_handler.go", "register/internal/handlers/providers_handler.go", "register/restapi/configure_register.go"],
  [("redis hashes", "one per node kind", "register/internal/handlers")],
  [("redis commands", "register/internal/handlers")],
  ["HTTP answers", "redis content"])

p("C19", "Starting, refreshing and stopping the register view never hangs",
  "Any number of threads may start, force-refresh, query and shut down the local view of the register in any order, and every call returns within bounded time, also while the register is slow or unreachable and while updates are being applied. "
  "After shut-down nothing keeps running in the background.",
  ["schedules", "fault_sequences"],
  "for every interleaving of life-cycle calls, queries and updates by any number of threads, with any register delay or outage",
  "tests start, refresh and shut down once, sequentially",
  ["common/pkg/fcrregistermgr/register_manager.go"],
  [("refresh and shutdown channels", "hand-over between callers and the update loop", "common/pkg/fcrregistermgr/register_manager.go")],
  [("channel protocol", "common/pkg/fcrregistermgr/register_manager.go")],
  ["return of each call", "live tasks after shutdown"])

p("C20", "The client contacts only gateways it was told to use, each once",
  "The gateways a client uses are exactly those the application added and that proved themselves, minus those removed, however additions, removals and searches overlap; none is listed twice, and a removed gateway is not contacted by searches started after the removal returned. "
  "Concurrent calls on one client never crash it or lose a gateway.",
  ["schedules", "histories", "fault_sequences"],
  "for every interleaving of add, remove, activate and search calls by any number of application threads, over a faulty network",
  "client tests call one method at a time",
  ["client/pkg/fcrclient/filecoin_retrieval_client.go"],
  [("gateways to use, active gateways", "the client's gateway sets", "client/pkg/fcrclient/filecoin_retrieval_client.go")],
  [("locks around the gateway maps", "client/pkg/fcrclient/filecoin_retrieval_client.go")],
  ["returned lists", "connections made"])

p("C21", "A session is only established with a gateway that answered this challenge",
  "A client treats a gateway as active only after that gateway answered the client's own fresh challenge, within its time-to-live, with a message signed by the key the gateway registered. "
  "Replayed, mirrored, altered, delayed or foreign answers never establish one.",
  ["inputs", "histories", "fault_sequences"],
  "for every answer any party may give at any time, including recorded answers of earlier establishments",
  "tests use a stub that answers correctly",
  ["client/pkg/fcrclient/filecoin_retrieval_client.go", "client/pkg/api/clientapi/establishment_requester.go", "gateway/internal/api/clientapi/establishment_handler.go"],
  [], [("challenge and signature verification", "client/pkg/api/clientapi/establishment_requester.go")],
  ["client's active gateways"])

p("C22", "A node initialised by its administrator becomes known and reachable",
  "When an administrator's initialisation of a gateway or provider and its registration report success, the register then lists that node with exactly the given identity, keys and addresses, and the node answers, with messages that verify under the registered key, to clients and peers that know the register. "
  "Initialisations that fail or are repeated never corrupt the record of another node.",
  ["histories", "fault_sequences"],
  "for every order of initialising nodes, with register outages and node restarts in between",
  "admin tests use stubbed nodes and registers",
  ["gateway-admin/pkg/fcrgatewayadmin/filecoin-gateway-admin.go", "provider-admin/pkg/fcrprovideradmin/filecoin_provider_admin.go", "gateway/internal/api/adminapi", "provider/internal/api/adminapi"],
  [], [("initialise-key exchange and registration", "gateway-admin, provider-admin")],
  ["register content", "verified answers from the node"])

p("C23", "Content published is content found, once the network is quiet",
  "In a deployment where all nodes run and can reach each other, after a provider's publish command succeeded a client that uses one of the gateways holding the offer finds every unexpired published offer for that content through the standard search, and through the distributed search from any gateway. "
  "Earlier faults, restarts of clients, or concurrent activity of others do not prevent it (paid searches through one gateway, which share its payment lane, one after the other).",
  ["histories", "schedules", "fault_sequences"],
  "for every deployment size, publication history and fault history followed by a quiet period",
  "unit tests run no multi-node deployment; the container-based integration tests run one scripted history",
  ["client/pkg/fcrclient/filecoin_retrieval_client.go", "gateway/internal/api", "provider/internal/api"],
  [], [("discovery protocol", "client, gateway, provider")],
  ["offers returned by the client"])

p("C24", "A provider lists exactly the offers it published, for the gateways asked",
  "A provider administrator's query for published offers returns exactly the offers published through that provider that the gateways asked about acknowledged (of all gateways when none is named), once for each such gateway and as they were published, including after failed or partial publications and during concurrent publishing. "
  "It never lists an offer that was not published nor omits one whose publication reached a reachable gateway asked about.",
  ["histories", "schedules", "fault_sequences"],
  "for every history of group and single-content publications with any mixture of reachable and unreachable gateways",
  "tests query a provider with stubbed state",
  ["provider/internal/api/adminapi/get_published_offer_handler.go", "provider/internal/api/adminapi/publish_group_offer_handler.go", "provider/internal/api/adminapi/publish_dht_offer_handler.go"],
  [("offer manager, node offer map", "what was published where", "provider/internal/core/core.go")],
  [("publication bookkeeping", "provider/internal/api/adminapi")],
  ["result of the administrator's query"])

p("C25", "Gateways serve only live, authentic requests, each with its own answer",
  "A gateway never serves a client's or gateway's discovery or establishment request whose lifetime was over by the gateway's own clock when it arrived, nor does a gateway or provider serve a request of a gateway that the registered gateway named in it did not sign: nothing is given out, charged or forwarded for it. "
  "Every live, authentic request that reaches a running node is answered, with the nonce, content and challenge of its own request and a signature that verifies under the node's registered key, however requests overlap, share connections, and clocks jump.",
  ["inputs", "schedules", "histories", "fault_sequences"],
  "for every mixture and overlap of live, late, forged, altered and replayed requests of all kinds, from clients and peers, and every jump of the nodes' clocks",
  "handler tests send one well-formed request to one handler with stubs for everything else",
  ["gateway/internal/api/clientapi", "gateway/internal/api/gatewayapi", "provider/internal/api/gatewayapi", "common/pkg/fcrmessages"],
  [], [("time-to-live checks", "gateway/internal/api/clientapi/*_handler.go, gateway/internal/api/gatewayapi"), ("signature checks against the register's view", "gateway/internal/api/gatewayapi, provider/internal/api/gatewayapi")],
  ["answers on the gateways' and providers' ports", "credit of the vouchers in refused requests", "requests reaching other gateways"])

p("C26", "A client pays only what its searches cost, whatever gateways answer",
  "A client's paid search pays each gateway exactly the configured price for what it asks, by a fresh voucher on the channel to that gateway; one call pays for at most one search and one retry after a demand for payment, and for at most as many offers as its caller's limit, all of them offers that the gateways' authentic answers listed. "
  "A standard search returns no more offers than that limit, and what the client deposits never exceeds what its payments need plus one top-up per demand. With honest gateways and a working chain every paid call returns the offers listed, up to the limit.",
  ["inputs", "schedules", "fault_sequences", "histories"],
  "for every answer gateways may give (greedy, forged, altered, repeated demands), every number of concurrent calls, limits and prices, and every delay or failure of the chain",
  "tests run each call once against a stub that answers correctly and a payment manager that always succeeds",
  ["client/pkg/fcrclient/filecoin_retrieval_client.go", "client/pkg/api/clientapi", "common/pkg/fcrpaymentmgr/payment_manager.go"],
  [("outbound channels", "what the client may still pay to each gateway", "common/pkg/fcrpaymentmgr/payment_manager.go")],
  [("pay, top up and retry", "client/pkg/fcrclient/filecoin_retrieval_client.go, client/pkg/api/clientapi"), ("limits of offers bought", "client/pkg/fcrclient/filecoin_retrieval_client.go")],
  ["vouchers in the client's requests", "deposits on the chain", "offers returned to the caller"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for q in P:
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
print(len(P))
