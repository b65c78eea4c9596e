#!/usr/bin/env python3
"""Writes MANIFEST.json: checks for the properties that have one, not_applicable for the others."""
import json, os
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = "deterministic simulation: seeded search over schedules and faults, real code under a simulator"
NOTE = {
 "C07": "Sampled: real payment manager threads under a seeded scheduler with a pre-emption point at every statement, a simulated chain with delays and errors; every history is checked against a sequential ledger (linearizability). Trusts the chain stub.",
 "C08": "Sampled: as C07 for the paying side; vouchers and refusals are checked against a sequential ledger, channels against the simulated chain. Trusts the chain stub.",
 "C13": "Sampled: the real register manager with several threads against a simulated register that stalls, fails and answers nonsense; every answer is judged against the recorded history of registrations. Trusts the register stub (the real one is in C18 and the cluster runs).",
 "C14": "Sampled: as C13; every nearest-gateway answer is compared with exact distances over the sets of gateways that could be known then; ranges are compared when the view is at rest. Exact ties in distance may go either way.",
 "C19": "Sampled: as C13, with starts and shut-downs from several threads; hangs show as dead-locks of the simulation or calls beyond a bound of simulated time, leaks as tasks left after the last shut-down.",
 "C10": "Sampled: real p2p servers on simulated nodes exchange harness messages whose answers are a function of request and peer; delays, resets, splits, stalls, partitions, crashes, strangers. Every answer is compared byte by byte; in runs or pairs without faults every request must be answered. Trusts the network stub (ordered, loss-free streams unless broken).",
 "C11": "Sampled: as C10; after faults stop every ordered pair of nodes must exchange requests within three attempts and bounded simulated time, and connections and threads are counted when all is quiet. With faults confined to one node requests among the others must all succeed.",
 "C12": "Sampled: as C10, with strangers that send garbage, oversized, truncated, trickled or broken messages while honest requests are judged; and whole deployments whose nodes get damaged requests of every kind on all ports and must still answer everybody.",
 "C16": "Sampled: the real reputation store under several threads, with a scheduling point before every statement and inside every read-modify-write statement; the recorded history must be linearizable against a tally of clamped events.",
 "C17": "Sampled: real random sources on simulated clocks that stand still or jump, with equal hardware addresses and a failing or repeating system source; draws of all sizes by several threads must never repeat, two sources with the same seed must agree in any interleaving of equal draws, kicks must reach every source.",
 "C18": "Sampled: the real service (routing, handlers, redis client) against an in-process store that answers errors, breaks connections, is slow or refuses, over a network that loses requests and answers, with crashes of the service; each node's history must be linearizable, refusals need a cause, connections are bounded.",
 "C01": "Sampled: the real offer manager, database/sql (rewritten like the repository) and sqlite on a simulated disk that fails, fills up, is slow and loses what was not synced; processes die at any statement or disk operation. Every look-up is compared with the set of acknowledged offers. Power cuts keep a prefix of each file's unsynced writes.",
 "C02": "Sampled: as C01 with clock jumps and local time zones; every answer is judged by the offer's expiry against the node's clock at start and end of the look-up.",
 "C15": "Sampled: the real in-memory offer manager with several threads, a pre-emption point at every statement, time passing expiries; every history is checked against a sequential set of offers (linearizability), callers change the variables they passed in and got back. No part is a stub.",
 "C04": "Sampled: the real client library (find-offers calls of all four kinds and acknowledgement queries) against scripted gateways and providers that answer honestly, or with forged, foreign, mutated, mis-signed, replayed, truncated or late messages; each returned offer is recomputed from the set of offers ever issued, genuine offers of honest gateways in a call must survive. Trusts the harness's own list of issued offers.",
 "C20": "Sampled: the real client library from several threads, with a scheduling point at every statement; each gateway's history of additions, removals, listings, establishments and searches must be linearizable over the pair (to use, active). Gateways and register are stubs.",
 "C21": "Sampled: the real client library against parties that replay, mirror, alter, delay or sign with other keys, and restarts of the client; a gateway may count as active only after its own genuine answer to that challenge arrived within its time-to-live by the client's clock; no challenge may be sent twice.",
 "C03": "Sampled: whole deployments (real gateways, providers, register, client and administration libraries) with a hostile registered provider, strangers and replays sending 16 kinds of false publications and false answers to fetches; every offer a gateway gives out afterwards is recomputed from the list of offers ever published. Trusts the harness's list; the record of what was sent is kept outside the code under test.",
 "C05": "Sampled: whole deployments with publishing, crashes, partitions, register outages and lost or slow exchanges; what each responsible gateway holds and what each provider presents as acknowledgement is asked over the public protocol and checked against signatures and the list of published offers. Publications are judged for completeness only when no fault was active.",
 "C06": "Sampled: as C05, with gateways that join late and fetch, batches of up to 120 offers and repeated fetches; completeness is judged after fault-free fetches in networks of three or more gateways.",
 "C09": "Sampled: whole deployments with payers that pay in full, too much, too little, repeatedly, with altered, foreign or empty vouchers or the same one twice at once, for all six paid kinds; results are judged against the credit the voucher can have given, conservation per lane, and a registered gateway of the harness that notes what others pay it. Trusts the chain stub.",
 "C22": "Sampled: whole deployments where nodes are initialised and re-initialised with other keys amid register outages, crashes and partitions, and impossible initialisations; the register's record and the node's signed answers are compared with what was given.",
 "C23": "Sampled: whole deployments; after faults end and nodes are settled every client search of all four kinds must return every offer the searched gateways must hold. Clocks of nodes differ by up to 6 s (requests between gateways live 10 s).",
 "C24": "Sampled: whole deployments; every listing is compared with bounds computed from the publications so far, offer by offer.",
 "C25": "Sampled: whole deployments; honest, late, forged, altered and replayed requests of every kind between clients, gateways and providers, over fresh and kept connections, with jumping clocks; every answer is judged by the request's lifetime on the receiver's clock and by signatures, refused requests by what they gave out, charged or forwarded. Time-to-lives at the integer limits are left out.",
 "C26": "Sampled: the real client library and payment manager on a simulated chain against scripted gateways that are honest, greedy, or alter, forge and repeat answers; every voucher, deposit and returned offer of each call is judged. Completeness is judged in calls without hostile gateways and chain failures. Trusts the chain stub.",
}
NA = {}
props = [json.loads(l)["id"] for l in open(os.path.join(D, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in NOTE:
        checks.append(dict(property=p, quick_cmd=f"./check.sh {p} quick", thorough_cmd=f"./check.sh {p} thorough", technique=T, level="exploration", level_note=NOTE[p]))
    else:
        na.append(dict(property=p, reason=NA.get(p, "check under construction")))
m = dict(version=1, setup_cmd="./check.sh build", checks=checks, not_applicable=na,
 notes="No hooks in /repo: seams are made in a rewritten scratch copy at build time (sim/simgen).")
json.dump(m, open(os.path.join(D, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
