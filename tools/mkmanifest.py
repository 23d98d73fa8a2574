#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below."""
import json
CHECKS = {
 "C01": ("exploration", "differential wire monitor: independent PackStream decoder over recorded requests", "random and boundary values through the public API on every protocol version; every byte sent is decoded by the monitor's own codec and compared with what the caller passed"),
 "C02": ("exploration", "differential result monitor: scripted responses in random legal encodings", "random and boundary result streams in every legal width; returned rows compared deeply, and compared again after later use of the connection"),
 "C03": ("exploration", "differential wire and result monitor for temporal and spatial structures", "boundary and random calendar values, zones and DST transitions in both directions on versions 2-4, under several process time zones"),
 "C06": ("exploration", "online trace checker pairing every result with the served query", "random API histories over all versions with failures, faults, abandoned results and message builders; every row and summary carries the token of its own query"),
 "C07": ("exploration", "trace checker over failure-injecting histories", "every request kind answered with failures at every stage, RESET outcomes varied; innermost cause, text and later usability compared with what the server sent"),
 "C08": ("exploration", "fault injection at every byte of every exchange", "connection lost (close, reset, half close) at every byte offset of every exchange kind, plaintext and TLS; oracle on error cause, rows and socket release"),
 "C09": ("exploration", "trace checker over recorded server transaction logs", "random histories around ended, failed and abandoned transactions; the server records in which transaction each statement ran"),
 "C10": ("exploration", "trace checker of transaction outcomes against the server log", "enumerated endings and random histories with faults; each Commit/Rollback result compared with the server's own record"),
 "C11": ("exploration", "protocol monitor over handshake answers", "every version answer, hostile handshake answers, segmentation and cuts; message sets checked against the agreed version"),
 "C12": ("exploration", "online Bolt state-machine monitor in the server", "every message of every history checked against the specification's state machine per version, plus the message builders"),
 "C13": ("exploration", "state and socket-count monitor around Close", "every connection state crossed with faults while closing; the process's sockets and the server's view counted afterwards"),
 "C14": ("exploration", "fault injection at every step of opening, socket-count monitor", "every step of dial, TLS, handshake and authentication failed or cut; error, socket and server state observed"),
 "C04": ("exploration", "wire framing monitor over enumerated message lengths and chunk sizes", "chunk-boundary lengths enumerated around each chunk size, responses re-split at random chunk and segment boundaries"),
 "C05": ("exploration", "structure-aware fuzzing with crash, allocation and value oracles", "mutation and grammar based hostile inputs at the decoder and at every stage of a connection; independent decoder as the value oracle; process crash, allocation and panic monitors"),
 "C15": ("exploration", "stall injection before every byte, timed call monitor and late-answer oracle", "answers held back before every byte of every exchange over TCP and TLS, requests not read, connections not accepted; every way to configure the timeout; released answers must not become results"),
 "C16": ("exploration", "race detector, wire state-machine monitor and per-call token oracle", "concurrent use of one connection under -race with pauses, failures, cuts and close; server transactions compared with the handles"),
 "C17": ("exploration", "race detector, exclusive-use and conservation monitor over pool histories", "concurrent borrow/use/return/reclaim histories under -race; each lent connection is identified at the server and used with a token, capacity and books compared with the server's kernel-exact connection count"),
 "C18": ("exploration", "trace checker comparing a reused connection's behaviour with a fresh one", "every way of leaving a pooled connection dirty (open transactions, failures, settings, dead peers) followed by a borrower whose whole conversation the server records"),
 "C19": ("exploration", "race detector, goroutine and socket conservation monitor around pool close", "random histories closed at every stage with borrowers waiting and faults; bounded waits, sockets and goroutines counted after"),
 "C20": ("exploration", "routing-trace monitor over a cluster of recording servers", "random clusters and role tables; every borrowed connection is identified at the member that serves it and judged against the role table of the last refresh"),
 "C21": ("exploration", "race detector and conservation monitor over concurrent routed histories", "concurrent borrow/return/reclaim/refresh histories under -race over several members; exclusivity, capacity, balance"),
 "C22": ("exploration", "goroutine, socket and liveness monitor around routed start and stop", "starts against failing seeds and stops at every stage under -race, with refreshes in flight"),
 "C23": ("exploration", "history checker over refreshes with injected faults", "role changes, failing, malformed, cut and held-back overviews; table in force compared with the last good answer"),
 "C24": ("exploration", "wire monitor of the authentication token and of the listener reached", "random and hostile credentials and hosts, by option and connection string, for direct, pooled and routed connections; every server reports what it was sent"),
 "C25": ("exploration", "raw byte-stream monitor in front of plaintext and TLS servers", "TLS options and URL parameters crossed with trusted, untrusted, wrong-host and expired certificates and with plaintext servers; the first bytes of every connection recorded"),
 "C26": ("exploration", "model-based configuration monitor: acceptance oracle and server-side observation of every setting", "sound and defective configurations generated from a model, in all orders of their options; connection strings compared between client and connection"),
 "C27": ("exploration", "differential monitor of result accessors over generated summaries", "generated summaries with absent, ill-typed and extreme counters"),
 "C28": ("exploration", "monitor of the process's standard streams and of the log sink around the other checks' workloads, with secret markers searched for", "the other checks' workloads run in child processes with logging at every level; secrets are searched for in plain, quoted, escaped and encoded form"),
 "C29": ("exploration", "monitor of the rendering and the layers of errors built and returned under hostile texts", "random chains of layers; server failures of every request, ill-typed values, lost connections, operating-system and configuration errors with formatting characters"),
 "C30": ("exploration", "race detector, conservation and identity monitors over connections the servers counted", "borrow/use/return histories under -race with slow handshakes; connections opened per pool counted by the servers; held connections asked after every disturbance, refresh, close and stop"),
 "C31": ("exploration", "differential monitor of the codecs against an independent implementation under hostile readers and writers", "random values, chunk sizes, framings; readers returning single bytes, nothing, data with the end, failing anywhere; writers failing anywhere and recovering; every message constructor of every version"),
 "C32": ("exploration", "race detector and per-user oracles over independent users working side by side", "ten to sixteen differently configured users at once under -race (credentials, TLS, version, chunk size, timeout, kind of pool), some refused, stalled or slow; each user's server and answers checked against that user alone"),
}
NA = []
m = {"version": 1,
 "setup_cmd": "cd /verif/harness && export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off && go build -o /dev/null . && go build -race -o /dev/null .",
 "checks": [], "not_applicable": NA}
for i in sorted(CHECKS):
    lvl, tech, note = CHECKS[i]
    m["checks"].append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough", "technique": "runtime monitoring: "+tech, "level": lvl, "level_note": note})
ids = [json.loads(l)["id"] for l in open('/verif/properties.jsonl')]
for i in ids:
    if i not in CHECKS:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
open('/verif/MANIFEST.json','a').write("\n")
