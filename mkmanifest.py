#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
T = "TLA+ specification checked with TLC; recorded executions of the real code are accepted or rejected by the same specification (trace validation)"
F = "TLA+ functional specification checked with TLC; recorded results of the real code are judged by it"
CLAIMED = {
 "C01": (T, "Robust.tla: observer of a session with a hostile peer (bytes read by the client through the Xml.tla machine; stream intact => usable, otherwise over with exactly one disconnect notification; object reusable and freed); ModelRobust.tla (lifetime of the object x attacks at every stage) checked exhaustively with mutants and exported; random hostile sessions under ASan/UBSan with virtual clock (death, hang, spin, block are violations)"),
 "C02": (T, "Nego.tla observer (rules C02: credentials against the user's policy) over sessions with cooperating and hostile servers; ModelNego.tla (client automaton x arbitrary server) checked exhaustively, its behaviours replayed"),
 "C03": (T, "Nego.tla observer (rules C03: order, offers, restarts, connected); same sessions and model as C02"),
 "C04": (T, "Sm.tla observer of a logical session over several connections (unacknowledged, to be retransmitted, queued; numbers; state blobs); ModelSm.tla (client with queues and counters, truthful server, lossy channel: nothing lost, nothing twice, in order) checked exhaustively against it and its behaviours replayed; random sessions with back-pressure, losses, resumptions, refusals, hand-over of the state"),
 "C05": (T, "Sm.tla observer (count of received stanzas in <a/>, <resume/> and blobs; one <a/> per <r/>); same model and sessions as C04"),
 "C06": (T, "SendQ.tla: queue, wire and queue API (user, library and acknowledgement-request elements); ModelSendQ.tla (list with written/wip/linked request under any partial-write schedule) checked exhaustively against it and exported; random sessions with back-pressure over plain, TLS and compressed transports"),
 "C09": (T, "Stanza.tla (object store, API transitions, effective tree) over Xml.tla (byte-level XML machine): random API programs, renderings read back by the specification and by the library"),
 "C10": (T, "Xml.tla: one transition per byte, so no dependence on chunking; generated documents x partitions x restarts against the parser"),
 "C11": (T, "Handlers.tla: registration, dispatch, timers; ModelHandlers.tla (dispatcher refines snapshot semantics) exports programs; random programs with re-entrant callbacks, several connections, fragmented and batched stanzas"),
 "C12": (T, "Own.tla observer: every block the context's allocator hands out is born in a call and owned by the objects that call touched (connections by reference count, stream-management states, stanza nodes, the context); it may exist only while an owner is referenced and go only in a call that touches an owner; results of the release calls, stanzas kept by handlers unchanged, allocator not bypassed; ModelOwn.tla (two connections, reference counts, hand-over of the state, kept stanzas) checked exhaustively against it and exported; the scenarios of all other checks are run with block accounting (ASan) and end with everything released in random order"),
 "C13": (T, "Life.tla observer (attempts, notifications, waits with deadlines, offline-only settings, stream errors); ModelLife.tla (timed client against a server that answers, is silent, errs or goes away) is checked exhaustively and exported; random timed sessions over client, component and raw connections"),
 "C14": (T, "Disco.tla: endpoints of an attempt, their order, when the next one may be tried and failure reported; ModelDisco.tla (insertion sort, walk, 5 s) refines it for every combination of <=2 (thorough: 3) records, addresses and fates, all of which are replayed; random configurations of client, raw, component, legacy SSL, given host/port"),
 "C15": (F, "Dns.tla decodes every response (RFC 1035/2782); generated, truncated and corrupted buffers, ASan"),
 "C16": (F + "; sessions across restarts are accepted or rejected by Sm.tla", "SmBlob.tla (reader and writer of the format, ModelSmBlob.tla: they are inverse, exhaustive over small states and their one-byte changes): native, generated and altered states on fresh connections, everything that can be seen afterwards; Sm.tla sessions in which the application restarts with the last state it got"),
 "C17": (F, "Digest.tla computes SHA-1/256/512, MD5, HMAC and PBKDF2; every length over the block boundaries x update splits, bulk messages past 2^32 bits"),
 "C18": (F, "Base64.tla; exhaustive short strings over the critical alphabet plus random"),
 "C19": (F, "Jid.tla; exhaustive short strings over the critical alphabet, all byte values, limits"),
 "C20": (T, "Zip.tla over SendQ.tla (offer, request, confirmation, one zlib stream that inflates to the queue, nothing left after an iteration the transport didn't limit, incoming stanzas dispatched as soon as inflatable); ModelZip.tla (encoder that holds back, bounded staging buffers, partial writes) checked exhaustively and exported; random sessions with sizes over the staging buffers, all flush modes, levels, fragmentations, corrupt streams; the library's own elements are those of the same session without compression"),
 "C07": (F, "Sasl.tla: SCRAM (RFC 5802/7677, channel bindings), DIGEST-MD5 (RFC 2831), PLAIN, EXTERNAL, ANONYMOUS, legacy and component messages as values of what the client was given; ModelSasl.tla: client messages against the server's verification, quoting, all one-byte changes, the vectors of the RFCs; recorded attempts over random users, passwords, salts, nonces, challenges, TLS versions and client certificates, several mechanisms per connection, are judged by it; nonces are distinct over the run"),
 "C08": (T, "Tls.tla: verdict on a certificate chain from RFC 5280/6125 (path to an anchor, validity, full-label wildcards, callback answers per failing certificate, trust flag) and the rules for secured/clear data after it; ModelTls.tla: a client that walks the errors of a chain, every cell of certificate x anchors x callback x trust x mode, checked exhaustively (thorough: eleven broken clients have to be noticed) and exported; the real handshakes use an in-process OpenSSL server and certificates built for the cell; random names, chains, anchors in directories, SRV/alternative hosts, broken handshakes, several attempts with other settings"),
}
CLAIMED.update(json.load(open(os.path.join(H, "claims.json"))) if os.path.exists(os.path.join(H, "claims.json")) else {})
props = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "sh -c 'java -version && gcc --version && python3 --version'",
     "checks": [{"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
                 "technique": CLAIMED[p][0], "level": "model_checking", "level_note": CLAIMED[p][1]} for p in props if p in CLAIMED],
     "not_applicable": [{"property": p, "reason": "check not built yet"} for p in props if p not in CLAIMED],
     "notes": "TLA+ checked with TLC (see DESIGN.md). No hooks in /repo: libc symbols of the library objects are redirected with objcopy at link time."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
