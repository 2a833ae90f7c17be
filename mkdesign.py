import ast, json
WHY = {
'P01':"Oracle: own writer (`lib/oadr.py`) and an own copy of the XSD, compared by canonical element tree. Tests render one fixed payload per type; here value space × message shape × API (functions, objects) is sampled, including text no test contains.",
'P02':"Oracle: the values drawn, by value and by type; both writers are used, so a compensating error in writer and parser shows. Tests only parse the library's own output of fixed payloads; nothing there checks notations or leftovers of earlier parses.",
'P03':"Oracle: own duration/time reader in `lib/wire.py` and `datetime` arithmetic. The domain is too large for examples; magnitudes, signs, offsets (also with seconds), and 0–9 fraction digits are drawn per case.",
'P04':"Oracle: answer classification plus a twin VTN that receives only the legitimate traffic (non-interference), canary file (inotify) and canary socket for external entities, CPU-time budget per request. Every request runs inside the real aiohttp stack in this process with no privileges needed; nothing it could reach is real (canary in a scratch directory).",
'P05':"Oracle: a table of answer types and codes, plus content that only that request's handler run could have produced. Reach: dozens of requests in flight with random handler delays; a swap needs an interleaving no unit test produces.",
'P06':"Oracle: offline checker over a totally ordered log; for each answer the sets must/may/must-not are computed from operation intervals (an operation that overlaps the answer may count either way; delivering callbacks marks completion). Reach: cross-VEN id coincidences, confusable ids, queues of up to 150 events, overlapping requests.",
'P07':"Oracle: interval reasoning on the same log: a change whose operation ended before a poll began and was not carried by an answered poll begun later must be in it. Reach: changes placed inside slow callbacks of an overlapping poll.",
'P08':"Oracle: own status function and the order relation of the statement, at the virtual time of the answer (both ends of its handling accepted). Reach: boundary instants, zero and whole-day durations, offsets, priorities, ramp-ups, cancelled and completed events mixed.",
'P09':"Oracle: expected content computed from the operator's arguments by the harness, compared field by field on the wire (own reader) and in the VEN's handler. Reach: the same Python objects reused in several events and VENs, redeliveries after status changes, cancellations, all optional parts.",
'P10':"Oracle: one-to-one matching between responses (VEN, id, modification number, opt) and callback runs; a response that overlaps another may win either way. Reach: duplicates in one message, simultaneous responses with slow and failing callbacks, equal ids at other VENs, futures.",
'P11':"Oracle: per-event automaton (announced → cancelled → acknowledged → gone) over all answers and the queue contents between operations. Reach: stale and early acknowledgements, cancel during delivery, repeated cancels.",
'P12':"Oracle: online model of (event id → last modification number) with the clean-up ticks; ambiguous only within the tick window. Reach: batches of up to 70 events, long memories, out-of-order versions, duplicates inside one batch, failing handlers.",
'P13':"Oracle: expected entry list of each delivery from what was delivered and what the handlers really returned. An event that ends while handlers run may be left out.",
'P14':"Oracle: model of memory contents at sampled instants (between ticks exact, at ticks either).",
'P15':"Oracle: monitors on loop/job errors, poll gaps after the fault phase, VTN-side receipt of reports, handler runs against the VTN's queue. Reach: faults at each message type and phase, each as a separate point; virtual time makes hours of faults cheap.",
'P16':"Oracle: ledger of operator decisions. Reach: lookup records that change between and during requests, half-registered VENs, handler result forms.",
'P17':"Oracle: life-cycle automaton over everything the VTN received, with ids and times.",
'P18':"Oracle: offers × decisions computed by the harness; then one probe value per requested data point checks the registered callback.",
'P19':"Oracle: produced log = received log per (VEN, request, data point), in order, exactly once; incomplete reports only for the allowed tail.",
'P20':"Oracle: sample times and report contents derived from the requested intervals in virtual time.",
'P21':"Oracle: allowed iff (record, connection certificate, signing certificate, signature) agree at a moment of the request's handling; nobody else's handler runs. Real TLS sockets (loopback) in every 80th case, a simulated TLS transport otherwise.",
'P22':"Oracle: what an unprotected twin receives for the original message; anything else reaching a handler is a violation. Independent signer/verifier in `lib/sign.py` on `cryptography`. Reach: wrapping, duplication and substitution attacks on every part.",
'P23':"Oracle: set of accepted (timestamp, nonce), virtual clock; the 5 s boundary is tested to 20 ms.",
'P24':"Oracle: one model per object; everything observable carries a mark of its owner.",
'P25':"Oracle: model containing only the accepted definitions; observable behaviour must equal it.",
'P26':"Oracle: exactly the handler's result for that call, read from the wire with the independent reader.",
'P27':"Oracle: model of acknowledged opts; message content against arguments.",
'P28':"Oracle: recorded exchanges on the wire, and the twin session without hooks.",
'P29':"Oracle: issuer, names and validity the harness gave each certificate, against every request that reached a server and every answer that reached a VEN. Real sockets and real TLS in real time, as the handshake is what decides; reach: each case combines server and client certificates, CA files, hostname checking, schemes, prefixes and stops.",
'P30':"Oracle: a model of the points each request passes, filled from the request bytes and the answer on the wire, and a twin run without hooks.",
'P31':"Oracle: three days of virtual time after the stop in which nothing may happen; then the loop's tasks and timers, the scheduler and the sessions. Reach: the stop is placed at every step of every exchange, in handlers and callbacks.",
'P32':"Oracle: SHA-256 (hashlib) over DER bytes that the check made itself. Reach: fresh certificates per case (every DER length residue, leading zeros), notations filtered by a real TLS library, near-miss fingerprints and spliced certificate texts.",
'P33':"Oracle: an independent writer's message with exactly the corrected field altered, or an error; at the VTN a model of what was added and of the announced period against the clock. Reach: one broken rule in random otherwise valid messages with several items.",
}
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
out = ["## Decisions per property", "",
f"All {len(props)} properties are decided by monitoring; none is listed under not_applicable. For each: workload and observation (also in the evidence's rule), oracle and reach,",
"assumptions, number of cases (quick / thorough) and the observations a run must have made to count. Bounds are those of the generators: cases are random, so a pass is",
"evidence over the explored cases, not a proof. Quick checks take 3–120 s on eight cores, thorough ones up to an hour.", ""]
for p in props:
    i = p['id']
    import importlib, sys
    sys.path[:0] = ['/verif/lib', '/verif/checks', '/repo']; sys.dont_write_bytecode = True
    mod = importlib.import_module(i.lower()); d = {k: getattr(mod, k) for k in ('CASES', 'RULE', 'ASSUME', 'REQUIRED')}
    out.append(f"### {i} {p['title']}")
    out.append(f"* Workload: {d['RULE']}.")
    out.append(f"* {WHY[i]}")
    if d['ASSUME']: out.append("* Assumptions: " + "; ".join(d['ASSUME']) + ".")
    out.append(f"* Cases: {d['CASES']['quick']} / {d['CASES']['thorough']}. Must have been observed: {', '.join(d['REQUIRED'])}.")
    out.append("")
t = open('/verif/DESIGN.md').read()
import re
body = "\n".join(out)
if '@@PROPS@@' in t: t = t.replace('@@PROPS@@', '\n' + '<!-- per property: begin -->\n' + body + '<!-- per property: end -->\n')
else: t = re.sub(r'<!-- per property: begin -->.*<!-- per property: end -->\n', lambda m: '<!-- per property: begin -->\n' + body + '<!-- per property: end -->\n', t, flags=re.S)
open('/verif/DESIGN.md', 'w').write(t)
