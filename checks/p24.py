"""P24: servers and clients in one process do not influence each other."""
import asyncio, re
from datetime import datetime, timedelta, timezone
import fabric, gen, oadr, sign, vloop, wire, world
ID = "P24"
CASES = {"quick": 400, "thorough": 10000}
RULE = ("two to four real VTNs and up to three real VENs with different ids, certificates, lookups, verification settings, poll methods, poll frequencies, handlers, path prefixes and equal VEN and event ids are created, configured and used in a random interleaving in one process; every answer, signature, "
        "handler call, callback, event and report is attributed to the object it must belong to and compared with that object's own model; signature = (settings of all objects, order of operations)")
ASSUME = ["module-wide facilities (hooks, log configuration, the memory of used nonces) are shared on purpose", "no message is lost"]
REQUIRED = ["known_reports", "servers", "clients", "answers", "own_signature", "unsigned_answers", "own_vtn_id", "events_delivered", "event_answers", "reports_received", "authorised", "refused", "external_polls", "internal_polls", "registrations", "default_registrations", "client_events", "client_messages", "client_signed", "created_late", "unknown_ven", "own_poll_freq", "prefixes", "stopped_client", "own_hooks"]
UTC = timezone.utc
S = lambda x: timedelta(seconds=x)
VENS = ["ven 1", "ven & 2", "ven 3"]

class Srv: pass

def case(c):
    r = c.rng
    async def body(loop):
        net = fabric.Net()
        lat = r.choice([0, .02, .2])
        net.delayer = lambda ex, ph: lat
        servers, clients, calls, ops = [], [], [], []
        seq = [0]
        def nxt(): seq[0] += 1; return seq[0]
        def new_server():
            s = Srv(); s.i = len(servers); s.vtn_id = r.choice([f"VTN_{s.i}", f"VTN & {s.i}", f"VTN_{r.randrange(3)}"])
            s.cert = r.choice([None, None, "vtn", "vtn2", "v3"]) if r.random() < .5 else None
            s.style = r.choice(["ven", "fp", None, None]); s.verify = r.random() < .6
            s.freq = S(r.choice([5, 10, 17, 60])); s.prefix = r.choice([fabric.PATH, fabric.PATH, f"/own{s.i}"])
            if s.prefix != fabric.PATH: c.count("prefixes")
            s.records = {v: r.choice(["v0", "v1", "v2"]) for v in VENS if r.random() < .7}
            s.external = False; s.handlers = set(); s.updated = set(); s.events = {}; s.answered = set(); s.requests = []
            kw = {}
            def vl(ven_id):
                calls.append((s.i, "lookup", ven_id))
                if ven_id.startswith("c-"): return {"ven_id": ven_id, "registration_id": "r"}
                return {"ven_id": ven_id, "registration_id": f"r{s.i}", "fingerprint": sign.fp(s.records[ven_id])} if ven_id in s.records else None
            def fl(ven_id):
                calls.append((s.i, "lookup", ven_id)); return sign.fp(s.records[ven_id]) if ven_id in s.records else None
            if s.style == "ven": kw["ven_lookup"] = vl
            if s.style == "fp": kw["fingerprint_lookup"] = fl
            if s.cert: kw.update(sign.paths(s.cert))
            s.host = f"host{s.i}"
            s.o = world.server(net, host=s.host, vtn_id=s.vtn_id, verify_message_signatures=s.verify, requested_poll_freq=s.freq, http_path_prefix=s.prefix, **kw)
            servers.append(s); c.count("servers"); ops.append(("server", bool(s.cert), s.style, s.verify, s.prefix != fabric.PATH))
            return s
        def configure(s, what=None):
            h = what or r.choice(["register", "cancel", "offer", "poll", "created", "request", "query"])
            ops.append(("handler", s.i, h))
            async def reg(p): calls.append((s.i, "register", p["ven_name"])); return p.get("ven_id") or f"c-{p['ven_name']}", f"reg{s.i}"
            async def canc(p): calls.append((s.i, "cancel", None))
            async def offer(ven_id, resource_id, measurement, unit, scale, min_sampling_interval, max_sampling_interval):
                calls.append((s.i, "offer", resource_id))
                async def cb(values): calls.append((s.i, "values", tuple(v for _, v in values)))
                return cb, min_sampling_interval
            async def poll(ven_id): calls.append((s.i, "poll", ven_id)); return None
            async def created(ven_id, event_id, opt_type): calls.append((s.i, "on_created", (ven_id, event_id, opt_type)))
            async def request(ven_id): calls.append((s.i, "request", ven_id)); return None
            name = {"register": "on_create_party_registration", "cancel": "on_cancel_party_registration", "offer": "on_register_report", "poll": "on_poll", "created": "on_created_event", "request": "on_request_event"}.get(h)
            if h == "query":
                async def query(p):
                    calls.append((s.i, "query", None))
                    return "oadrCreatedPartyRegistration", {"profiles": [{"profile_name": "2.0b", "transports": [{"transport_name": "simpleHttp"}]}], "requested_oadr_poll_freq": s.freq}
                name, f = "on_query_registration", query
            else: f = {"register": reg, "cancel": canc, "offer": offer, "poll": poll, "created": created, "request": request}[h]
            s.o.add_handler(name, f); s.handlers.add(h)
            if h == "poll": s.external = True
        def add_event(s, ven=None):
            if s.external: return
            ven = ven or r.choice(VENS)
            eid = r.choice(["shared-1", "shared-2", "shared-3"]) if not ven.startswith("c-") else f"ev{nxt()}"
            if (ven, eid) in s.events: return
            val = s.i * 1000 + nxt()
            async def cb(ven_id, event_id, opt_type): calls.append((s.i, "answer", (ven_id, event_id, opt_type)))
            s.o.add_event(ven_id=ven, signal_name="x-own", signal_type="level", event_id=eid, callback=cb, market_context=f"http://mc/{s.i}",
                          intervals=[{"dtstart": datetime.now(UTC) + timedelta(days=20), "duration": timedelta(hours=1), "signal_payload": val}])
            s.events[(ven, eid)] = val; s.updated.add(ven); ops.append(("event", s.i))
        async def request(s):
            kind = r.choice(["poll", "poll", "request", "created", "register", "cancel", "offer", "update", "query"])
            ven = r.choice(VENS)
            tls = r.random() < .6
            m = nxt(); want, rid = [], f"rq{m}"
            if kind == "poll": el = oadr.poll(ven); want = [("poll", ven)] if s.external else []
            elif kind == "request":
                el = oadr.request_event(ven, rid)
                if s.external and "request" not in s.handlers: return
                want = [("request", ven)] if s.external else []
            elif kind == "created":
                opt = r.choice(["optIn", "optOut"])
                eid = r.choice([e for v, e in s.events if v == ven] or [None])
                if eid is None or (s.external and "created" not in s.handlers): return
                el = oadr.created_event(ven, [(eid, 0, opt, rid, 200)])
                want = [("on_created", (ven, eid, opt))] if s.external else ([("answer", (ven, eid, opt))] if (ven, eid) not in s.answered else [])
            elif kind == "register": el = oadr.create_party_registration(rid, ven_id=ven, ven_name=f"n{m}"); want = [("register", f"n{m}")] if "register" in s.handlers else []
            elif kind == "cancel":
                if "cancel" not in s.handlers: return
                el = oadr.cancel_party_registration(rid, "x", ven); want = [("cancel", None)]
            elif kind == "offer":
                el = oadr.register_report(rid, ven, [oadr.report_offer(f"spec{m}", "METADATA_TELEMETRY_USAGE", [dict(r_id="r", source=[("resource_id", f"res{m}")], measurement=dict(name="voltage", description="Voltage", unit="V"), min=S(10), max=S(10))])])
                if "offer" not in s.handlers: return
                want = [("offer", f"res{m}")]
            elif kind == "update":
                if not s.requests: return
                rv, q, spec = r.choice(s.requests); ven = rv
                el = oadr.update_report(rid, ven, [oadr.report_data(q, spec, [("r", datetime.now(UTC), m)])]); want = [("values", (float(m),))]
            else: el = oadr.query_registration(rid); want = [("query", None)] if "query" in s.handlers else []
            rec = s.records.get(ven)
            conn = r.choice([rec or "v0", rec or "v0", rec or "v1", "v0", "v1", "v2"]) if tls else None
            signer = r.choice([conn, conn, None, "v0"]) if tls else r.choice([None, "v1"])
            ok = True
            if kind != "query":
                if s.style == "ven" and rec is None and (tls or kind != "register"): ok = False; c.count("unknown_ven")
                elif s.style and tls: ok = rec is not None and conn == rec and (not s.verify or signer == rec)
            b = sign.signed(el, signer, datetime.now(UTC), nonce=f"{c.seed}.{c.index}.{m}") if signer else oadr.msg(el)
            k = len(calls)
            a = await world.post(s.o, world.SERVICE[wire.local(el)], b, peer=sign.der(conn) if conn else None, tls=tls)
            got = [x for x in calls[k:] if not ("client" in repr(x) or "creport" in repr(x) or x[1] == "values" and x[2] and x[2][0] >= 5000)]     # the clients' own traffic goes on
            tag = lambda: f"server {s.i} ({vars_of(s)}) {kind} naming {ven!r} over {'TLS ' + conn if tls else 'plain'} signed by {signer}: {a}, calls {got}"
            c.note(s.i, kind, ven, a)
            c.count("answers")
            c.check(all(x[0] == s.i for x in got), "other-servers-handler-called", tag)
            mine = sorted([repr(x[1:]) for x in got if x[1] != "lookup"])
            c.check(all(x[2] == ven for x in got if x[1] == "lookup") , "wrong-lookup", tag)
            if a.status == 200 and a.body:
                if s.cert:
                    c.check(sign.verify(a.body, s.cert) is None, "wrong-signing-certificate", lambda: f"{sign.verify(a.body, s.cert)}: {tag()}"); c.count("own_signature")
                else:
                    c.check(b"X509Certificate" not in a.body, "wrong-signing-certificate", lambda: f"this server has no certificate: {tag()}"); c.count("unsigned_answers")
                vid = wire.text(a.el, "vtnID") if a.el is not None else None
                if vid is not None: c.check(vid == s.vtn_id, "wrong-vtn-id", lambda: f"vtnID {vid!r}: {tag()}"); c.count("own_vtn_id")
            if not ok:
                c.count("refused")
                c.check((a.status == 403 or a.type == "oadrRequestReregistration" or str(a.code) not in ("200", "None")) and not mine and not a.events, "foreign-settings-used", lambda: f"should be refused: {tag()}")
                return
            c.count("authorised")
            if not c.check(a.status == 200 and str(a.code) == "200", "foreign-settings-used", lambda: f"should be accepted: {tag()}"): return
            c.check(mine == sorted(repr(x) for x in want), "wrong-handler-called", lambda: f"expected {want}: {tag()}")
            if kind in ("poll", "request"):
                if s.external: c.count("external_polls"); c.check(not a.events, "events-mixed-up", tag)
                else:
                    c.count("internal_polls")
                    exp = {e: v for (w, e), v in s.events.items() if w == ven} if kind == "request" or ven in s.updated else {}
                    have = {e["event_id"]: e["signals"][0]["intervals"][0]["value"] for e in a.events}
                    c.check({k2: float(v) for k2, v in have.items()} == {k2: float(v) for k2, v in exp.items()}, "events-mixed-up", lambda: f"expected {exp}, delivered {have}: {tag()}")
                    c.check(all(e["market_context"] == f"http://mc/{s.i}" for e in a.events), "events-mixed-up", tag)
                    if have: c.count("events_delivered")
                    if kind == "poll": s.updated.discard(ven)
            if kind == "created" and want: s.answered.add((ven, el.findtext(".//{*}eventID"))); c.count("event_answers")
            if kind in ("register", "query"):
                f = wire.text(a.el, "oadrRequestedOadrPollFreq", "duration")
                c.check(f is not None and wire.dur(f) == s.freq, "wrong-poll-frequency", lambda: f"{f}: {tag()}"); c.count("own_poll_freq")
                if kind == "register":
                    c.check(wire.text(a.el, "registrationID") in ((f"reg{s.i}",) if "register" in s.handlers else (None, "")), "wrong-handler-called", tag)
                    c.count("registrations" if "register" in s.handlers else "default_registrations")
            if kind == "offer":
                for e in a.el.iter("{*}reportRequestID"): s.requests.append((ven, e.text, f"spec{m}"))
            if kind == "update": c.count("reports_received")
        class Cl: pass
        async def new_client():
            pool = [s for s in servers if not s.external and s.style != "fp" and (s.style is None or True)]
            if not pool: return
            s = r.choice(pool)
            k = Cl(); k.i = len(clients); k.s = s; k.name = f"client{k.i}"; k.ven = f"c-{k.name}"; k.stopped = False; k.stop_at = None
            configure(s, "register")
            k.cert = r.choice([None, None, "v0", "v1"]); k.off = k.cert is not None and r.random() < .3
            kw = dict(sign.paths(k.cert), disable_signature=k.off, ca_file=sign.path("ca", "crt")) if k.cert else {}
            if s.cert and r.random() < .7: kw["vtn_fingerprint"] = sign.fp(s.cert)
            from openleadr import OpenADRClient
            k.o = OpenADRClient(ven_name=k.name, vtn_url=f"http://{s.host}{s.prefix}", show_fingerprint=False, **kw)
            k.hooked = None
            if r.random() < .6:
                k.hooked, k.parsed = [], []
                k.o.add_hook("before_send_xml", k.hooked.append); k.o.add_hook("after_parse_xml", lambda t, p: k.parsed.append((t, p.get("ven_id"))))
            k.got = []; k.opt = r.choice(["optIn", "optOut"])
            async def on_event(e): k.got.append((e["event_descriptor"]["event_id"], e["event_signals"][0]["intervals"][0]["signal_payload"])); return k.opt
            k.o.add_handler("on_event", on_event)
            k.val = 5000.5 + k.i
            if r.random() < .5:
                configure(s, "offer")
                k.report = f"creport{k.i}"; k.o.add_report(callback=lambda: k.val, report_specifier_id="same spec", r_id="same r", resource_id=k.report, measurement="voltage", sampling_rate=S(10))
            else: k.report = None
            await k.o.run()
            c.check(k.o.ven_id == k.ven and k.o.registration_id == f"reg{s.i}", "clients-mixed-up", f"{k.name}: {k.o.ven_id} {k.o.registration_id}")
            clients.append(k); c.count("clients"); ops.append(("client", s.i, k.cert, k.off))
        new_server(); new_server()
        for s in servers:
            for _ in range(r.choice([0, 2, 4])): configure(s)
        for _ in range(r.choice([15, 30, 50])):
            x = r.random()
            if x < .06 and len(servers) < 4: new_server(); c.count("created_late")
            elif x < .14: configure(r.choice(servers))
            elif x < .30: add_event(r.choice(servers))
            elif x < .36 and len(clients) < 3: await new_client()
            elif x < .42 and clients:
                k = r.choice(clients)
                if not k.stopped and not k.s.external: add_event(k.s, k.ven)
            elif x < .44 and clients:
                k = r.choice(clients)
                if not k.stopped: k.stopped = True; k.stop_at = len(net.log); await k.o.stop(); c.count("stopped_client"); k.before = list(k.got)
            elif x < .47: await asyncio.sleep(r.choice([1, 12, 70]))
            else: await request(r.choice(servers)); ops.append(("request",))
        for k in clients:
            if not k.stopped and not k.s.external: add_event(k.s, k.ven)
        await asyncio.sleep(150)
        for k in clients:
            s = k.s
            mine = {e: v for (v0, e), v in s.events.items() if v0 == k.ven}
            got = [e for e, _ in k.got]
            c.check(all(mine.get(e) == v for e, v in k.got) and len(set(got)) == len(got), "clients-mixed-up", f"{k.name} at server {s.i}: events {k.got}, its own are {mine}")
            if not k.stopped and not s.external: c.check(set(got) == set(mine), "clients-mixed-up", f"{k.name} at server {s.i} (others stopped: {[x.name for x in clients if x.stopped]}): events {k.got}, its own are {mine}")
            if got: c.count("client_events")
            ans = [x[2] for x in calls if x[1] == "answer" and x[2][0] == k.ven]
            where = {x[0] for x in calls if x[1] == "answer" and x[2][0] == k.ven}
            c.check(where <= {s.i} and sorted(ans) == sorted((k.ven, e, k.opt) for e in got), "clients-mixed-up", f"{k.name}: answers {ans} at {where}, its handler saw {got} and said {k.opt}")
            vals = [(x[0], x[2]) for x in calls if x[1] == "values" and k.val in x[2]]
            c.check(all(i == s.i and set(v) == {k.val} for i, v in vals), "clients-mixed-up", f"{k.name}: values {vals[:5]}")
            if k.report and not k.stopped: c.check(len(vals) >= 5, "clients-mixed-up", f"{k.name}: only {len(vals)} reports arrived")
            sess = [ex for ex in net.log if ex.client is k.o.client_session or ex.host == s.host and k.name.encode() in ex.req]
            for n, ex in enumerate(net.log):
                mentions = k.ven.encode() + b"<" in ex.req
                if not mentions and ex.client is not k.o.client_session: continue
                c.count("client_messages")
                c.check(ex.host == s.host, "clients-mixed-up", f"{k.name} sent {ex} to {ex.host}")
                v = [e.text for e in wire.parse(ex.req).iter("{*}venID") if not wire.local(e.getparent()).endswith("Target")]
                c.check(all(t == k.ven for t in v), "clients-mixed-up", f"{k.name} sent {ex.req[:400]!r}")
                if k.cert and not k.off:
                    c.check(sign.verify(ex.req, k.cert) is None, "wrong-signing-certificate", lambda: f"{k.name}: {sign.verify(ex.req, k.cert)}"); c.count("client_signed")
                else: c.check(b"X509Certificate" not in ex.req, "wrong-signing-certificate", lambda: f"{k.name} signs with nothing: {ex.req[:300]!r}")
                if k.stop_at is not None and ex.fault != "closed": c.check(n < k.stop_at, "clients-mixed-up", f"{k.name} was stopped and sent {ex}")
            if k.hooked is not None:
                sent = [ex.req for ex in net.log if ex.client is k.o.client_session]
                hooked = [x.encode() if isinstance(x, str) else x for x in k.hooked]
                c.check(len(hooked) >= len(sent) > 0 and set(sent) <= set(hooked) and len([x for x in hooked if x not in sent]) <= 1, "clients-mixed-up", lambda: f"{k.name}: its hook saw {len(hooked)} messages, {len([x for x in hooked if x not in sent])} of them not its own; it sent {len(sent)}")
                c.check(all(v in (None, k.ven) for _, v in k.parsed), "clients-mixed-up", lambda: f"{k.name}: its hook saw {set(k.parsed)}")
                c.count("own_hooks")
            if not k.stopped: await k.o.stop()
        for s in servers:      # the reports a server knows are those offered to it
            have = set(re.findall(r"'resource_id': '(c?re[a-z]*\d+)'", repr(s.o.registered_reports)))
            mine = {x[2] for x in calls if x[0] == s.i and x[1] == "offer"}
            c.check(have <= mine, "reports-mixed-up", lambda: f"server {s.i} has reports on {have}, it was offered {mine}")
            if have: c.count("known_reports")
        for s in servers:      # finally every server still is what it was made to be
            a = await world.post(s.o, "EiRegisterParty", oadr.query_registration("q"))
            c.check(wire.text(a.el, "vtnID") == s.vtn_id and wire.dur(wire.text(a.el, "oadrRequestedOadrPollFreq", "duration")) == s.freq, "wrong-vtn-id", lambda: f"server {s.i}: {a.body}")
        c.sig(tuple(ops))
        c.sample({"servers": [vars_of(s) for s in servers], "clients": len(clients)})
    c.run(body, start=vloop.EPOCH + timedelta(hours=3 * c.index))

def vars_of(s): return dict(vtn_id=s.vtn_id, cert=s.cert, style=s.style, verify=s.verify, records=s.records, external=s.external, handlers=sorted(s.handlers))
