"""P21: over TLS only the certificate on record may speak for a VEN."""
import asyncio, copy
from datetime import datetime, timedelta, timezone
import fabric, gen, oadr, sign, vloop, wire, world
ID = "P21"
CASES = {"quick": 640, "thorough": 16000}
RULE = ("one real VTN serving (simulated) TLS with a VEN or fingerprint lookup in every style; batches of one to six concurrent requests of every type by right and wrong combinations of named VEN, connection certificate and signing certificate (renewed, self-signed, "
        "same-name and other VENs' certificates, no certificate, no signature, requests without a VEN id), while records are added, renewed and withdrawn; every 80th case repeats this over real TLS sockets with the real client; signature = (lookup style, records, verdict mixture)")
ASSUME = ["the lookups answer truthfully; the TLS layer reports the client certificate of the connection (real sockets in part of the cases)", "a VTN without any lookup has no records and is outside the statement"]
REQUIRED = ["authorised", "refused", "wrong_connection", "no_connection_cert", "wrong_signature_cert", "unsigned", "unknown_ven", "no_record", "verification_off", "fingerprint_lookup", "ven_lookup", "async_lookup", "record_changed", "concurrent", "renewed_cert", "handler_calls",
            "events_kept", "unnamed", "real_tls", "real_tls_refused", "new_registrations"]
UTC = timezone.utc
SERVICES = {"poll": "OadrPoll", "request": "EiEvent", "created": "EiEvent", "register": "EiRegisterParty", "cancel": "EiRegisterParty", "offer": "EiReport", "update": "EiReport", "query": "EiRegisterParty", "new": "EiRegisterParty"}

class Ven:
    def __init__(self, vid):
        self.id, self.updated, self.events, self.requests = vid, False, {}, []

def case(c):
    if c.index % 80 == 3:
        return real(c)
    r = c.rng
    style = r.choice(["ven", "ven", "fp"])
    verify = r.random() < .75
    nonce = [0]
    async def body(loop):
        vens = [Ven(gen.uid(r, "pnmu")) for _ in range(3)]
        ghost = Ven(gen.uid(r, "pm"))
        records = {}       # ven id -> certificate name or None (known, but no fingerprint)
        for i, v in enumerate(vens):
            if r.random() < .85: records[v.id] = f"v{i}" if r.random() < .85 else None
        is_async = r.random() < .5
        if is_async: c.count("async_lookup")
        upper = r.random() < .5
        def ven_lookup(ven_id):
            if ven_id not in records: return None if upper else {}
            d = {"ven_id": ven_id, "ven_name": "n", "registration_id": f"reg {ven_id}"}
            if records[ven_id]: d["fingerprint"] = sign.fp(records[ven_id])
            elif upper: d["fingerprint"] = None
            return d
        def fp_lookup(ven_id):
            n = records.get(ven_id)
            return sign.fp(n) if n else (None if upper else "")
        base = ven_lookup if style == "ven" else fp_lookup
        async def alook(ven_id):
            await asyncio.sleep(r.choice([0, .01, .1])); return base(ven_id)
        look = alook if is_async else base
        c.count("ven_lookup" if style == "ven" else "fingerprint_lookup")
        if not verify: c.count("verification_off")
        srv = world.server(None, verify_message_signatures=verify, **({"ven_lookup": look} if style == "ven" else {"fingerprint_lookup": look}))
        log = []
        slow = r.choice([0, 0, .01, .2])
        def handler(kind, key, ret=None):
            async def h(*a, **k):
                log.append((kind, key(*a, **k)))
                if slow: await asyncio.sleep(slow)
                return ret(*a, **k) if ret else None
            return h
        srv.add_handler("on_create_party_registration", handler("register", lambda p: (p.get("ven_id"), p["ven_name"], p.get("fingerprint")), lambda p: (p.get("ven_id") or f"new {p['ven_name']}", "reg")))
        srv.add_handler("on_cancel_party_registration", handler("cancel", lambda *a, **k: (a[0] if a else k).get("registration_id") if isinstance((a[0] if a else k), dict) else str(a) + str(k)))
        async def on_register_report(ven_id, resource_id, measurement, unit, scale, min_sampling_interval, max_sampling_interval):
            log.append(("offer", (ven_id, resource_id)))
            if slow: await asyncio.sleep(slow)
            async def cb(values): log.append(("update", (ven_id, tuple(v for _, v in values))))
            return cb, min_sampling_interval
        srv.add_handler("on_register_report", on_register_report)
        srv.add_handler("on_created_event", handler("created", lambda ven_id, event_id, opt_type: (ven_id, event_id, opt_type)))
        count = [0]
        def new_event(v):
            count[0] += 1
            eid = gen.uid(r, "pm")
            async def cb(ven_id, event_id, opt_type): log.append(("created", (ven_id, event_id, opt_type)))
            srv.add_event(ven_id=v.id, signal_name="simple", signal_type="level", event_id=eid, callback=cb,
                          intervals=[{"dtstart": datetime.now(UTC) + timedelta(days=30), "duration": timedelta(hours=1), "signal_payload": 1}])
            v.events[eid] = "new"; v.updated = True
        for v in vens:
            for _ in range(r.choice([0, 1, 2])): new_event(v)
        mark = [0]
        def build(v, kind):
            """(element, expected handler calls when acted on)"""
            mark[0] += 1; m = mark[0]
            rid = f"rq{m}"
            if kind == "poll": return oadr.poll(v.id), []
            if kind == "request": return oadr.request_event(v.id, rid), []
            if kind == "created":
                eid = r.choice(list(v.events) or ["none"])
                opt = r.choice(["optIn", "optOut"])
                return oadr.created_event(v.id, [(eid, 0, opt, rid, 200)]), ("created", eid, opt)
            if kind == "register": return oadr.create_party_registration(rid, ven_id=v.id, ven_name=f"name{m}", registration_id=f"reg {v.id}"), [("register", (v.id, f"name{m}"))]
            if kind == "new": return oadr.create_party_registration(rid, ven_id=None, ven_name=f"name{m}"), [("register", (None, f"name{m}"))]
            if kind == "query": return oadr.query_registration(rid), []
            if kind == "cancel": return oadr.cancel_party_registration(rid, f"reg{m}", v.id), [("cancel", f"reg{m}")]
            if kind == "unnamed_cancel": return oadr.cancel_party_registration(rid, f"reg{m}", None), []
            if kind == "offer":
                d = dict(r_id="r", type="usage", source=[("resource_id", f"res{m}")], measurement=dict(name="voltage", description="Voltage", unit="V"), min=timedelta(seconds=10), max=timedelta(seconds=10))
                return oadr.register_report(rid, v.id, [oadr.report_offer(f"spec{m}", "METADATA_TELEMETRY_USAGE", [d])]), [("offer", (v.id, f"res{m}"))]
            if kind == "update":
                req = r.choice(v.requests or [None])
                if req is None: return oadr.update_report(rid, v.id, [oadr.report_data("nosuch", "nospec", [("r", datetime.now(UTC), m)])]), []
                return oadr.update_report(rid, v.id, [oadr.report_data(req[0], req[1], [("r", datetime.now(UTC), m)])]), [("update", (v.id, (float(m),)))]
        async def one(v, kind, conn, signer, embed, expect):
            el, calls = build(v, kind)
            if kind == "created":
                _, eid, opt = calls
                calls = [("created", (v.id, eid, opt))] if v.events.get(eid) == "new" else []
            if signer is not None:
                nonce[0] += 1
                bodyb = sign.signed(el, signer, datetime.now(UTC), nonce=f"{c.seed}-{c.index}-{nonce[0]}", embed=embed, b64wrap=r.random() < .5)
            else:
                bodyb = oadr.msg(el)
            svc = SERVICES.get(kind, "EiRegisterParty")
            ans = await world.post(srv, svc, bodyb, peer=sign.der(conn) if conn else None, tls=True)
            return v, kind, ans, calls, conn
        shape = []
        steps = r.choice([6, 10, 16])
        async def go(batch, desc):
            before = len(log)
            states = {id(x): (x.updated, dict(x.events)) for x in vens}
            res = await asyncio.gather(*[one(*b[:5], b[5]) for b in batch])
            got = list(log[before:])
            c.count("handler_calls", len(got))
            want = []
            for (v, kind, ans, calls, conn), b in zip(res, batch):
                ok = b[5]
                tag = f"{kind} naming {v.id!r} (record {records.get(v.id, 'unknown')!r}), connection {b[2]!r}, signed by {b[3]!r} with certificate {b[4]!r}, verification {verify}, {style} lookup -> {ans} | {desc}"
                c.note(tag)
                if ok:
                    c.count("authorised")
                    want += calls
                    good = ans.status == 200 and ans.bad is None and (ans.code in (200, None) or str(ans.code) == "200") and ans.type != "oadrRequestReregistration"
                    if not c.check(good, "legitimate-request-refused", tag): continue
                    if kind == "poll":
                        upd, evs = states[id(v)]
                        if len([b2 for b2 in batch if b2[0] is v and b2[5] and b2[1] in ("poll", "created", "request")]) == 1:
                            if upd:
                                c.check(sorted(e["event_id"] for e in ans.events) == sorted(evs), "events-changed", lambda: f"poll should deliver {list(evs)}: {tag} {[e['event_id'] for e in ans.events]}")
                                c.count("events_kept")
                            else:
                                c.check(ans.type == "oadrResponse", "events-changed", f"nothing is new for this VEN: {tag}")
                        v.updated = False
                    elif kind == "request":
                        if len([b2 for b2 in batch if b2[0] is v and b2[5] and b2[1] == "created"]) == 0:
                            c.check(sorted(e["event_id"] for e in ans.events) == sorted(states[id(v)][1]), "events-changed", lambda: f"{tag} {[e['event_id'] for e in ans.events]} expected {list(states[id(v)][1])}")
                            c.count("events_kept")
                    elif kind == "created":
                        for _, (vid, eid, opt) in calls: v.events[eid] = "answered"
                    elif kind == "offer" and ans.type == "oadrRegisteredReport":
                        m = int(calls[0][1][1][3:])
                        for el in ans.el.iter():
                            if isinstance(el.tag, str) and wire.local(el) == "reportRequestID": v.requests.append((el.text, f"spec{m}"))
                else:
                    c.count("refused")
                    refused = ans.status in (400, 401, 403) or ans.type == "oadrRequestReregistration" or (ans.status == 200 and ans.bad is None and ans.code is not None and str(ans.code) != "200")
                    c.check(refused, "unauthorised-request-accepted", tag)
                    c.check(not ans.events, "events-disclosed", tag)
            def key(x): return repr(x)
            norm = []
            for k, v in got:
                if k == "register":
                    norm.append((k, v[:2]))
                    cn = next((b[2] for b, rr in zip(batch, res) if any(cc == (k, v[:2]) for cc in rr[3])), "?")
                    c.check(cn == "?" or v[2] == (sign.fp(cn) if cn else None), "wrong-fingerprint-reported", f"registration over certificate {cn} reported {v[2]}")
                else: norm.append((k, v))
            c.check(sorted(map(key, norm)) == sorted(map(key, want)), "handler-calls-wrong", lambda: f"requests {[(b[0].id, b[1:6]) for b in batch]} records {records}: handlers ran {norm}, expected {want}")
        for s in range(steps):
            if r.random() < .25:
                v = r.choice(vens)
                i = vens.index(v)
                x = r.random()
                if x < .3: records.pop(v.id, None); what = "withdrawn"
                elif x < .5 and i == 0: records[v.id] = "v0renewed"; what = "renewed"
                elif x < .7: records[v.id] = None; what = "no fingerprint"
                else: records[v.id] = f"v{i}"; what = "added"
                c.count("record_changed"); c.note(f"record of {v.id}: {what}")
            if r.random() < .2: new_event(r.choice(vens))
            batch = []
            used = set()
            for _ in range(r.choice([1, 1, 2, 3, 6])):
                v = r.choice(vens + [ghost] if r.random() < .3 else vens)
                kind = r.choice(["poll", "poll", "request", "created", "register", "cancel", "offer", "update", "created", "new", "query", "unnamed_cancel"])
                rec = records.get(v.id)
                own = rec or "v1"
                wrong = [n for n in ["v0", "v1", "v2", "v3", "v0renewed", "self", "foreign", "vtn", "ca"] if n != rec]
                mode = r.random()
                if kind in ("new", "query"):
                    ok, conn, signer, embed = True, r.choice(wrong + [own, None]), r.choice([None, "self", own]), None
                    if conn is None and kind == "new": pass
                    c.count("new_registrations")
                elif kind == "unnamed_cancel":
                    ok, conn, signer, embed = False, r.choice(wrong + [own, None]), r.choice([None, own]), None
                    c.count("unnamed")
                elif mode < .45:      # everything right, when there is a record
                    conn, signer, embed = own, own if verify or r.random() < .5 else None, None
                    ok = rec is not None
                else:
                    conn, signer, embed = own, own if verify or r.random() < .5 else None, None
                    w = r.choice(["conn", "noconn", "sign", "unsigned", "embed", "all"])
                    if not verify and w in ("sign", "unsigned", "embed"): w = r.choice(["conn", "noconn", "all"])
                    if w == "conn": conn = r.choice(wrong); c.count("wrong_connection")
                    if w == "noconn": conn = None; c.count("no_connection_cert")
                    if w == "sign": signer = r.choice(wrong); c.count("wrong_signature_cert")
                    if w == "unsigned": signer = None; c.count("unsigned")
                    if w == "embed": signer, embed = r.choice([n for n in wrong if not (n == "v0" and own == "v0renewed") and not (n == "v0renewed" and own == "v0")]), r.choice([own, [own, "self"], ["self", own]]); c.count("wrong_signature_cert")
                    if w == "all": conn = signer = r.choice(wrong); c.count("wrong_connection")
                    if "v0renewed" in (conn, signer): c.count("renewed_cert")
                    ok = False
                if kind not in ("new", "query", "unnamed_cancel"):
                    if v.id not in records: c.count("unknown_ven")
                    elif rec is None: c.count("no_record")
                # one authorised state-changing request of a kind per VEN and batch keeps the expectation exact
                if ok and kind == "created" and not v.events: continue
                if ok and kind in ("created", "update", "poll", "request"):
                    if v.id in used: continue
                    used.add(v.id)
                batch.append((v, kind, conn, signer, embed, ok))
            if len(batch) > 1: c.count("concurrent")
            if batch:
                await go(batch, f"step {s}")
                shape.append(tuple(sorted((b[1], b[5]) for b in batch)))
            if r.random() < .5: await asyncio.sleep(r.choice([.1, 1, 6]))
        # whatever happened, every VEN with a record still gets what is its own
        for v in vens:
            if records.get(v.id):
                await go([(v, "request", records[v.id], records[v.id], None, True)], "final")
        c.sig(style, is_async, verify, tuple(shape))
        c.sample({"style": style, "verify": verify, "records": records, "log": log[:5]})
    c.run(body, start=vloop.EPOCH + timedelta(minutes=5 * c.index))

def real(c):
    """Real sockets, real TLS handshakes, the real client."""
    import aiohttp, socket, ssl
    r = c.rng
    vloop.release_wall()
    fabric.uninstall()
    async def body():
        s = socket.socket(); s.bind(("127.0.0.1", 0)); port = s.getsockname()[1]; s.close()
        records = {"ven 0": "v0", "ven & 3": "v3"}
        log = []
        def lookup(ven_id):
            return {"ven_id": ven_id, "registration_id": "reg", "fingerprint": sign.fp(records[ven_id])} if ven_id in records else None
        from openleadr import OpenADRServer, OpenADRClient
        srv = OpenADRServer(vtn_id="VTN_1", http_port=port, http_cert=sign.path("vtn", "crt"), http_key=sign.path("vtn", "key"), http_ca_file=sign.path("ca", "crt"),
                            ven_lookup=lookup, show_fingerprint=False, requested_poll_freq=timedelta(seconds=1), **sign.paths("vtn"))
        async def reg(p):
            log.append(("register", p["ven_name"], p["fingerprint"]))
            return next(((v, "reg") for v, n in records.items() if sign.fp(n) == p["fingerprint"]), False)
        async def canc(p): log.append(("cancel",)); 
        srv.add_handler("on_create_party_registration", reg)
        srv.add_handler("on_cancel_party_registration", canc)
        answers = []
        for v in records:
            srv.add_event(ven_id=v, signal_name="simple", signal_type="level", event_id=f"event of {v}", callback=lambda ven_id, event_id, opt_type: answers.append((ven_id, event_id, opt_type)),
                          intervals=[{"dtstart": datetime.now(UTC) + timedelta(days=1), "duration": timedelta(hours=1), "signal_payload": 1}])
        import io, contextlib
        with contextlib.redirect_stdout(io.StringIO()):
            await srv.run()
        url = f"https://127.0.0.1:{port}/OpenADR2/Simple/2.0b"
        async def raw(el, conn, signer):
            ctx = ssl.create_default_context(cafile=sign.path("ca", "crt")); ctx.check_hostname = False
            if conn: ctx.load_cert_chain(sign.path(conn, "crt"), sign.path(conn, "key"), sign.PASS.get(conn))
            b = sign.signed(el, signer, datetime.now(UTC), nonce=f"{c.index}-{r.random()}") if signer else oadr.msg(el)
            try:
                async with aiohttp.ClientSession() as s:
                    async with s.post(f"{url}/{world.SERVICE[wire.local(el)]}", data=b, headers={"Content-Type": "application/xml"}, ssl=ctx) as resp:
                        return world.Ans(resp.status, await resp.read())
            except (aiohttp.ClientError, ssl.SSLError, OSError) as e:
                return e
        clients = {}
        try:
            for v, n in records.items():
                cl = OpenADRClient(ven_name=v, vtn_url=url, ca_file=sign.path("ca", "crt"), vtn_fingerprint=sign.fp("vtn"), show_fingerprint=False, check_hostname=r.random() < .5, **sign.paths(n))
                seen = []
                cl.add_handler("on_event", lambda e, seen=seen: (seen.append(e["event_descriptor"]["event_id"]), "optIn")[1])
                clients[v] = (cl, seen)
                bad = await raw(oadr.poll(v), "v1", "v1")
                c.check(isinstance(bad, world.Ans) and str(bad.code) != "200" and not bad.events, "unauthorised-request-accepted", f"real TLS: {v} polled with another VEN's certificate: {bad}")
                for conn in (None, "self", "foreign"):
                    n0 = len(log)
                    x = await raw(oadr.create_party_registration("r", ven_name="intruder"), conn, None)
                    c.check(not isinstance(x, world.Ans) and len(log) == n0, "unauthorised-request-accepted", f"real TLS: a connection with client certificate {conn!r} was served: {x}")
                    c.count("real_tls_refused")
                await asyncio.wait_for(cl.run(), 20)
            for _ in range(60):
                await asyncio.sleep(.1)
                if all(s for _, s in clients.values()) and len(answers) == 2: break
            for v, (cl, seen) in clients.items():
                c.check(seen == [f"event of {v}"], "legitimate-request-refused", f"real TLS: {v} received {seen}")
                ok = await raw(oadr.poll(v), records[v], records[v])
                c.check(isinstance(ok, world.Ans) and ok.status == 200 and str(ok.code) == "200", "legitimate-request-refused", f"real TLS: {v} {ok}")
            c.check(sorted(answers) == sorted((v, f"event of {v}", "optIn") for v in records), "legitimate-request-refused", f"real TLS: answers {answers}")
            # an impostor of the VTN is not believed
            cl = OpenADRClient(ven_name="x", vtn_url=url, ca_file=sign.path("ca", "crt"), vtn_fingerprint=sign.fp("vtn2"), show_fingerprint=False, check_hostname=False, **sign.paths("v0"))
            t, p = await cl.query_registration()
            c.check(t is None, "impostor-vtn-believed", f"the VTN's messages are signed with another certificate than the expected one: {t} {p}")
            await cl.client_session.close()
            c.count("real_tls")
        finally:
            for cl, _ in clients.values():
                try: await asyncio.wait_for(cl.stop(), 10)
                except Exception: pass
            await srv.stop()
    try:
        asyncio.run(asyncio.wait_for(body(), 90))
    finally:
        fabric.install()
    c.sig("real", c.index % 2)
