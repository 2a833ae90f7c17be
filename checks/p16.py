"""P16: the VTN registers exactly the VENs its operator accepts."""
import asyncio, hashlib
from datetime import datetime, timedelta, timezone
import gen, oadr, wire, world
ID = "P16"
CASES = {"quick": 4000, "thorough": 40000}
RULE = ("each case is a VTN with or without a VEN lookup (plain, async or slow, whose records come and go) and registration handlers of every kind, and a random sequence of registrations, cancellations and all other requests "
        "from known, unknown and half-registered VENs, some at the same time; a ledger of what the operator decided is compared with each answer and each handler run, and every event queued for a VEN that was turned away must still be delivered once it is known; "
        "signature = sequence of (message, operator decision, known?)")
ASSUME = ["operator handlers return one of the documented results"]
REQUIRED = ["accepted", "refused", "bad_result", "no_handler", "queries", "cancelled", "cancel_result_given", "turned_away", "turned_away_then_served", "known", "half_registered", "concurrent", "no_lookup", "tls"]
UTC = timezone.utc

def case(c):
    r = c.rng
    shape = []
    async def body(loop):
        freq = r.choice([timedelta(seconds=1), timedelta(seconds=10), timedelta(seconds=90), timedelta(hours=1, minutes=1), timedelta(days=1), timedelta(days=30)])
        vtn_id = gen.uid(r, "pnmu")
        table = {}
        runs = []
        mode = r.choice(["none", "plain", "async", "slow"])
        looked = []
        if mode != "none":
            if mode == "plain":
                def lookup(ven_id):
                    looked.append(ven_id); return table.get(ven_id)
            else:
                async def lookup(ven_id):
                    looked.append(ven_id)
                    if mode == "slow": await asyncio.sleep(.05)
                    return table.get(ven_id)
            srv = world.server(vtn_id=vtn_id, requested_poll_freq=freq, ven_lookup=lookup)
        else:
            c.count("no_lookup")
            srv = world.server(vtn_id=vtn_id, requested_poll_freq=freq)
        decisions = {}
        def result(info):
            d = decisions[info["ven_name"]]
            runs.append(("register", info["ven_name"], dict(info)))
            return d
        kind = r.choice(["plain", "async", "slow", "none"] if r.random() < .2 else ["plain", "async", "slow"])
        if kind == "plain": srv.add_handler("on_create_party_registration", result)
        elif kind != "none":
            async def on_reg(info):
                d = result(info)
                if kind == "slow": await asyncio.sleep(r.choice([0, .02, .3]))
                return d
            srv.add_handler("on_create_party_registration", on_reg)
        cancels = {}
        ckind = r.choice(["plain", "async", "none"])
        def on_cancel(info):
            runs.append(("cancel", info["registration_id"], dict(info)))
            return cancels[info["registration_id"]]
        async def on_cancel_a(info):
            d = on_cancel(info)
            await asyncio.sleep(0); return d
        if ckind != "none": srv.add_handler("on_cancel_party_registration", on_cancel if ckind == "plain" else on_cancel_a)
        async def on_offer(ven_id, resource_id, measurement, unit, scale, min_sampling_interval, max_sampling_interval):
            runs.append(("offer", resource_id, ven_id)); return None
        srv.add_handler("on_register_report", on_offer)
        async def on_update(report): runs.append(("update", report["report_request_id"], None))
        srv.add_handler("on_update_report", on_update)
        vens = []
        while len(vens) < 4:
            v = gen.uid(r, "pnmu")
            if v not in vens: vens.append(v)
        ev = {}
        async def cb(ven_id, event_id, opt_type): runs.append(("opt", (ven_id, event_id), opt_type))
        for v in vens:
            ev[v] = srv.add_event(ven_id=v, signal_name="simple", signal_type="level", callback=cb, response_required="always",
                                  intervals=[dict(dtstart=datetime.now(UTC) + timedelta(hours=3), duration=timedelta(hours=1), signal_payload=1)])
        fresh = {v: True for v in vens}       # the event was not announced by a poll yet
        answered = {v: False for v in vens}
        turned = {v: 0 for v in vens}
        def change(v):
            x = r.choice(["full", "full", "noreg", "gone", "nokey"])
            if x == "gone": table.pop(v, None)
            else:
                table[v] = {"ven_id": v, "ven_name": v, "registration_id": gen.uid(r, "nm"), "fingerprint": "AA"}
                if x == "noreg": table[v]["registration_id"] = None
                if x == "nokey": del table[v]["registration_id"]
            return x
        for v in vens: change(v)
        k = [0]
        async def one(free):
            k[0] += 1
            n = k[0]
            act = r.choice(["register"] * 4 + ["cancel"] * 2 + ["query", "poll", "poll", "poll", "request", "created", "offer", "update", "createdreport", "canceled"])
            v = r.choice(vens)
            rid = gen.uid(r, "pnmu") if r.random() < .5 else f"rid{n}"
            known = mode == "none" or bool(table.get(v) and table[v].get("registration_id") is not None)
            if v in table and not known: c.count("half_registered")
            before = len(runs)
            mine = lambda h, key: [x for x in runs[before:] if x[0] == h and x[1] == key]
            if act == "register":
                name = f"{gen.txt(r, 'pnmu').strip()} n{n}"
                vid = r.choice([None, None, v, gen.uid(r, "pm")])
                prof, tr = r.choice(["2.0a", "2.0b"]), r.choice(["simpleHttp", "xmpp"])
                nid, nreg = gen.uid(r, "pnmu"), gen.uid(r, "pnmu")
                d = r.choice([(nid, nreg), (nid, nreg), [nid, nreg], False, None, (nid, nreg, "x"), (nid,)])
                decisions[name] = d
                reg0 = r.choice([None, gen.uid(r, "p")])
                el = oadr.create_party_registration(rid, vid, name, reg0, prof, tr)
                tls = r.random() < .25 and mode == "none"
                der = r.randbytes(40) if tls else None
                if tls: c.count("tls")
                a = await world.post(srv, "EiRegisterParty", el, peer=der)
                what = lambda: f"register name={name!r} ven={vid!r} decision={d!r} handler={kind}: {a} {a.body[-1500:]}"
                shape.append((act, kind, d if not d else len(d)))
                if not c.check(a.status == 200 and a.bad is None and a.type == "oadrCreatedPartyRegistration", "wrong-answer", what): return
                c.check(a.code == 200 and a.response["request_id"] == rid, "wrong-answer", what)
                got_v, got_r = wire.text(a.el, "venID"), wire.text(a.el, "registrationID")
                if kind == "none":
                    c.count("no_handler")
                    c.check(not got_r and got_v in (vid, None, ""), "registered-without-handler", what)
                else:
                    m = mine("register", name)
                    if c.check(len(m) == 1, "handler-not-run-once", lambda: f"{m} {what()}"):
                        p = m[0][2]
                        c.check(str(p.get("request_id")) == rid and p["profile_name"] == prof and p["transport_name"] == tr and p.get("ven_id") == vid and p.get("registration_id") == reg0, "handler-given-other-request", lambda: f"{p} {what()}")
                        if tls:
                            h = hashlib.sha256(der).hexdigest().upper()[-20:]
                            c.check(p.get("fingerprint") == ":".join(h[i:i + 2] for i in range(0, 20, 2)), "wrong-fingerprint", lambda: f"{p} {der.hex()}")
                    if d and len(d) == 2:
                        c.count("accepted")
                        c.check(got_v == nid and got_r == nreg, "wrong-ids", what)
                    else:
                        c.count("refused" if not d else "bad_result")
                        c.check(not got_r and got_v in (vid, None, ""), "registered-although-refused", what)
                    c.check([wire.text(x) for x in a.el.iter("{*}oadrProfileName")] == [prof] and [wire.text(x) for x in a.el.iter("{*}oadrTransportName")] == [tr], "wrong-profile", what)
                c.check(wire.dur(wire.text(a.el, "oadrRequestedOadrPollFreq", "duration")) == freq, "wrong-poll-frequency", what)
                c.check(wire.text(a.el, "vtnID") == vtn_id, "wrong-vtn-id", what)
                return
            if act == "query":
                a = await world.post(srv, "EiRegisterParty", oadr.query_registration(rid))
                c.count("queries"); shape.append((act,))
                what = lambda: f"query: {a} {a.body[-1500:]}"
                if c.check(a.type == "oadrCreatedPartyRegistration" and a.code == 200, "wrong-answer", what):
                    c.check(not wire.text(a.el, "registrationID") and not wire.text(a.el, "venID") and a.response["request_id"] == rid, "registered-by-query", what)
                    c.check([wire.text(x) for x in a.el.iter("{*}oadrProfileName")] == ["2.0b"] and wire.dur(wire.text(a.el, "oadrRequestedOadrPollFreq", "duration")) == freq, "wrong-profile", what)
                return
            shape.append((act, known))
            key = None
            if act == "cancel":
                key = ("cancel", gen.uid(r, "pm") + f"c{n}")
                given = r.choice([None, None, ("oadrCanceledPartyRegistration", {"registration_id": key[1]}), ("oadrCanceledPartyRegistration", {"registration_id": key[1], "ven_id": v})])
                cancels[key[1]] = given
                if given and ckind != "none": c.count("cancel_result_given")
                el, ep = oadr.cancel_party_registration(rid, key[1], v), "EiRegisterParty"
            elif act == "poll": el, ep = oadr.poll(v), "OadrPoll"
            elif act == "request": el, ep = oadr.request_event(v, rid), "EiEvent"
            elif act == "created": el, ep, key = oadr.created_event(v, [(ev[v], 0, "optIn")], rid="x"), "EiEvent", ("opt", (v, ev[v]))
            elif act == "offer":
                key = ("offer", f"res{n}")
                el, ep = oadr.register_report(rid, v, [oadr.report_offer(f"s{n}", "METADATA_TELEMETRY_USAGE", [dict(r_id=f"i{n}", source=[("resource_id", key[1])], measurement=dict(name="voltage", description="Voltage", unit="V", scale="none"), min=timedelta(seconds=1), max=timedelta(seconds=9))])]), "EiReport"
            elif act == "update":
                key = ("update", f"rr{n}")
                el, ep = oadr.update_report(rid, v, [oadr.report_data(key[1], "s", [("a", datetime.now(UTC), 1.0)])]), "EiReport"
            elif act == "createdreport": el, ep = oadr.created_report(rid, v, ["q"]), "EiReport"
            else: el, ep = oadr.canceled_party_registration(200, rid, "reg", v), "EiRegisterParty"
            table0 = str(table.get(v))
            a = await world.post(srv, ep, el)
            what = lambda: f"{act} from {v!r}, lookup {mode}, record {table0}, known={known}: {a} {a.body[-1500:]}"
            if not c.check(a.status == 200 and a.bad is None and a.type, "wrong-answer", what): return
            if not known:
                c.count("turned_away"); turned[v] += 1
                c.check(a.type == "oadrRequestReregistration" and wire.text(a.el, "venID") == v, "unknown-ven-served", what)
                if key: c.check(not mine(*key) or act == "created" and answered[v], "unknown-ven-had-effect", lambda: f"{runs[before:]} {what()}")
                return
            c.count("known")
            c.check(a.type != "oadrRequestReregistration", "known-ven-turned-away", what)
            if act == "cancel":
                c.check(a.type == "oadrCanceledPartyRegistration" and a.code == 200 and a.response["request_id"] == rid and wire.text(a.el, "registrationID") == key[1] and wire.text(a.el, "venID") == v, "cancellation-not-confirmed", what)
                c.check(len(mine(*key)) == (0 if ckind == "none" else 1), "handler-not-run-once", lambda: f"{runs[before:]} {what()}")
                c.count("cancelled")
            elif act == "poll":
                if free:
                    c.check((a.type == "oadrDistributeEvent") == fresh[v], "effect-of-refused-request", lambda: f"event announced before: {not fresh[v]} {what()}")
                if a.type == "oadrDistributeEvent":
                    if turned[v]: c.count("turned_away_then_served")
                    fresh[v] = False
                    c.check([e["event_id"] for e in a.events] == [ev[v]], "wrong-answer", what)
                else: c.check(a.type == "oadrResponse", "wrong-answer", what)
            elif act == "request":
                c.check([e["event_id"] for e in a.events] == [ev[v]], "effect-of-refused-request", what)
            elif act == "created":
                if free:
                    c.check(len(mine(*key)) == (0 if answered[v] else 1), "effect-of-refused-request", lambda: f"{runs[before:]} {what()}")
                answered[v] = True
            elif key:
                c.check(len(mine(*key)) == 1, "handler-not-run-once", lambda: f"{runs[before:]} {what()}")
        for _ in range(r.choice([4, 10, 20])):
            if r.random() < .4: change(r.choice(vens))
            m = r.choice([1, 1, 1, 5])
            if m == 1: await one(True)
            else:
                c.count("concurrent", m)
                await asyncio.gather(*[one(False) for _ in range(m)])
                await asyncio.sleep(1)
        c.check(all(len([x for x in runs if x[0] == "opt" and x[1] == (v, ev[v])]) == (1 if answered[v] else 0) for v in vens), "effect-of-refused-request", lambda: f"{[x for x in runs if x[0] == 'opt']} {answered}")
    c.run(body)
    c.sig(shape)
    c.sample({"steps": [repr(x) for x in shape[:10]]})
