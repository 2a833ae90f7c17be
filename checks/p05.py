"""P05: every VTN answer matches its request."""
import asyncio
from datetime import datetime, timedelta, timezone
import gen, oadr, wire, world
ID = "P05"
CASES = {"quick": 800, "thorough": 24000}
RULE = ("each case sends a random mixture of all message types from several VENs, many at the same time, to right and wrong endpoints and naming this or another VTN, to a VTN whose handlers take random times "
        "and now and then raise protocol errors; every answer is compared with its own request (type, code, request id, VEN and VTN id, content derived from that request's handler), and handler runs with the requests that may cause them; "
        "signature = multiset of (message, endpoint, vtn id, handler outcome, concurrency)")
ASSUME = ["messages that carry no request id of their own (oadrPoll, and responses sent by the VEN) are not matched by request id"]
REQUIRED = ["accepted", "wrong_endpoint", "other_vtn", "handler_errors", "concurrent", "sequential", "handler_runs", "empty_answers", "registrations", "report_offers", "events_answers", "external_mode"]
UTC = timezone.utc
ENDPOINTS = ["EiEvent", "OadrPoll", "EiRegisterParty", "EiReport"]
RIGHT = {"poll": "OadrPoll", "request": "EiEvent", "created": "EiEvent", "query": "EiRegisterParty", "register": "EiRegisterParty", "cancel": "EiRegisterParty",
         "offer": "EiReport", "update": "EiReport", "createdreport": "EiReport"}

NOID = ("oadrCreatedReport", "oadrCreatedEvent", "oadrCreatedPartyRegistration", "oadrUpdatedReport", "oadrCanceledPartyRegistration", "oadrDistributeEvent", "oadrRequestReregistration", "oadrPoll")

def setup():
    global errors, objects, ERR
    from openleadr import errors, objects
    ERR = [(errors.OutOfSequenceError, 450), (errors.NotAllowedError, 451), (errors.InvalidIdError, 452), (errors.NotRecognizedError, 453), (errors.InvalidDataError, 454), (errors.ComplianceError, 459),
           (errors.SignalNotSupportedError, 460), (errors.ReportNotSupportedError, 461), (errors.TargetMismatchError, 462), (errors.NotRegisteredOrAuthorizedError, 463), (errors.DeploymentError, 469)]

def case(c):
    r = c.rng
    shape = []
    async def body(loop):
        vtn_id = r.choice(["VTN_1", "vtn &<1>", gen.uid(r, "nu"), "007"])
        ext = r.random() < .35
        srv = world.server(vtn_id=vtn_id, requested_poll_freq=timedelta(seconds=r.choice([5, 10, 90])), http_path_prefix=r.choice(["/OpenADR2/Simple/2.0b", "/x", "/x/", ""]))
        if ext: c.count("external_mode")
        runs = []             # (handler, key, outcome)
        rate = r.choice([0, .2, .5])
        async def act(handler, key, value):
            err = None
            if r.random() < rate:
                cls, code = r.choice(ERR)
                desc = gen.txt(r, "pmu") if r.random() < .8 else None
                err = (code, desc)
            runs.append((handler, key, err, value)); c.count("handler_runs")
            n = r.choice([0, 0, .01, .2, 1])
            if n: await asyncio.sleep(n)
            if err:
                raise (cls(desc) if desc is not None else cls())
            return value
        async def on_register(info):
            c.count("registrations")
            n = info["ven_name"]
            return await act("register", n, (f"ven-of-{n}", f"reg-of-{n}"))
        async def on_cancel(info):
            return await act("cancel", info["registration_id"], r.choice([None, ("oadrCanceledPartyRegistration", {"registration_id": info["registration_id"]})]))
        async def on_offer(ven_id, resource_id, measurement, unit, scale, min_sampling_interval, max_sampling_interval):
            c.count("report_offers")
            async def cb(values):
                await act("values", f"{resource_id}", None)
            return await act("offer", resource_id, (cb, min_sampling_interval))
        async def on_update(report):
            await act("update", report["report_specifier_id"], None)
        async def on_createdreport(payload):
            await act("createdreport", (payload["ven_id"], tuple(p["report_request_id"] for p in payload["pending_reports"])), None)
        srv.add_handler("on_create_party_registration", on_register)
        srv.add_handler("on_cancel_party_registration", on_cancel)
        if r.random() < .7: srv.add_handler("on_register_report", on_offer); offers = True
        else: offers = False
        srv.add_handler("on_update_report", on_update)
        if r.random() < .5: srv.add_handler("on_created_report", on_createdreport); crep = True
        else: crep = False
        vens = [gen.uid(r, "pnmu") for _ in range(3)]
        mine = {v: [] for v in vens}
        def ev(v):
            eid = gen.uid(r, "pn")
            mine[v].append(eid)
            return dict(event_descriptor=dict(event_id=eid, modification_number=0, market_context="http://mc", event_status="far", created_date_time=datetime.now(UTC), priority=0),
                        active_period=dict(dtstart=datetime.now(UTC) + timedelta(hours=1), duration=timedelta(hours=1)),
                        event_signals=[dict(intervals=[dict(dtstart=datetime.now(UTC) + timedelta(hours=1), duration=timedelta(hours=1), signal_payload=1)], signal_name="SIMPLE", signal_type="level", signal_id="s")],
                        targets=[{"ven_id": v}], response_required="always")
        if ext:
            async def on_poll(ven_id):
                return await act("poll", ven_id, r.choice([None, ev(ven_id)]))
            async def on_request(ven_id):
                return await act("request", ven_id, r.choice([None, [ev(ven_id)], [ev(ven_id), ev(ven_id)]]))
            async def on_created(ven_id, event_id, opt_type):
                await act("created", (ven_id, event_id), None)
            srv.add_handler("on_poll", on_poll); srv.add_handler("on_request_event", on_request); srv.add_handler("on_created_event", on_created)
        else:
            for v in vens:
                for _ in range(r.choice([0, 1, 2])):
                    e = ev(v)
                    async def cb(ven_id, event_id, opt_type):
                        runs.append(("created", (ven_id, event_id), None, None))
                    srv.add_raw_event(v, e, callback=cb)
        done = []
        k = [0]
        async def one():
            k[0] += 1
            n = k[0]
            kind = r.choice(list(RIGHT) + ["other"])
            v = r.choice(vens)
            rid = r.choice([f"rid-{n}", gen.uid(r, "pnmu")])
            key = None
            if kind == "poll": el = oadr.poll(v); key = v; rid = None
            elif kind == "request": el = oadr.request_event(v, rid); key = v
            elif kind == "created":
                es = r.sample(mine[v], min(len(mine[v]), r.choice([0, 1, 2])))
                if not es and not ext: es = []
                if ext and not es: es = [f"e{n}"]
                el = oadr.created_event(v, [(e, 0, "optIn") for e in es] or [("no-such-event", 0, "optIn")], rid=rid); key = [(v, e) for e in es]
            elif kind == "query": el = oadr.query_registration(rid)
            elif kind == "register": key = f"name-{n}-{gen.txt(r, 'pu')}".strip(); el = oadr.create_party_registration(rid, ven_id=r.choice([None, v]), ven_name=key, profile=r.choice(["2.0a", "2.0b"]), transport=r.choice(["simpleHttp", "xmpp"]))
            elif kind == "cancel": key = f"reg-{n}"; el = oadr.cancel_party_registration(rid, key, v)
            elif kind == "offer":
                key = [f"res-{n}-{j}" for j in range(r.choice([1, 2, 3]))]
                ds = [dict(r_id=f"rid-{x}", source=[("resource_id", x)], measurement=dict(name="voltage", description="Voltage", unit="V", scale="none"), min=timedelta(seconds=10), max=timedelta(seconds=10)) for x in key]
                cut = r.choice([0, 1]) if len(ds) > 1 else 0
                groups = [g for g in (ds[:cut], ds[cut:]) if g]
                el = oadr.register_report(rid, v, [oadr.report_offer(f"spec-{n}-{j}", "METADATA_TELEMETRY_USAGE", g) for j, g in enumerate(groups)])
            elif kind == "update": key = f"spec-{n}"; el = oadr.update_report(rid, v, [oadr.report_data(f"rr-{n}", key, [("a", datetime.now(UTC), 1.0)])])
            elif kind == "createdreport": key = (v, (f"rr-{n}",)); el = oadr.created_report(rid, v, [f"rr-{n}"])
            else:
                el = r.choice([lambda: oadr.create_opt(rid, v, "o"), lambda: oadr.cancel_opt(rid, v, "o"), lambda: oadr.distribute_event(rid, [], r.choice([vtn_id, vtn_id, vtn_id + "x", "VTN_2", vtn_id.swapcase(), vtn_id[:-1]])),
                               lambda: oadr.created_party_registration(rid, v, "reg", r.choice([vtn_id, vtn_id + " 2", vtn_id.swapcase()])), lambda: oadr.oadr_response(200, rid, v), lambda: oadr.request_reregistration(v),
                               lambda: oadr.create_report(rid, v, [oadr.report_request("q", "s", timedelta(seconds=1), timedelta(seconds=1), [("x", "Direct Read")])]), lambda: oadr.updated_report(rid, v), lambda: oadr.canceled_party_registration(200, rid, "reg", v)])()
            mt = el.tag.split("}")[1]
            ep = RIGHT.get(kind) or r.choice(ENDPOINTS)
            wrong = kind == "other"
            if kind != "other" and r.random() < .2:
                ep = r.choice([e for e in ENDPOINTS if e != ep]); wrong = True
            vt = wire.text(el, "vtnID")
            other = vt is not None and vt != vtn_id
            before = len(runs)
            ans = await world.post(srv, ep, el)
            done.append((n, kind, v, rid, key, mt, ep, wrong, other, ans, el))
        for _ in range(r.choice([2, 4])):
            m = r.choice([1, 1, 4, 12])
            c.count("sequential" if m == 1 else "concurrent", m)
            async def later():
                if m > 1: await asyncio.sleep(r.choice([0, 0, .005, .1, .5]))
                await one()
            await asyncio.gather(*[later() for _ in range(m)])
        by = {}
        for h, key, err, val in runs:
            by.setdefault((h, key if not isinstance(key, list) else tuple(key)), []).append((err, val))
        allowed = set()
        for n, kind, v, rid, key, mt, ep, wrong, other, ans, el in done:
            what = lambda: f"#{n} {mt} to {ep} (vtn {wire.text(el, 'vtnID')!r}, ours {vtn_id!r}): {ans} {ans.body[-1200:]}"
            shape.append((mt, ep, other))
            if not c.check(ans.status == 200, "not-answered", what): continue
            if mt == "oadrResponse":
                c.count("empty_answers")
                c.check(ans.body == b"", "answer-to-a-response", what)
                continue
            if not c.check(ans.bad is None and ans.type, "invalid-answer", what): continue
            rs = ans.response
            if wrong or other:
                c.count("other_vtn" if other else "wrong_endpoint")
                c.check(rs["code"] == (452 if other else 459), "wrong-code", what)
                own = wire.text(el, "requestID")
                ok = (own, own or None) if mt not in NOID else (own, own or None, "None", "", None)
                c.check(rs["request_id"] in ok or not own, "wrong-request-id", what)
                c.check(ans.type == "oadrResponse", "wrong-answer-type", what)
                continue
            want = {"poll": ("oadrDistributeEvent", "oadrResponse"), "request": ("oadrDistributeEvent", "oadrResponse"), "created": ("oadrResponse",), "query": ("oadrCreatedPartyRegistration",), "register": ("oadrCreatedPartyRegistration",),
                    "cancel": ("oadrCanceledPartyRegistration",), "offer": ("oadrRegisteredReport",), "update": ("oadrUpdatedReport",), "createdreport": ("oadrResponse",)}[kind]
            hs = []
            if kind == "register" or kind == "cancel" or kind == "update": hs = [(kind, key)]
            elif kind == "offer" and offers: hs = [("offer", x) for x in key]
            elif kind == "createdreport" and crep: hs = [("createdreport", key)]
            errs = [e for h in hs for e, _ in by.get(h, [])]
            for h in hs:
                allowed.add(h)
                if kind == "update" and offers:      # with data points requested, values go to their callbacks instead
                    c.check(len(by.get(h, [])) <= 1, "handler-not-run-once", what)
                    continue
                c.check(len(by.get(h, [])) == 1 or kind == "offer" and any(errs), "handler-not-run-once", lambda: f"{h} ran {len(by.get(h, []))} times; {what()}")
            errs = [e for e in errs if e]
            if ext and kind in ("poll", "request", "created"):
                # several requests may share the key: match by what was raised and returned
                ks = [(kind, v)] if kind != "created" else [("created", x) for x in key]
                allowed.update(ks)
                poss = [e for q in ks for e, _ in by.get(q, [])]
                if rs["code"] != 200:
                    ok = [e for e in poss if e and e[0] == rs["code"] and (e[1] is None or e[1].strip() == (rs["description"] or "").strip())]
                    c.check(ok, "error-not-raised-by-handler", lambda: f"{poss} {what()}")
                    errs = ok[:1]
                elif kind == "created":
                    c.check(not poss or any(not e for e in poss), "handler-error-not-reported", what)
            if kind == "created" and not ext:
                allowed.update(("created", x) for x in key)
            if errs:
                c.count("handler_errors")
                hit = [e for e in errs if e[0] == rs["code"] and (e[1] is None or e[1].strip() == (rs["description"] or "").strip())]
                c.check(hit, "handler-error-misreported", lambda: f"raised {errs}, {what()}")
                c.check(rid is None or kind in ("created", "createdreport") or rs["request_id"] == rid, "wrong-request-id", what)
                c.check(ans.type in ("oadrResponse", want[0]), "wrong-answer-type", what)
                if kind == "register": c.check(not wire.text(ans.el, "registrationID"), "registered-in-spite-of-error", what)
                continue
            if kind == "created" and not ext and not key:
                c.check(rs["code"] == 452, "wrong-code", what)
                continue
            c.count("accepted")
            c.check(rs["code"] == 200, "wrong-code", what)
            c.check(ans.type in want, "wrong-answer-type", what)
            if kind not in ("poll", "created", "createdreport"):
                c.check(rs["request_id"] == rid, "wrong-request-id", what)
            vid = wire.text(ans.el, "venID")
            if kind == "register":
                c.check(vid == f"ven-of-{key}" and wire.text(ans.el, "registrationID") == f"reg-of-{key}", "answer-of-another-request", what)
            elif kind not in ("query",) and ans.type not in ("oadrDistributeEvent",):
                c.check(vid == v, "wrong-ven-id", what)
            if ans.type in ("oadrDistributeEvent", "oadrCreatedPartyRegistration"):
                c.check(wire.text(ans.el, "vtnID") == vtn_id, "wrong-vtn-id", what)
            if kind == "cancel":
                c.check(wire.text(ans.el, "registrationID") == key, "answer-of-another-request", what)
            if ans.type == "oadrDistributeEvent":
                c.count("events_answers")
                c.check(ans.events and all(x["event_id"] in mine[v] for x in ans.events), "events-of-another-ven", what)
            elif kind == "request" and not ext:
                c.check(not mine[v], "events-missing", what)
            if kind == "offer":
                got = [p[0] for q in wire.report_requests(ans.el) for p in q["payloads"]]
                c.check(got == ([f"rid-{x}" for x in key] if offers else []), "answer-of-another-request", lambda: f"{got} {what()}")
        for h, key, err, val in runs:
            c.check((h, key if not isinstance(key, list) else tuple(key)) in allowed, "handler-ran-for-refused-message", lambda: f"{h} {key}; {[(d[0], d[1], d[4], d[6], d[7], d[8]) for d in done]}")
    c.run(body)
    c.sig(sorted(shape))
    c.sample({"requests": shape[:10]})
