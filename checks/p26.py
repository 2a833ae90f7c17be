"""P26: an operator-supplied poll handler decides the poll answers."""
import asyncio, copy
from datetime import datetime, timedelta, timezone
import fabric, gen, oadr, wire, world
ID = "P26"
CASES = {"quick": 4000, "thorough": 40000}
RULE = ("a real VTN with an operator's poll, event request and event response handlers (plain, asynchronous, slow, sometimes failing) and one to three VENs posting polls, event requests and event responses one at a time or together; the handlers return every documented form (nothing, event as "
        "object or dict, lists, message type and payload, the same object again); each answer is compared with what the handler returned for exactly that call; signature = (handler kinds, sequence of forms)")
ASSUME = ["a failing poll handler may be answered with an error"]
REQUIRED = ["polls_at_once", "none", "event_dict", "event_object", "list_dicts", "list_objects", "list_empty", "pair_response", "pair_reregistration", "pair_cancel_registration", "pair_create_report", "pair_cancel_report", "pair_distribute", "reused_results", "concurrent", "async_handler", "plain_handler", "event_requests", "event_responses", "failing_handler", "prequeued", "real_client"]
UTC = timezone.utc
S = lambda x: timedelta(seconds=x)

def setup():
    global objects, enums
    from openleadr import objects, enums

def mk_event(r, as_object, n):
    """(event, what must arrive)"""
    start = datetime.now(UTC) + timedelta(days=r.randrange(-3, 30), seconds=r.randrange(86400))
    eid, ven = gen.uid(r, "pmun"), gen.txt(r)
    sigs, sexp = [], []
    total = None
    for k in range(r.choice([1, 1, 2])):
        d = gen.dur(r, hi=40000); parts = r.choice([1, 2, 3])
        if total is None: total = d * parts
        else: d = total / parts; d = S(int(d.total_seconds())) or S(1)
        ivs, t, ex = [], start, []
        for j in range(parts):
            v = gen.num(r); ivs.append(dict(dtstart=t, duration=d, signal_payload=v)); ex.append((t, d, float(v))); t += d
        sg = dict(signal_name=r.choice(["ELECTRICITY_PRICE", "LOAD_CONTROL", "x-own"]), signal_type=r.choice(["price", "level", "setpoint"]), signal_id=gen.uid(r, "pm"), intervals=ivs)
        sexp.append((sg["signal_name"], sg["signal_type"], sg["signal_id"], ex))
        if as_object: sg["intervals"] = [objects.Interval(**i) for i in ivs] if r.random() < .7 else ivs; sg = objects.EventSignal(**sg)
        sigs.append(sg)
    if len({sum((i[1] for i in s[3]), S(0)) for s in sexp}) > 1: sigs, sexp = sigs[:1], sexp[:1]
    desc = dict(event_id=eid, modification_number=r.choice([0, 1, 7]), market_context=f"http://mc/{n}?a=1&b=2", event_status=r.choice(["far", "near", "active", "cancelled", "completed"]), priority=r.choice([0, 1, 3]), created_date_time=gen.when(r))
    ap = dict(dtstart=start, duration=total, notification_period=r.choice([None, gen.dur(r)]))
    tgt = [{"ven_id": ven}]; resp = r.choice(["always", "never"])
    exp = dict(event_id=eid, mod=desc["modification_number"], mc=desc["market_context"], status=desc["event_status"], priority=desc["priority"], start=start, duration=total, notification=ap["notification_period"], signals=sexp, targets=[("ven_id", ven)], response=resp)
    if as_object:
        e = objects.Event(event_descriptor=objects.EventDescriptor(**desc), active_period=objects.ActivePeriod(**ap), event_signals=sigs, targets=[objects.Target(**t) for t in tgt] if r.random() < .5 else tgt, response_required=resp)
        # a new object takes its status from its period, unless it is a cancelled one
        exp["status"] = "cancelled" if desc["event_status"] == "cancelled" else e.event_descriptor.event_status
        return e, exp
    if r.random() < .2: del desc["priority"]; exp["priority"] = None
    ev = dict(event_descriptor=desc, active_period={k: v for k, v in ap.items() if v is not None}, event_signals=sigs, targets=tgt, response_required=resp)
    return ev, exp

def seen(e):
    return dict(event_id=e["event_id"], mod=e["modification_number"], mc=e["market_context"], status=e["status"], priority=e["priority"], start=e["start"], duration=e["duration"], notification=e["notification"],
                signals=[(s["name"], s["type"], s["id"], [(i["start"], i["duration"], i["value"]) for i in s["intervals"]]) for s in e["signals"]], targets=[tuple(t) for t in e["targets"]], response=e["response_required"])

def form(r, c, n, ven):
    """(value to return, form, expectation)"""
    k = r.choice(["none", "none", "event_dict", "event_object", "list_dicts", "list_objects", "list_empty", "pair_response", "pair_reregistration", "pair_cancel_registration", "pair_create_report", "pair_cancel_report", "pair_distribute"])
    if k == "none": return None, k, ("oadrResponse", None)
    if k in ("event_dict", "event_object"):
        e, x = mk_event(r, k == "event_object", n); return e, k, ("oadrDistributeEvent", [x])
    if k in ("list_dicts", "list_objects"):
        es = [mk_event(r, k == "list_objects", f"{n}.{j}") for j in range(r.choice([1, 2, 3]))]; return [e for e, _ in es], k, ("oadrDistributeEvent", [x for _, x in es])
    if k == "list_empty": return [], k, ("oadrDistributeEvent", [])
    if k == "pair_response": return ("oadrResponse", r.choice([{}, None])), k, ("oadrResponse", None)
    if k == "pair_reregistration": return ("oadrRequestReregistration", r.choice([{}, {"ven_id": ven}, None])), k, ("oadrRequestReregistration", None)
    if k == "pair_cancel_registration":
        g = gen.uid(r, "pmu"); return ("oadrCancelPartyRegistration", {"registration_id": g}), k, ("oadrCancelPartyRegistration", g)
    if k == "pair_create_report":
        q, sp, gr, back, rids = gen.uid(r, "pmu"), gen.uid(r, "pmu"), gen.dur(r), gen.dur(r), [gen.uid(r, "pm") for _ in range(r.choice([1, 2]))]
        rs = objects.ReportSpecifier(report_specifier_id=sp, granularity=gr, report_back_duration=back, specifier_payloads=[objects.SpecifierPayload(r_id=i, reading_type="Direct Read") for i in rids])
        rr = objects.ReportRequest(report_request_id=q, report_specifier=rs)
        import dataclasses
        return ("oadrCreateReport", {"report_requests": [rr if r.random() < .5 else dataclasses.asdict(rr)]}), k, ("oadrCreateReport", (q, sp, gr, back, rids))
    if k == "pair_cancel_report":
        q, f = gen.uid(r, "pmu"), r.random() < .5
        return ("oadrCancelReport", {"report_request_id": q, "report_to_follow": f}), k, ("oadrCancelReport", (q, f))
    e, x = mk_event(r, r.random() < .5, n)
    return ("oadrDistributeEvent", {"events": [e]}), k, ("oadrDistributeEvent", [x])

def case(c):
    r = c.rng
    shape = []
    async def body(loop):
        net = fabric.Net()
        srv = world.server(net)
        vens = [gen.uid(r, "pmun") for _ in range(r.choice([1, 2, 3]))]
        polls, reqs, resps, plan, calls = [], [], [], {v: [] for v in vens}, []
        bank = []          # results that are returned again
        mode = r.choice(["plain", "async", "slow"])
        c.count("plain_handler" if mode == "plain" else "async_handler")
        if r.random() < .3:
            # events queued before the operator takes over are not delivered by polls
            srv.add_event(ven_id=vens[0], signal_name="simple", signal_type="level", intervals=[{"dtstart": datetime.now(UTC), "duration": S(60), "signal_payload": 1}], callback=lambda ven_id, event_id, opt_type: None)
            c.count("prequeued")
        def take(kind, v):
            calls.append((kind, v))
            val, k, exp = plan[v].pop(0) if plan.get(v) else (None, "none", ("oadrResponse", None))
            if k == "fail": raise RuntimeError("operator's mistake")
            return val
        def wrap(kind):
            def f(ven_id): return take(kind, ven_id)
            async def af(ven_id):
                v = take(kind, ven_id)
                if mode == "slow": await asyncio.sleep(r.choice([0, .1, 1]))
                return v
            return f if mode == "plain" else af
        srv.add_handler("on_poll", wrap("poll"))
        srv.add_handler("on_request_event", wrap("request"))
        def crt(ven_id, event_id, opt_type): resps.append((ven_id, event_id, opt_type))
        async def acrt(ven_id, event_id, opt_type):
            if mode == "slow": await asyncio.sleep(.05)
            resps.append((ven_id, event_id, opt_type))
        srv.add_handler("on_created_event", crt if mode == "plain" else acrt)
        n = [0]
        async def one(v, kind):
            n[0] += 1
            if kind == "created":
                items = [(gen.uid(r, "pmun"), r.randrange(3), r.choice(["optIn", "optOut"]), f"q{j}", 200) for j in range(r.choice([0, 1, 2, 3]))]
                before = len(resps)
                a = await world.post(srv, "EiEvent", oadr.created_event(v, items, rid=f"rq{n[0]}"))
                c.count("event_responses")
                c.check(a.type == "oadrResponse" and a.code == 200, "event-response-refused", lambda: f"{items}: {a}")
                c.check([x for x in resps[before:] if x[0] == v and x[1] in {i[0] for i in items}] == [(v, i[0], i[2]) for i in items], "event-response-calls", lambda: f"{v!r} sent {items}, handler got {resps[before:]}")
                shape.append(("created", len(items))); return
            if bank and kind == "poll" and r.random() < .25: val, k, exp = copy.copy(r.choice(bank)); c.count("reused_results")
            else:
                val, k, exp = form(r, c, n[0], v)
                if kind == "poll" and r.random() < .4 and "ven_id" not in ((val[1] or {}) if isinstance(val, tuple) else {}): bank.append((val, k, exp))
            if kind == "request" and not (k == "none" or k.startswith("list")): val, k, exp = None, "none", ("oadrResponse", None)
            if kind == "poll" and r.random() < .04: val, k, exp = None, "fail", None
            plan[v].append((val, k, exp))
            before = len(calls)
            el = oadr.poll(v) if kind == "poll" else oadr.request_event(v, f"rq{n[0]}", r.choice([None, 5]))
            a = await world.post(srv, "OadrPoll" if kind == "poll" else "EiEvent", el)
            mine = [x for x in calls[before:] if x[1] == v]
            tag = lambda: f"{kind} by {v!r}, handler returned {k} {str(val)[:900]}: {a}"
            c.note(kind, v, k, a)
            c.check(mine == [(kind, v)], "handler-calls", lambda: f"{calls[before:]}: {tag()}")
            c.count(k); shape.append((kind, k))
            if k == "fail":
                c.count("failing_handler"); return
            if kind == "request": c.count("event_requests")
            if not c.check(a.status == 200 and a.bad is None and a.type == exp[0], "wrong-answer", tag): return
            ven = wire.text(a.el, "venID")
            if a.type != "oadrDistributeEvent": c.check(ven == v, "wrong-answer", lambda: f"venID {ven!r}: {tag()}")
            if a.type == "oadrDistributeEvent":
                got = [seen(e) for e in a.events]
                if kind == "request": want, got = sorted(exp[1], key=repr), sorted(got, key=repr)
                else: want = exp[1]
                if kind == "request":
                    want = copy.deepcopy(want)
                    for g in got + want: g.pop("status")      # event requests: the status follows the clock (P06)
                c.check(got == want, "wrong-events", lambda: f"{[[(k, a[k], b[k]) for k in a if a[k] != b[k]] for a, b in zip(got, want)]} of {[a['event_id'] for a in got]} expected {[a['event_id'] for a in want]}: {tag()}")
            elif a.type == "oadrResponse": c.check(a.code == 200, "wrong-answer", tag)
            elif a.type == "oadrCancelPartyRegistration": c.check(wire.text(a.el, "registrationID") == exp[1], "wrong-answer", tag)
            elif a.type == "oadrCreateReport":
                q, sp, gr, back, rids = exp[1]
                x = wire.first(a.el, "oadrReportRequest"); s = wire.first(x, "reportSpecifier")
                g = (wire.text(x, "reportRequestID"), wire.text(s, "reportSpecifierID"), wire.dur(wire.text(s, "granularity", "duration")), wire.dur(wire.text(s, "reportBackDuration", "duration")), [wire.text(p, "rID") for p in wire.kids(s, "specifierPayload")])
                c.check(g == exp[1], "wrong-answer", lambda: f"{g}: {tag()}")
            elif a.type == "oadrCancelReport":
                c.check(wire.text(a.el, "reportRequestID") == exp[1][0] and wire.text(a.el, "reportToFollow") == str(exp[1][1]).lower(), "wrong-answer", tag)
        async def several(v):
            # several polls of one VEN at once: every one is answered with the result of its own call
            items = []
            while len(items) < 2 + r.randrange(3):
                n[0] += 1
                val, k, exp = form(r, c, n[0], v)
                if exp[0] == "oadrDistributeEvent" or k in ("none", "pair_cancel_registration"): items.append((val, k, exp))
            plan[v].extend(items)
            before = len(calls)
            ans = await asyncio.gather(*[world.post(srv, "OadrPoll", oadr.poll(v)) for _ in items])
            mark = lambda t, ids: (t, tuple(ids))
            want = sorted(mark(x[0], [e["event_id"] for e in x[1]] if x[0] == "oadrDistributeEvent" else [x[1]] if x[1] else []) for _, _, x in items)
            got = sorted(mark(a.type, [e["event_id"] for e in a.events] if a.type == "oadrDistributeEvent" else [wire.text(a.el, "registrationID")] if a.type == "oadrCancelPartyRegistration" else []) for a in ans if a.bad is None)
            made = [x for x in calls[before:] if x[1] == v]
            c.check(len(made) == len(items), "handler-calls", lambda: f"{len(items)} polls of {v!r} at once, {len(made)} calls of the handler ({mode})")
            c.check(got == want, "wrong-answer", lambda: f"{len(items)} polls of {v!r} at once ({mode}): the handler returned {want}, answered {got}")
            c.count("polls_at_once"); shape.append(("several", len(items)))
        for _ in range(r.choice([6, 10, 18])):
            kinds = ["poll", "poll", "poll", "request", "created"]
            if r.random() < .3 and len(vens) > 1:
                await asyncio.gather(*[one(v, r.choice(kinds)) for v in vens]); c.count("concurrent")
            else: await one(r.choice(vens), r.choice(kinds))
            if r.random() < .2:
                # adding events is refused while the operator answers the polls himself
                v = r.choice(vens)
                x = srv.add_event(ven_id=v, signal_name="simple", signal_type="level", intervals=[{"dtstart": datetime.now(UTC), "duration": S(60), "signal_payload": 1}], callback=lambda ven_id, event_id, opt_type: None)
                c.check(x is None, "event-queued", f"add_event returned {x}")
            if r.random() < .25: await several(r.choice(vens))
            if r.random() < .2: await asyncio.sleep(r.choice([1, 60]))
        if r.random() < .25:
            # a real client sees the same
            c.count("real_client")
            cl = world.client(); cl.ven_id = vens[0]
            got = []
            cl.add_handler("on_event", lambda e: (got.append(e["event_descriptor"]["event_id"]), "optIn")[1])
            e, x = mk_event(r, r.random() < .5, 0)
            d = e["event_descriptor"] if isinstance(e, dict) else e.event_descriptor.__dict__
            d["event_status"] = "far"
            (e.__setitem__ if isinstance(e, dict) else lambda k, v: setattr(e, k, v))("response_required", "always")
            plan[vens[0]][:] = [(e, "event", None)]
            k0 = len(resps)
            await cl._poll()
            await asyncio.sleep(2)
            c.check(got == [x["event_id"]], "wrong-events", lambda: f"client saw {got}, expected {x}")
            c.check(resps[k0:] == ([(vens[0], x["event_id"], "optIn")] if x["start"] + x["duration"] > datetime.now(UTC) else []), "event-response-calls", f"{resps[k0:]} {x}")
            await cl.client_session.close()
        c.sig(mode, tuple(shape))
        c.sample({"mode": mode, "forms": [str(s) for s in shape[:8]]})
    c.run(body)
