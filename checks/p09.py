"""P09: an event reaches the VEN's handler with the content it was given."""
import asyncio, copy
from datetime import datetime, timedelta, timezone
import fabric, gen, wire, world, script
ID = "P09"
CASES = {"quick": 640, "thorough": 20000}
RULE = ("each case runs a real VTN with one to three real VENs; the operator adds random events through the convenience method or as objects or dicts, sharing parts between events, and cancels some, while time passes; "
        "each event given to a VEN's handler, and each event in each oadrDistributeEvent on the wire, is compared field by field with what the operator supplied; "
        "signature = per event: how it was added, which optional parts it has, number of signals, intervals and targets, deliveries seen")
ASSUME = ["intervals of a signal follow each other, and the signals of an event start together and last equally long (OpenADR rule 8)", "signal payloads are finite numbers", "targets are of the five id types; the order of targets is kept within a type", "an event given as a dict consists of dicts throughout, and the intervals of a signal are all dicts or all objects"]
REQUIRED = ["delivered_to_handler", "delivered_again", "convenience", "objects", "dicts", "shared_parts", "no_active_period", "zero_duration", "cancelled", "measurements", "naive_times", "multi_signal", "handler_updates"]
UTC = timezone.utc
NAMES = None

def setup():
    global objects, enums, NAMES
    from openleadr import objects, enums
    NAMES = [n for n in enums.SIGNAL_NAME.values if n != "SIMPLE"]

def measurements(r, form):
    """(object or dict, what must arrive)"""
    name, desc, units, power = r.choice([
        ("voltage", "Voltage", ["V"], None), ("current", "Current", ["A"], None), ("energyReal", "RealEnergy", ["Wh"], None), ("energyApparent", "ApparentEnergy", ["VAh"], None),
        ("energyReactive", "ReactiveEnergy", ["VARh"], None), ("powerReal", "RealPower", ["W", "J/s"], 1), ("powerApparent", "ApparentPower", ["VA"], 1), ("powerReactive", "ReactivePower", ["VAR"], 1),
        ("frequency", "Frequency", ["Hz"], None), ("temperature", "temperature", ["celsius", "fahrenheit"], None), ("Therm", "Therm", ["thm"], None), ("currency", "currency", ["EUR", "USD", "XXX"], None), ("currencyPerKWh", "currencyPerKWh", ["EUR", "GBP"], None), ("customUnit", None, None, None)])
    unit = r.choice(units) if units else gen.txt(r, "pmu")
    desc = desc or gen.txt(r, "pmu")
    scale = r.choice(["none", "k", "M", "G", "m", "n"])
    pa = None
    if power:
        pa = (r.choice([50, 60]), r.choice([110, 230, 400]), r.random() < .5)
    exp = dict(name=name, description=desc, unit=unit, scale=scale, power=pa)
    o = dict(name=name, description=desc, unit=unit, scale=scale)
    if form == "dict" or r.random() < .5:
        if pa: o["power_attributes"] = dict(hertz=pa[0], voltage=pa[1], ac=pa[2])
        return o, exp
    return objects.Measurement(**o, power_attributes=objects.PowerAttributes(*pa) if pa else None), exp

def mk_signal(r, start, form, k, n, total, zero):
    """(signal dict/object args, expected)"""
    name = r.choice(["SIMPLE", "SIMPLE", r.choice(NAMES), r.choice(NAMES), "x-own"])
    typ = "level" if name == "SIMPLE" else r.choice(list(enums.SIGNAL_TYPE.values))
    cuts = [timedelta(0)] + sorted(timedelta(seconds=r.randrange(0, max(1, int(total.total_seconds())))) for _ in range(n - 1)) + [total]
    ivs, exp = [], []
    asdict = form == "dict" or r.random() < .5
    for a, b in zip(cuts, cuts[1:]):
        v = r.choice([0, 1, 2, 3, 1.0, 2.0]) if name == "SIMPLE" else gen.num(r)
        s = start + a
        exp.append((s.astimezone(UTC), b - a, float(v)))
        if s.tzinfo and r.random() < .3:
            s = s.astimezone(timezone(timedelta(minutes=r.choice([60, -300, 330, 765]))))
        d = dict(dtstart=s, duration=b - a, signal_payload=v)
        ivs.append(d if asdict else objects.Interval(**d))
    return name, typ, ivs, exp

def mk_targets(r, ven):
    """(list of targets, expected grouped list)"""
    order = ["group_id", "group_name", "resource_id", "ven_id", "party_id"]
    ts = []
    for _ in range(r.choice([1, 1, 2, 3, 4])):
        ts.append({k: gen.txt(r, "pnmu") for k in r.sample(order, r.choice([1, 1, 1, 2]))})
    if r.random() < .3:
        ts = [{"ven_id": ven}]
    exp = [(k, t[k].strip()) for k in order for t in ts if k in t]
    return ts, exp

def str_lists(r, g):
    """a single target of a type may be given without a list around it"""
    return {k: x[0] if len(x) == 1 and r.random() < .5 else x for k, x in g.items()}

def canon_wire(x):
    return dict(event_id=x["event_id"], mod=x["modification_number"], mc=x["market_context"], priority=x["priority"], test={"true": True, "false": False, None: None}.get(x["test_event"], x["test_event"]), comment=x["comment"],
                start=x["start"], duration=x["duration"], notification=x["notification"], ramp_up=x["ramp_up"], recovery=x["recovery"], tolerance=x["tolerance"], response=x["response_required"],
                targets=[(a, b.strip()) for a, b in x["targets"] or []], created=x["created"],
                signals=[dict(name=s["name"], type=s["type"], id=s["id"], current=s["current"], measurement=s["measurement"] and
                              dict(name=s["measurement"]["name"], description=s["measurement"]["description"], unit=s["measurement"]["unit"], scale=s["measurement"]["scale"],
                                   power=s["measurement"]["power"] and (s["measurement"]["power"][0], s["measurement"]["power"][1], s["measurement"]["power"][2] == "true")),
                              intervals=[(i["start"], i["duration"], i["value"]) for i in s["intervals"]]) for s in x["signals"]])

def canon_handler(e):
    d, p = e["event_descriptor"], e["active_period"]
    def m(s):
        q = s.get("measurement")
        if not q: return None
        pa = q.get("power_attributes")
        return dict(name=q["name"], description=q["description"], unit=q["unit"], scale=q.get("scale"), power=pa and (float(pa["hertz"]), float(pa["voltage"]), pa["ac"]))
    tol = p.get("tolerance")
    tol = tol and tol["tolerate"]["startafter"]
    order = ["group_id", "group_name", "resource_id", "ven_id", "party_id"]
    ts = [(k, v) for t in e["targets"] for k, v in t.items()]
    grouped = [(k, v) for k in order for v in e["targets_by_type"].get(k, [])]
    return dict(event_id=d["event_id"], mod=d["modification_number"], mc=d["market_context"], priority=d.get("priority"), test=d.get("test_event"), comment=d.get("vtn_comment"), start=p["dtstart"], duration=p["duration"],
                notification=p.get("notification"), ramp_up=p.get("ramp_up"), recovery=p.get("recovery"), tolerance=tol, response=e["response_required"], targets=ts, created=d["created_date_time"],
                signals=[dict(name=s["signal_name"], type=s["signal_type"], id=s["signal_id"], current=s.get("current_value"), measurement=m(s),
                              intervals=[(i["dtstart"], i["duration"], i["signal_payload"]) for i in s["intervals"]]) for s in e["event_signals"]]), grouped

def diff(a, b):
    r = {}
    for k in a:
        if a[k] != b[k]:
            r[k] = (a[k], b[k]) if k != "signals" or len(a[k]) != len(b[k]) else [{q: (x[q], y[q]) for q in x if x[q] != y[q]} for x, y in zip(a[k], b[k])]
    return r

def case(c):
    r = c.rng
    shapes = []
    async def body(loop):
        net = fabric.Net()
        srv = world.server(net)
        vens = [gen.uid(r, "pnmu") for _ in range(r.choice([1, 1, 2, 3]))]
        it = iter(vens)
        async def reg(info):
            v = next(it)
            return v, v + "-r"
        srv.add_handler("on_create_party_registration", reg)
        got, jobs = [], []
        cls = []
        for v in vens:
            cl = world.client(name="n")
            script.job_errors(cl, jobs)
            def mk(v):
                async def h(e):
                    got.append((v, "new", copy.deepcopy(e), loop.time())); return "optIn"
                def u(e):
                    got.append((v, "update", copy.deepcopy(e), loop.time())); return "optIn"
                return h, u
            h, u = mk(v)
            cl.add_handler("on_event", h); cl.add_handler("on_update_event", u)
            cls.append(cl)
        srv.services["registration_service"].poll_freq = timedelta(seconds=10) if hasattr(srv.services["registration_service"], "poll_freq") else None
        for cl in cls:
            await cl.run()
        spec = {}             # (ven, id) -> expected
        live = []
        shared = {}
        now = lambda: datetime.now(UTC)
        ids = [gen.uid(r, "pnmu") for _ in range(4)]
        def add():
            v = r.choice(vens)
            start = (now() + timedelta(seconds=r.choice([-300, -1, 0, 3, 60, 600, 90000]))).replace(microsecond=r.choice([0, 0, 123456]))
            zero = r.random() < .1
            total = timedelta(0) if zero else gen.dur(r, 1, 86400 * 2)
            how = r.choice(["conv", "obj", "obj", "dict", "dict"])
            eid = r.choice(ids) if r.random() < .3 else gen.uid(r, "pnmu")
            if (v, eid) in spec:
                return
            resp = r.choice(["always", "always", "never"])
            mc = r.choice(["oadr://unknown.context", "http://example.com/p?a=1&b=2", "http://é.org/x#f"])
            per = {k: r.choice([None, None, timedelta(minutes=5), timedelta(0), gen.dur(r)]) for k in ("notification_period", "ramp_up_period", "recovery_period")}
            ts, texp = mk_targets(r, v)
            if zero: c.count("zero_duration")
            exp = dict(event_id=eid, mod=0, mc=mc, priority=0, test=None, comment=None, start=start, duration=total, notification=per["notification_period"], ramp_up=per["ramp_up_period"], recovery=per["recovery_period"], tolerance=None,
                       response=resp, targets=texp)
            if how == "conv":
                c.count("convenience")
                name, typ, ivs, iexp = mk_signal(r, start, "any", 0, r.choice([1, 1, 2, 3, 5]), total, zero)
                kw = dict(ven_id=v, signal_name=name, signal_type=typ, intervals=ivs, event_id=eid, response_required=resp, market_context=mc, **per)
                x = r.random()
                if len(ts) == 1 and x < .3: kw["target"] = ts[0] if r.random() < .5 else objects.Target(**ts[0])
                elif x < .7: kw["targets"] = [t if r.random() < .5 else objects.Target(**t) for t in ts]
                elif x < .9:
                    g = {}
                    for k, val in texp: g.setdefault(k, []).append([t[k] for t in ts if k in t and t[k].strip() == val][0])
                    kw["targets_by_type"] = str_lists(r, g)
                else:
                    exp["targets"] = [("ven_id", v)]
                if r.random() < .1:
                    c.count("naive_times")
                    for i in ivs:
                        s = (i["dtstart"] if isinstance(i, dict) else i.dtstart).astimezone(UTC).replace(tzinfo=None)
                        if isinstance(i, dict): i["dtstart"] = s
                        else: i.dtstart = s
                exp["signals"] = [dict(name=name, type=typ, id=None, current=None, measurement=None, intervals=iexp)]
                if r.random() < .2 and shared.get("iv"):
                    pass
                res = srv.add_event(**kw)
                c.check(res == eid, "wrong-event-id-returned", res)
            else:
                c.count("objects" if how == "obj" else "dicts")
                nsig = r.choice([1, 1, 2, 3])
                if nsig > 1: c.count("multi_signal")
                sigs, sexp = [], []
                for k in range(nsig):
                    name, typ, ivs, iexp = mk_signal(r, start, how, k, r.choice([1, 1, 2, 4]), total, zero)
                    cur = r.choice([None, None, 0, 1, 2.5]) if name != "SIMPLE" else r.choice([None, 0, 1, 2])
                    me, mexp = (None, None) if r.random() < .7 else measurements(r, how)
                    if me: c.count("measurements")
                    sid = gen.uid(r, "pnmu")
                    d = dict(intervals=ivs, signal_name=name, signal_type=typ, signal_id=sid)
                    if cur is not None: d["current_value"] = cur
                    if me is not None: d["measurement"] = me
                    sigs.append(d)
                    sexp.append(dict(name=name, type=typ, id=sid, current=None if cur is None else float(cur), measurement=mexp, intervals=iexp))
                exp["signals"] = sexp
                if r.random() < .2 and "sig" in shared and shared["sig"][2:] == (start, total, how):
                    c.count("shared_parts")
                if "parts" in shared and shared["parts"][0] == how and r.random() < .35:
                    # the same signals and active period (the very same objects) in another event
                    c.count("shared_parts")
                    _, start, total, sigs, sexp, shared_ap, apx = shared["parts"]
                    exp.update(start=start, duration=total, signals=sexp)
                    ap = shared_ap
                    if apx is not None: exp.update(apx)
                    else: exp.update(tolerance=None, notification=None, ramp_up=None, recovery=None)
                    given = True
                else:
                    given = r.random() < .6 or zero
                    apx = None
                    if given:
                        ap = dict(dtstart=start, duration=total, **{k: x for k, x in per.items() if x is not None})
                        tol = r.choice([None, None, timedelta(minutes=3), timedelta(0), gen.dur(r)])
                        if tol is not None: ap["tolerance"] = {"startafter": tol}
                        exp["tolerance"] = tol
                        apx = {k: exp[k] for k in ("tolerance", "notification", "ramp_up", "recovery")}
                        if how == "obj": ap = objects.ActivePeriod(**ap)
                    else:
                        c.count("no_active_period")
                        ap = None
                        exp.update(notification=None, ramp_up=None, recovery=None)
                    if how == "obj":
                        sigs = [objects.EventSignal(**s) for s in sigs]
                    shared["parts"] = (how, start, total, sigs, sexp, ap, apx)
                mod = exp["mod"] = r.choice([0, 0, 0, 2, 17])
                pr = r.choice([None, 0, 1, 4])
                exp["priority"] = pr or 0
                te = r.choice([None, True, False])
                co = r.choice([None, gen.txt(r, "pmun")])
                if how == "obj":
                    d = objects.EventDescriptor(event_id=eid, modification_number=mod, market_context=mc, event_status="far", priority=pr, **({} if te is None else {"test_event": te}), vtn_comment=co)
                    exp.update(test=bool(te), comment=co, created=d.created_date_time)
                    if r.random() < .3: tk = dict(targets_by_type=None)
                    ev = objects.Event(event_descriptor=d, event_signals=sigs, targets=[t if r.random() < .5 else objects.Target(**t) for t in ts], active_period=ap, response_required=resp)
                else:
                    cr = gen.when(r)
                    d = dict(event_id=eid, modification_number=mod, market_context=mc, event_status="far", created_date_time=cr)
                    exp.update(created=cr.astimezone(UTC))
                    if pr is not None: d["priority"] = pr
                    if te is not None: d["test_event"] = te; exp["test"] = te
                    if co is not None: d["vtn_comment"] = co; exp["comment"] = co
                    ev = dict(event_descriptor=d, event_signals=sigs, response_required=resp)
                    if ap is not None: ev["active_period"] = ap
                    if r.random() < .7: ev["targets"] = [dict(t) for t in ts]
                    else:
                        g = {}
                        for t in ts:
                            for k, val in t.items(): g.setdefault(k, []).append(val)
                        ev["targets_by_type"] = str_lists(r, g)
                srv.add_raw_event(ven_id=v, event=ev)
            if exp["comment"]: exp["comment"] = exp["comment"].strip()
            exp["added_at"] = now(); exp["added"] = loop.time(); exp["how"] = how
            spec[(v, eid)] = exp
            exp["seen"] = 0
            live.append((v, eid))
        cancelled = {}
        for _ in range(r.choice([2, 5, 9])):
            x = r.random()
            if x < .65: add()
            elif x < .75 and live:
                v, eid = r.choice(live)
                if (v, eid) not in cancelled and any(e["event_descriptor"]["event_id"] == eid if isinstance(e, dict) else e.event_descriptor.event_id == eid for e in srv.events.get(v, [])):
                    srv.cancel_event(v, eid)
                    cancelled[(v, eid)] = loop.time()
                    c.count("cancelled")
            elif x < .85:
                await r.choice(cls).sync_events()
            await asyncio.sleep(r.choice([0, 0, 3, 11, 30, 400]))
        await asyncio.sleep(25)
        for cl in cls:
            await cl.stop()
        def compare(v, rec, what, t, status):
            exp = spec.get((v, rec["event_id"]))
            if not c.check(exp is not None, "unknown-event-delivered", lambda: f"{what}: {rec['event_id']!r} to {v!r}"):
                return
            e = {k: exp[k] for k in exp if k in rec}
            e["mod"] = exp["mod"] + (1 if status == "cancelled" else 0)
            g = dict(rec)
            # the created time is a time stamp of the status: the given one, or that of a later status change
            created = g.pop("created")
            c.check(e.pop("created", None) in (None, created) or exp["added_at"] - timedelta(milliseconds=1) <= created <= now(), "created-time", lambda: f"{created}, added {exp['added_at']} given {exp.get('created')}")
            if exp["how"] == "conv":
                g["signals"] = [dict(s, id=None) for s in g["signals"]]
                if g["test"] is False: e["test"] = False
            if status != "active":
                e["signals"] = [dict(s, current=(0.0 if s["current"] is not None or (k < len(g["signals"]) and g["signals"][k]["current"] == 0) else None) if s["name"] == "SIMPLE" else s["current"]) for k, s in enumerate(e["signals"])]
            e["comment"] = e["comment"] or None
            c.check(g == e, "content-differs", lambda: f"{what} {exp['how']} {rec['event_id']!r} status {status}: (got, expected) {diff(g, e)}")
            return exp
        for ex in net.log:
            if ex.status is None:      # cut off by the stop
                continue
            if not c.check(ex.status == 200, "error-answer", lambda: f"{ex} {wire.message(ex.req)[0]} -> {ex.res[:600]}"):
                continue
            if ex.res and wire.message(ex.res)[0] == "oadrDistributeEvent":
                v = vens[cls.index(next(cl for cl in cls if cl.client_session is ex.client))] if False else wire.text(wire.message(ex.req)[1], "venID") or wire.text(wire.message(ex.req)[1], "eiRequestEvent", "venID")
                bad = wire.invalid(ex.res)
                c.check(bad is None, "invalid-message", lambda: f"{bad} {ex.res}")
                for x in wire.events(ex.res):
                    exp = compare(v, canon_wire(x), "wire", ex.t_out, x["status"])
                    if exp:
                        exp["seen"] += 1
                        if exp["seen"] > 1: c.count("delivered_again")
        for v, kind, e, t in got:
            rec, grouped = canon_handler(e)
            c.count("delivered_to_handler")
            if kind == "update": c.count("handler_updates")
            c.check(grouped == rec["targets"], "targets-by-type-differ", lambda: f"{rec['targets']} {grouped}")
            compare(v, rec, f"handler {kind}", t, e["event_descriptor"]["event_status"])
        first = {(v, e["event_descriptor"]["event_id"]) for v, k, e, t in got if k == "new"}
        for k, exp in spec.items():
            c.check(k in first, "event-did-not-arrive", lambda: f"{k} {exp}; arrived {first}")
        for e in jobs:
            if not e.startswith("CancelledError"):
                c.fail("job-error", e)
        for (v, eid), e in spec.items():
            shapes.append((e["how"], len(e["signals"]), [len(s["intervals"]) for s in e["signals"]], len(e["targets"]), [k for k in ("notification", "ramp_up", "recovery", "tolerance", "comment", "test") if e[k] is not None], min(e["seen"], 3), (v, eid) in cancelled))
    c.run(body)
    c.sig(shapes)
    c.sample({"events": shapes[:4]})
