"""P25: refused arguments leave no trace; acceptable arguments are never refused."""
import asyncio, copy, functools
from datetime import datetime, date, timedelta, timezone
import fabric, gen, oadr, script, wire, world
ID = "P25"
CASES = {"quick": 5000, "thorough": 30000}
RULE = ("random sequences of acceptable and unacceptable definitions (events, raw events, handlers, hooks, reports, opts; one or more arguments spoiled, often for the id of something that already exists) between the ordinary operations of a real VTN and a real VEN; every unacceptable one must be refused at once and every "
        "acceptable one accepted, and later deliveries, event callbacks, report offers, hook calls and opts must be those of the accepted definitions alone; signature = (sequence of definitions with the spoiled argument)")
ASSUME = []
REQUIRED = ["measured", "bad_report_ids_in_use", "good_event", "good_raw", "bad_event", "bad_raw", "bad_signal_name", "bad_signal_type", "bad_response_required", "bad_market_context", "bad_intervals", "bad_interval_part", "bad_callback", "bad_target", "bad_descriptor", "same_id_again", "deliveries", "requests", "event_answers", "bad_vtn_handler", "good_vtn_handler",
            "external_add", "good_report", "bad_report", "offers_seen", "bad_ven_handler", "bad_hook", "hook_calls", "good_opt", "bad_opt", "opts_seen", "bad_object", "good_object"]
UTC = timezone.utc
S = lambda x: timedelta(seconds=x)
NAMES = ["SIMPLE", "simple", "ELECTRICITY_PRICE", "ENERGY_PRICE", "DEMAND_CHARGE", "BID_PRICE", "BID_LOAD", "BID_ENERGY", "CHARGE_STATE", "LOAD_DISPATCH", "LOAD_CONTROL", "x-own", "x-1"]
TYPES = ["delta", "level", "multiplier", "price", "priceMultiplier", "priceRelative", "setpoint", "x-loadControlCapacity", "x-loadControlLevelOffset", "x-loadControlPercentOffset", "x-loadControlSetpoint"]
BADNAMES = ["max-power", "simple x-", "SIMPLEx-1", " x-a", "", "Simple", "simple ", "LOADCONTROL", "X-own", "x_own", "level", "members", "own-x-", "SIMPLE\n", None, 5]
BADTYPES = ["", "Level", "level ", "LEVEL", "x-own", "PRICE_MULTIPLIER", "SIMPLE", None, 5]
BADRESP = ["", "Always", "sometimes", "always ", "ALWAYS", None, True, False, 1]
READING = ["Direct Read", "Net", "Allocated", "Estimated", "Summed", "Derived", "Mean", "Peak", "Hybrid", "Contract", "Projected", "x-RMS", "x-notApplicable", "x-own"]
REPORT = ["reading", "usage", "demand", "setPoint", "deltaUsage", "deltaSetPoint", "deltaDemand", "baseline", "deviation", "avgUsage", "avgDemand", "operatingState", "upRegulationCapacityAvailable", "downRegulationCapacityAvailable", "regulationSetpoint", "storedEnergy", "targetEnergyStorage",
          "availableEnergyStorage", "price", "level", "powerFactor", "percentUsage", "percentDemand", "x-resourceStatus", "x-own"]
RNAMES = ["TELEMETRY_USAGE", "HISTORY_USAGE", "HISTORY_GREENBUTTON", "x-own"]
SCALES = ["p", "n", "micro", "m", "c", "d", "k", "M", "G", "T", "none"]
MEAS = {"voltage": "V", "current": "A", "energyReal": "Wh", "powerReal": "W", "temperature": "celsius", "frequency": "Hz", "pulseCount": "count"}
OPTS = ["optIn", "optOut"]
REASONS = ["economic", "emergency", "mustRun", "notParticipating", "outageRunStatus", "overrideStatus", "participating", "x-schedule"]

def setup():
    global objects
    from openleadr import objects

def refused(c, kind, f):
    """Run f, which must raise."""
    try: x = f()
    except Exception as e:
        c.note("refused", kind, type(e).__name__); return True
    c.check(False, "accepted", f"{kind}: {x!r}"); return False

def accepted(c, kind, f):
    try: return f()
    except Exception as e:
        c.check(False, "refused", f"{kind}: {type(e).__name__}: {e}"); return None

def intervals(r, as_object=None):
    t = datetime.now(UTC) + S(r.choice([10, 3600, 86400])); out = []
    o = r.random() < .3 if as_object is None else as_object
    for _ in range(r.choice([1, 1, 2, 4])):
        d = dict(dtstart=t, duration=S(r.choice([1, 60, 3600])), signal_payload=r.choice([0, 1, 2, 3])); t += d["duration"]
        out.append(objects.Interval(**d) if o else d)
    return out

def spoil_intervals(r):
    k = r.choice(["none", "list", "tuple", "dict", "str", "gen", "set", "number", "item", "nodtstart", "noduration", "dtstart", "duration", "mixed"])
    if k in ("none", "list", "tuple", "dict", "str", "gen", "set", "number"):
        return "bad_intervals", k, {"none": None, "list": [], "tuple": (), "dict": {"a": 1}, "str": "abc", "gen": (x for x in intervals(r)), "set": {1}, "number": 5}[k]
    iv = intervals(r, False); x = r.choice(iv)
    if k == "item": iv[r.randrange(len(iv))] = r.choice([None, "x", 5])
    elif k == "nodtstart": del x["dtstart"]
    elif k == "noduration": del x["duration"]
    elif k == "dtstart": x["dtstart"] = r.choice([None, "2027-01-01T00:00:00Z", date(2027, 4, 1), 5])
    elif k == "duration": x["duration"] = r.choice([None, "PT1H", 3600])
    else: iv.append(objects.Interval(dtstart=datetime.now(UTC) + S(200000), duration=S(1), signal_payload=1))
    return "bad_interval_part", k, iv

def good_callback(r, name, log):
    k = r.choice(["plain", "async", "default", "partial", "method", "callable", "kwonly", "future", None])
    if k is None: return k, None
    if k == "future": return k, asyncio.get_running_loop().create_future()
    def f(ven_id, event_id, opt_type): log.append((name, ven_id, event_id, opt_type))
    if k == "plain": return k, f
    if k == "async":
        async def g(ven_id, event_id, opt_type): f(ven_id, event_id, opt_type)
        return k, g
    if k == "default":
        def g(ven_id, event_id, opt_type, extra=5, *a): f(ven_id, event_id, opt_type)
        return k, g
    if k == "partial":
        def g(own, ven_id, event_id, opt_type): f(ven_id, event_id, opt_type)
        return k, functools.partial(g, 1)
    if k == "kwonly":
        def g(*, opt_type, event_id, ven_id): f(ven_id, event_id, opt_type)
        return k, f
    class O:
        def m(self, ven_id, event_id, opt_type): f(ven_id, event_id, opt_type)
        def __call__(self, ven_id, event_id, opt_type): f(ven_id, event_id, opt_type)
    return k, O().m if k == "method" else O()

def bad_callback(r, called):
    return r.choice([lambda: called.append(1), lambda ven_id: called.append(1), lambda ven_id, event_id: called.append(1), lambda a, b, c: called.append(1), lambda event_id, opt_type, ven: called.append(1), lambda ven_id, opt_type: called.append(1), "callback", 5])

async def vtn_part(c, seq):
    r = c.rng
    srv = world.server(None)
    vens = [gen.uid(r, "pmu"), gen.uid(r, "pmu") + "2"]
    queue = {v: {} for v in vens}       # event id -> (needs an answer, callback name, kind, mod)
    fresh = {v: False for v in vens}
    log, called = [], []
    delivered = []
    futures = {}
    n = [0]
    external = [False]
    def ids(v): return list(queue[v])
    def add_good(v, raw):
        n[0] += 1; name = f"cb{n[0]}"
        eid = gen.uid(r, "pmu") + str(n[0]); kind, cb = good_callback(r, name, log)
        resp = r.choice(["always", "always", "never"])
        if kind == "future" and resp == "never": kind, cb = None, None
        sn, stp = r.choice(NAMES), r.choice(TYPES)
        iv = intervals(r)
        if raw:
            as_o = r.random() < .5
            ev = dict(event_descriptor=dict(event_id=eid, modification_number=0, market_context="http://mc", event_status="far", priority=0), event_signals=[dict(signal_name=sn, signal_type=stp, signal_id="s", intervals=intervals(r, False))], targets=[{"ven_id": v}], response_required=resp)
            if r.random() < .3: del ev["event_descriptor"]["priority"]
            if r.random() < .3: del ev["event_descriptor"]["event_status"]
            if as_o:
                ev = objects.Event(event_descriptor=objects.EventDescriptor(event_id=eid, modification_number=0, market_context="http://mc", event_status="far"), event_signals=[objects.EventSignal(signal_name=sn, signal_type=stp, signal_id="s", intervals=iv)], targets=[objects.Target(ven_id=v)], response_required=resp)
            x = accepted(c, f"add_raw_event({sn}, {stp}, {resp}, callback {kind})", lambda: srv.add_raw_event(ven_id=v, event=ev, callback=cb))
            c.count("good_raw")
        else:
            kw = dict(ven_id=v, signal_name=sn, signal_type=stp, intervals=tuple(iv) if r.random() < .3 else iv, event_id=eid, response_required=resp, callback=cb)
            if r.random() < .5: kw["market_context"] = r.choice(["", "http://mc.example/a?b=c#d", "oadr://unknown.context", "urn:x:y", "market", "http://[::1]:80/ü"])
            t = r.choice([None, "target", "targets", "targets_by_type", "targets_object", "tuple"])
            if t == "target": kw["target"] = {"ven_id": v}
            elif t == "targets": kw["targets"] = [{"ven_id": v}, {"group_id": "g"}]
            elif t == "targets_object": kw["targets"] = [objects.Target(ven_id=v)]
            elif t == "targets_by_type": kw["targets_by_type"] = {"ven_id": [v]}
            for p in ("notification_period", "ramp_up_period", "recovery_period"):
                if r.random() < .2: kw[p] = S(r.choice([0, 60]))
            x = accepted(c, f"add_event({kw})", lambda: srv.add_event(**kw))
            c.count("good_event")
        c.check(x == eid, "wrong-id", f"{x!r}, not {eid!r}")
        queue[v][eid] = (resp, name if kind not in (None, "future") else None)
        if kind == "future" and resp == "always": futures[(v, eid)] = cb
        fresh[v] = True
        seq.append(("good", raw, kind, resp))
    def add_bad(v, raw):
        eid = gen.uid(r, "pmu") + "bad"
        if ids(v) and r.random() < .5: eid = r.choice(ids(v)); c.count("same_id_again")
        if r.random() < .15: v = r.choice([v, "nobody yet"])
        if not raw:
            kw = dict(ven_id=v, signal_name=r.choice(NAMES), signal_type=r.choice(TYPES), intervals=intervals(r), event_id=eid, response_required="always", callback=lambda ven_id, event_id, opt_type: called.append(1), delivery_callback=lambda event: called.append(1))
            what = []
            for _ in range(r.choice([1, 1, 1, 2])):
                k = r.choice(["bad_signal_name", "bad_signal_type", "bad_response_required", "bad_market_context", "bad_intervals", "bad_intervals", "bad_callback", "bad_callback", "bad_target"])
                if k == "bad_signal_name": kw["signal_name"] = r.choice(BADNAMES); what.append((k, kw["signal_name"]))
                elif k == "bad_signal_type": kw["signal_type"] = r.choice(BADTYPES); what.append((k, kw["signal_type"]))
                elif k == "bad_response_required":
                    if kw["callback"] is None: continue
                    kw["response_required"] = r.choice(BADRESP); what.append((k, kw["response_required"]))
                elif k == "bad_market_context": kw["market_context"] = r.choice([None, 5]); what.append((k, None))
                elif k == "bad_intervals": k, w, kw["intervals"] = spoil_intervals(r); what.append((k, w))
                elif k == "bad_callback": kw["callback"] = bad_callback(r, called); what.append((k, None))
                else: kw["target"] = r.choice(["x", 5]); what.append((k, None))
                c.count(k)
            refused(c, f"add_event, {what}: {kw}", lambda: srv.add_event(**kw)); c.count("bad_event")
        else:
            ev = dict(event_descriptor=dict(event_id=eid, modification_number=9, market_context="http://mc", event_status="far", priority=0), active_period=dict(dtstart=datetime.now(UTC) + S(60), duration=S(60)), event_signals=[dict(signal_name="simple", signal_type="level", signal_id="s", intervals=intervals(r, False))], targets=[{"ven_id": v}], response_required="always")
            cb = lambda ven_id, event_id, opt_type: called.append(1)
            k = r.choice(["callback", "descriptor", "event_id", "parts", "empty", "no event"])
            if k == "callback": cb = bad_callback(r, called); c.count("bad_callback")
            elif k == "descriptor": del ev["event_descriptor"]; c.count("bad_descriptor")
            elif k == "event_id": del ev["event_descriptor"]["event_id"]; c.count("bad_descriptor")
            elif k == "parts": del ev["event_signals"]; del ev["active_period"]
            elif k == "empty": ev["event_signals"] = r.choice([[], [dict(signal_name="simple", signal_type="level", signal_id="s", intervals=[])]]); del ev["active_period"]
            else: ev = r.choice([None, "event", 5])
            what = k
            refused(c, f"add_raw_event, {k}: {ev}", lambda: srv.add_raw_event(ven_id=v, event=ev, callback=cb, delivery_callback=lambda event: called.append(1))); c.count("bad_raw")
        seq.append(("bad", raw, str(what)))
    def bad_object():
        k = r.choice(["signal", "event", "opt"])
        if k == "signal":
            refused(c, "EventSignal", lambda: objects.EventSignal(intervals=intervals(r), signal_name=r.choice(BADNAMES), signal_type="level", signal_id="s")); refused(c, "EventSignal", lambda: objects.EventSignal(intervals=intervals(r), signal_name="simple", signal_type=r.choice(BADTYPES), signal_id="s"))
        elif k == "event": refused(c, "Event without targets", lambda: objects.Event(event_descriptor=objects.EventDescriptor(event_id="e", modification_number=0, market_context="m", event_status="far"), event_signals=[objects.EventSignal(intervals=intervals(r), signal_name="simple", signal_type="level", signal_id="s")]))
        else:
            refused(c, "Opt", lambda: objects.Opt(opt_type=r.choice(["", "optin", "in", None]), opt_reason="economic", event_id="e", targets=[{"ven_id": "v"}]))
            refused(c, "Opt", lambda: objects.Opt(opt_type="optIn", opt_reason=r.choice(["", "Economic", "x-own", None]), event_id="e", targets=[{"ven_id": "v"}]))
        c.count("bad_object")
        accepted(c, "EventSignal", lambda: objects.EventSignal(intervals=intervals(r), signal_name=r.choice(NAMES), signal_type=r.choice(TYPES), signal_id="s"))
        accepted(c, "Opt", lambda: objects.Opt(opt_type=r.choice(OPTS), opt_reason=r.choice(REASONS), event_id="e", targets=[{"ven_id": "v"}], signal_target_mrid=r.choice([None, "Thermostat", "x-own"])))
        c.count("good_object")
    def handlers():
        if r.random() < .7:
            bad = r.choice(["on_event", "on_polls", "", "poll", "on_created_events", "ON_POLL", "on_cancel_opt", "services", "add_event", "__init__", "run"])
            refused(c, f"add_handler({bad!r})", lambda: srv.add_handler(bad, lambda *a, **k: called.append(1))); c.count("bad_vtn_handler"); seq.append(("handler", bad))
        else:
            good = r.choice(["on_register_report", "on_create_report", "on_created_report", "on_request_report", "on_update_report", "on_query_registration", "on_create_party_registration", "on_cancel_party_registration"])
            accepted(c, f"add_handler({good!r})", lambda: srv.add_handler(good, lambda *a, **k: None)); c.count("good_vtn_handler")
    async def poll(v):
        a = await world.post(srv, "OadrPoll", oadr.poll(v))
        got = [(e["event_id"], e["modification_number"]) for e in a.events]
        want = [] if not fresh[v] else [(e, 0) for e in ids(v)]
        c.check(a.status == 200 and a.bad is None and sorted(got) == sorted(want), "deliveries", lambda: f"poll of {v!r} got {got}, expected {want}: {a} {a.bad}")
        fresh[v] = False; c.count("deliveries")
    async def request(v):
        a = await world.post(srv, "EiEvent", oadr.request_event(v, "rq"))
        got = [(e["event_id"], e["modification_number"]) for e in a.events]
        c.check(a.status == 200 and a.bad is None and sorted(got) == sorted((e, 0) for e in ids(v)), "deliveries", lambda: f"request of {v!r} got {got}, expected {ids(v)}: {a} {a.bad}")
        c.count("requests")
    async def answer(v):
        if not ids(v): return
        eid = r.choice(ids(v)); resp, name = queue[v][eid]
        if resp != "always": return
        k0 = len(log); opt = r.choice(OPTS)
        a = await world.post(srv, "EiEvent", oadr.created_event(v, [(eid, 0, opt, "q", 200)], rid="r"))
        c.check(a.status == 200, "event-answer", str(a)); c.count("event_answers")
        if (v, eid) in futures:
            f = futures.pop((v, eid)); c.check(f.done() and f.result() == opt, "callbacks", f"future of {eid!r}: {f}")
        c.check(log[k0:] == ([(name, v, eid, opt)] if name else []), "callbacks", lambda: f"answer to {eid!r}: {log[k0:]}, expected {name}")
        # at most one answer per event
        queue[v][eid] = ("answered", None)
    with_ops = r.choice([8, 15, 25])
    for _ in range(with_ops):
        v = r.choice(vens)
        k = r.choice(["good", "good", "bad", "bad", "bad", "bad", "object", "handler", "poll", "poll", "request", "answer", "answer"])
        if k == "good": add_good(v, r.random() < .4)
        elif k == "bad": add_bad(v, r.random() < .4)
        elif k == "object": bad_object()
        elif k == "handler": handlers()
        elif k == "poll": await poll(v)
        elif k == "request": await request(v)
        else: await answer(v)
    for v in vens: await poll(v); await request(v)
    a = await world.post(srv, "OadrPoll", oadr.poll("nobody yet"))
    c.check(a.type == "oadrResponse", "deliveries", f"{a}")
    for v in vens:
        for _ in range(2): await answer(v)
    if r.random() < .4:
        # the operator takes over the polls: nothing is queued any more
        polls = []
        srv.add_handler("on_poll", lambda ven_id: polls.append(ven_id))
        before = {v: ids(v) for v in vens}
        srv.add_event(ven_id=vens[0], signal_name="simple", signal_type="level", intervals=intervals(r), callback=lambda ven_id, event_id, opt_type: called.append(1))
        a = await world.post(srv, "OadrPoll", oadr.poll(vens[0]))
        c.check(a.type == "oadrResponse" and polls == [vens[0]], "deliveries", f"{a} {polls}")
        c.check(all(sorted(getattr(e["event_descriptor"] if isinstance(e, dict) else e.event_descriptor, "event_id", None) or e["event_descriptor"]["event_id"] for e in srv.events.get(v, [])) == sorted(before[v]) for v in vens), "deliveries", "the queue changed")
        c.count("external_add"); seq.append("external")
    c.check(not called, "refused-callback-called", "a callback of a refused definition was called")

async def ven_part(c, seq):
    r = c.rng
    net = fabric.Net(); vtn = script.ScriptVTN(net)
    cl = world.client(); cl.ven_id = "ven-x"
    called, hooked = [], []
    modes, explicit = {}, set()
    marks = {}      # (specifier, r_id) -> what its callback measures
    good = {}       # (specifier, r_id) -> (report name, reading type, report type)
    n = [0]
    def rep(bad):
        n[0] += 1
        m = r.choice(list(MEAS))
        mark = 1000 + n[0] + .5
        kw = dict(callback=lambda: mark, resource_id=f"d{n[0]}", measurement=m, report_name=r.choice(RNAMES), reading_type=r.choice(READING), report_type=r.choice(REPORT), scale=r.choice(SCALES), sampling_rate=r.choice([S(10), None]), report_specifier_id=r.choice([None, "spec 1", f"spec{n[0]}"]), r_id=f"rid{n[0]}", report_duration=r.choice([None, S(60)]))
        k = None
        if r.random() < .3:
            kw["measurement"] = r.choice([{"name": "voltage", "description": "Voltage", "unit": "V"}, {"name": "customUnit", "description": "own", "unit": "u"}, objects.Measurement(name="current", description="Current", unit="A", scale="none"), "own measurement"])
            if kw["measurement"] == "own measurement": kw["unit"] = "u"
        if r.random() < .3:
            kw["data_collection_mode"] = "full"; kw["callback"] = r.choice([lambda date_from, date_to, sampling_interval: [(datetime.now(UTC), mark)], functools.partial(lambda x, date_from, date_to, sampling_interval: [(datetime.now(UTC), mark)], 1)])
        if bad:
            k = r.choice(["report_name", "reading_type", "report_type", "scale", "mode", "callback", "measurement"])
            if k == "report_name": kw[k] = r.choice(["", "TELEMETRY", "telemetry_usage", "X-own", None])
            elif k == "reading_type": kw[k] = r.choice(["", "direct read", "DIRECT_READ", "X-own", None])
            elif k == "report_type": kw[k] = r.choice(["", "Reading", "USAGE", "X-own", None])
            elif k == "scale": kw[k] = r.choice(["", "K", "kilo", "None", 1000])
            elif k == "mode": kw["data_collection_mode"] = r.choice(["", "Full", "both", None])
            elif k == "callback": kw["data_collection_mode"] = "full"; kw["callback"] = r.choice([lambda: 1, lambda date_from: 1, lambda date_from, date_to: 1, lambda a, b, c: 1, lambda date_from, sampling_interval: 1])
            else: kw[k] = r.choice([None, 5, {"name": "voltage"}, {"name": "voltage", "description": "Voltage"}, {"name": "voltage", "description": "Voltage", "unit": "A"}, {"name": "voltage", "description": "Current", "unit": "V"}, {}])
            if good and r.random() < .4:      # ids that an accepted definition uses
                kw["report_specifier_id"], kw["r_id"] = r.choice(list(good)); c.count("bad_report_ids_in_use")
            refused(c, f"add_report, {k}: {kw}", lambda: cl.add_report(**kw)); c.count("bad_report")
        else:
            x = accepted(c, f"add_report {kw}", lambda: cl.add_report(**kw)); c.count("good_report")
            if x:
                c.check(x[1] == kw["r_id"] and (kw["report_specifier_id"] in (None, x[0])), "wrong-id", f"{x}")
                good[x] = (kw["report_name"], kw["reading_type"], kw["report_type"])
                marks[x] = mark; modes[x] = kw.get("data_collection_mode", "incremental")
                if kw["report_specifier_id"]: explicit.add(x)
        seq.append(("report", k))
    async def register():
        if not cl.reports:
            c.check(not good, "offers", "reports were lost"); return
        k0 = len(vtn.log)
        await cl.register_reports(cl.reports)
        m = [x for x in vtn.log[k0:] if x.type == "oadrRegisterReport"]
        c.check(len(m) == 1 and not vtn.invalid, "offers", lambda: f"{[x.type for x in vtn.log[k0:]]} {vtn.invalid[:1]}")
        if len(m) != 1: return
        got = {}
        for o in wire.kids(m[0].el, "oadrReport"):
            for d in wire.kids(o, "oadrReportDescription"):
                got[(wire.text(o, "reportSpecifierID"), wire.text(d, "rID"))] = (wire.text(o, "reportName"), wire.text(d, "readingType"), wire.text(d, "reportType"))
        want = {k: (v[0] if v[0].startswith("x-") else "METADATA_" + v[0], v[1], v[2]) for k, v in good.items()}
        c.check(got == want, "offers", lambda: f"offered {got}, defined {want}"); c.count("offers_seen")
    def handlers():
        k = r.choice(["on_events", "on_poll", "", "on_created_event", "poll", "run"])
        old = {n: getattr(cl, n, None) for n in ("on_event", "on_update_event", "poll", "run")}
        try: cl.add_handler(k, lambda *a: called.append(1))
        except Exception: pass
        c.check(all(old[n] == getattr(cl, n, None) for n in old), "handler-replaced", k)
        c.count("bad_ven_handler"); seq.append(("handler", k))
    hooks = {}
    def hook():
        if r.random() < .6:
            bad = r.choice(["before_send", "", "after_parse", "before_parse", "AFTER_PARSE_XML", None])
            refused(c, f"add_hook({bad!r})", lambda: cl.add_hook(bad, lambda *a, **k: called.append(1))); c.count("bad_hook"); seq.append(("hook", bad))
        else:
            good = r.choice(["before_send_xml", "after_receive_xml", "before_parse_xml", "after_parse_xml"])
            i = len(hooks); hooks[i] = 0
            def f(*a, **k): hooks[i] += 1
            accepted(c, f"add_hook({good!r})", lambda: cl.add_hook(good, f))
    async def poll():
        before = dict(hooks)
        await cl.poll()
        c.check(all(hooks[i] == before[i] + 1 for i in hooks), "hooks", f"{before} {hooks}")
        if hooks: c.count("hook_calls", len(hooks))
    opts = []
    async def opt(bad):
        kw = dict(opt_type=r.choice(OPTS), opt_reason=r.choice(REASONS), targets=[{"ven_id": "ven-x"}], event_id="e1", opt_id=f"opt{len(opts)}{r.randrange(10 ** 6)}")
        if r.random() < .4: kw["vavailability"] = objects.Vavailability(components=[objects.VavailabilityComponent(dtstart=datetime.now(UTC), duration=S(60))]); del kw["event_id"]
        k = None
        if bad:
            k = r.choice(["opt_type", "opt_reason", "both", "neither", "targets", "mrid"])
            if k == "opt_type": kw[k] = r.choice(["", "optin", "OPT_IN", "in", None])
            elif k == "opt_reason": kw[k] = r.choice(["", "Economic", "schedule", "X-SCHEDULE", None])
            elif k == "both": kw.update(event_id="e", vavailability=objects.Vavailability(components=[]))
            elif k == "neither": kw.update(event_id=None, vavailability=None)
            elif k == "targets": kw["targets"] = None
            else: kw["signal_target_mrid"] = r.choice(["", "thermostat", "own"])
        k0 = len(vtn.log)
        try: x = await cl.create_opt(**kw)
        except Exception as e:
            if not bad: c.check(False, "refused", f"create_opt {kw}: {type(e).__name__}: {e}")
            c.check(len(vtn.log) == k0, "message-sent", f"create_opt {k}")
        else:
            if bad: c.check(False, "accepted", f"create_opt {k} {kw}")
            else:
                c.check(x == kw["opt_id"] and [y.type for y in vtn.log[k0:]] == ["oadrCreateOpt"], "opt", f"{x} {[y.type for y in vtn.log[k0:]]}"); opts.append(kw["opt_id"])
        c.count("bad_opt" if bad else "good_opt"); seq.append(("opt", k))
    for _ in range(r.choice([6, 12, 20])):
        k = r.choice(["good", "bad", "bad", "bad", "register", "handler", "hook", "hook", "poll", "opt", "bopt", "bopt"])
        if k in ("good", "bad"): rep(k == "bad")
        elif k == "register": await register()
        elif k == "handler": handlers()
        elif k == "hook": hook()
        elif k == "poll": await poll()
        else: await opt(k == "bopt")
    await register(); await poll()
    c.check([o.opt_id for o in cl.opts] == opts, "opts", lambda: f"{[o.opt_id for o in cl.opts]}, expected {opts}"); c.count("opts_seen")
    # the events arrive at the default handlers, and refused handlers and hooks are never called
    got = []
    cl.add_handler("on_event", lambda e: (got.append(1), "optIn")[1])
    await cl._poll()
    c.check(not called, "refused-callback-called", "a callback of a refused definition was called")
    # every accepted data point is still measured by the callback it was given
    specs = {}
    for sp, rid in good: specs.setdefault(sp, []).append(rid)
    for sp in list(specs):      # one specifier id for several kinds of report is the application's mistake
        if len({(good[sp, x][0], modes[sp, x]) for x in specs[sp] if (sp, x) in explicit}) > 1: del specs[sp]
    def registered(rec):
        return oadr.registered_report(rec.rid, [oadr.report_request(f"all{i}", sp, S(0), S(0), [(x, "Direct Read", None) for x in rids]) for i, (sp, rids) in enumerate(specs.items())], vtn.ven_id)
    vtn.override["oadrRegisterReport"] = registered
    if good:
        k0 = len(vtn.log)
        cl.ven_id = cl.registration_id = None
        await cl.run()
        await asyncio.sleep(5)
        got = {}
        for m in vtn.log[k0:]:
            if m.type == "oadrUpdateReport":
                for rep_ in wire.reports(m.el):
                    for i in rep_["intervals"]: got.setdefault((rep_["specifier"], i["r_id"]), []).append(float(i["value"]))
        c.check(got == {k: [v] for k, v in marks.items() if k[0] in specs}, "other-callback", lambda: f"measured {got}, the callbacks give {marks}"); c.count("measured")
        await cl.stop()
    await cl.client_session.close()

def case(c):
    r = c.rng
    seq = []
    async def body(loop):
        if r.random() < .6: await vtn_part(c, seq)
        else: await ven_part(c, seq)
    c.run(body)
    c.sig(tuple(str(s) for s in seq))
    c.sample({"steps": [str(s) for s in seq[:8]]})
