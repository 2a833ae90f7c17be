"""P33: events and reports that break OpenADR's rules are corrected or refused, and never block others."""
import asyncio, copy
from datetime import datetime, timedelta, timezone
import fabric, gen, oadr, pairs, vloop, wire, world
ID = "P33"
CASES = {"quick": 700, "thorough": 20000}
RULE = ("(a) random valid event and report registration messages (dicts and the library's objects, several items) in which one item is made to break one rule (total durations, SIMPLE values and current values, response requirement, creation time, "
        "targets, measurement names, descriptions, units and power attributes, report names): the message must be refused with an error, or differ from that of an independent writer in exactly the corrected field; (b) a real VTN in virtual time whose operator adds "
        "such events, raw or with the convenience method, between good ones, while a VEN polls and asks: refused events raise where they are added and are never sent, every other one is sent with consistent contents; signature = (rule, form, outcomes)")
ASSUME = ["rules: the total durations of an event's signals and its active period agree; SIMPLE payloads are 0, 1, 2 or 3; a SIMPLE current value is 0 while the event is not active; response required is always or never; the targets by type are the targets"]
EVENT_RULES = ["longer", "differ", "simple", "current", "response", "no_response", "created", "measurement", "targets", "by_type"]
REPORT_RULES = ["name", "case", "description", "unit", "power", "no_description"]
REQUIRED = [f"rule_{k}" for k in EVENT_RULES + REPORT_RULES] + ["unbroken", "refused", "corrected", "of_several", "objects", "dicts", "added", "add_refused", "polls", "requests", "delivered", "delivered_beside_refused", "announced_longer", "status_active", "simple_active_value", "convenience_refused", "raw_refused", "status_completed", "same_message_again"]
UTC = timezone.utc
S = lambda x: timedelta(seconds=x)

def setup():
    global create_message, objects
    from openleadr.messaging import create_message
    from openleadr import objects

def get(o, k): return o.get(k) if isinstance(o, dict) else getattr(o, k)
def put(o, k, v):
    if isinstance(o, dict): o[k] = v
    else: setattr(o, k, v)

def break_event(r, rule, pl, el):
    """Breaks one rule; alters the element to what must be sent. Returns 'refused', 'corrected' or None when the rule does not fit this event."""
    sigs = get(pl, "event_signals")
    def longer(i, x):
        iv = get(sigs[i], "intervals")[-1]; put(iv, "duration", get(iv, "duration") + x)
        e = el.findall(".//{*}eiEventSignal")[i].findall(".//{*}interval")[-1].find("{*}duration/{*}duration"); e.text = oadr.fmt_dur(get(iv, "duration"))
    if rule == "longer":
        x = S(r.choice([1, 60, 3600, 90000]))
        for i in range(len(sigs)): longer(i, x)
        a = get(pl, "active_period"); el.find(".//{*}eiActivePeriod/{*}properties/{*}duration/{*}duration").text = oadr.fmt_dur(get(a, "duration") + x)
        return "corrected"
    if rule == "differ":
        if len(sigs) < 2: return None
        longer(r.randrange(len(sigs)), S(r.choice([1, 60, 90000]))); return "refused"
    if rule == "simple":
        ss = [s for s in sigs if get(s, "signal_name") == "SIMPLE"]
        if not ss: return None
        put(r.choice(get(r.choice(ss), "intervals")), "signal_payload", r.choice([4, -1, 0.5, 2.5, 1e9, 3.0001])); return "refused"
    if rule == "current":
        ss = [i for i, s in enumerate(sigs) if get(s, "signal_name") == "SIMPLE" and get(s, "current_value") is not None]
        if not ss: return None
        i = r.choice(ss); v = r.choice([1, 2, 3.0]); put(sigs[i], "current_value", v)
        active = get(get(pl, "event_descriptor"), "event_status") == "active"
        el.findall(".//{*}eiEventSignal")[i].find("{*}currentValue//{*}value").text = repr(float(v)) if active else "0.0"
        return "kept" if active else "corrected"
    if rule in ("response", "no_response"):
        if rule == "no_response":
            if not isinstance(pl, dict): return None
            del pl["response_required"]
        else: put(pl, "response_required", r.choice(["Always", "NEVER", "maybe", "", "none", None, True]))
        el.find(".//{*}oadrResponseRequired").text = "always"; return "corrected"
    if rule == "created":
        d = get(pl, "event_descriptor")
        if isinstance(d, dict) and r.random() < .5: del d["created_date_time"]
        else: put(d, "created_date_time", None)
        return "created"
    if rule == "measurement":
        ss = [s for s in sigs if get(s, "measurement") is not None]
        if not ss: return None
        put(get(r.choice(ss), "measurement"), "name", r.choice(["powerreal", "Voltage", "volts", "unknown & odd"])); return "refused"
    if rule == "targets":
        if not isinstance(pl, dict) or "targets" not in pl: return None
        by = {}
        for t in pl["targets"]:
            for k, v in t.items(): by.setdefault(k, []).append(v)
        k = r.choice(list(by)); x = r.randrange(4)
        if x == 0: by[k] = by[k] + ["one more"]
        elif x == 1: by[k] = by[k][1:] or ["another"]
        elif x == 2: by["group_id" if "group_id" not in by else "party_id" if "party_id" not in by else "other_id"] = ["g"]
        else: by[k] = ["x" + t for t in by[k]]
        pl["targets_by_type"] = by; return "refused"
    if rule == "by_type":
        if not isinstance(pl, dict) or "targets" not in pl: return None
        by = {}
        for t in pl["targets"]:
            for k, v in t.items(): by.setdefault(k, []).append(v)
        pl["targets_by_type"] = by
        if r.random() < .6: del pl["targets"]
        return "kept"

def break_report(r, rule, pl, el):
    ds = get(pl, "report_descriptions")
    ms = [i for i, d in enumerate(ds) if get(d, "measurement") is not None and get(get(d, "measurement"), "name") != "customUnit"]
    if rule == "name":
        n = get(pl, "report_name")
        if not n.startswith("METADATA_"): return None
        put(pl, "report_name", n[9:]); return "corrected"
    if not ms: return None
    i = r.choice(ms); m = get(ds[i], "measurement"); de = [x for x in el.iter("{*}oadrReportDescription")][i]
    if rule == "case":
        d = get(m, "description"); w = r.choice([d.upper(), d.lower(), d.swapcase()])
        put(m, "description", w); return "corrected" if w != d else "kept"
    if rule == "description": put(m, "description", r.choice(["", "Something", get(m, "description") + "s", get(m, "description") + " "])); return "refused"
    if rule == "unit": put(m, "unit", r.choice(["", "x", get(m, "unit") + get(m, "unit"), "furlong", get(m, "unit").swapcase() if get(m, "unit").swapcase() != get(m, "unit") else "q"])); return "refused"
    if rule == "power":
        if not get(m, "name").startswith("power"): return None
        if isinstance(m, dict) and r.random() < .7:
            if r.random() < .5: del m["power_attributes"]
            else: k = r.choice(["voltage", "ac", "hertz"]); m["power_attributes"] = {a: b for a, b in m["power_attributes"].items() if a != k}
            return "refused"
        return None
    if rule == "no_description":
        if not isinstance(m, dict): return None
        del m[r.choice(["description", "unit"])]; return "refused"

def messages(c):
    r = c.rng
    for _ in range(8):
        o = objects if r.random() < .5 else None
        ev = r.random() < .65
        n = r.choice([1, 1, 2, 3])
        q, v = "q&1", "vtn <1>"
        items = [pairs.event(r, o)[:2] for _ in range(n)] if ev else None
        for k in range(n if ev and o else 0):
            for _ in range(25):
                if not isinstance(items[k][0], dict): break
                items[k] = pairs.event(r, o)[:2]
        if not ev:
            pl, el, _ = pairs.register_report(r, o)
            items = list(zip(pl["reports"], [x for x in el if wire.local(x) == "oadrReport"]))
            n = len(items)
            if not n: continue
        k = r.randrange(n); rules = [None] + (EVENT_RULES if ev else REPORT_RULES)
        r.shuffle(rules); how = rule = None
        for rule in rules:
            if rule is None: how = None; break
            before = copy.deepcopy(items[k][0]), copy.deepcopy(items[k][1])
            how = (break_event if ev else break_report)(r, rule, *items[k])
            if how: break
        form = "dict" if isinstance(items[k][0], dict) else "object"
        c.count("dicts" if form == "dict" else "objects"); c.count("of_several", n > 1)
        c.count(f"rule_{rule}" if how else "unbroken")
        if ev: pl, el, t = dict(request_id=q, vtn_id=v, events=[a for a, _ in items]), oadr.M("oadrDistributeEvent", oadr.E("pyld:requestID", q), oadr.E("ei:vtnID", v), *[b for _, b in items]), "oadrDistributeEvent"
        else: t = "oadrRegisterReport"
        what = lambda: f"{t} with {n} items, number {k} breaking {rule!r} as {form}: {items[k][0]!r}"
        t0 = datetime.now(UTC)
        try: m = create_message(t, **copy.deepcopy(pl)); err = None
        except ValueError as e: m, err = None, e
        except Exception as e: c.fail(f"wrong-error:{type(e).__name__}", f"{what()}: {e!r}"); continue
        c.sig(rule, form, ev, n, how, err is None)
        if how == "refused":
            c.check(m is None, f"not-refused:{rule}", what); c.count("refused"); continue
        if not c.check(err is None, f"refused:{rule}", lambda: f"{what()}: {err!r}"): continue
        b = m.encode() if isinstance(m, str) else m
        c.check(wire.invalid(b) is None, f"invalid:{rule}", lambda: f"{what()}: {wire.invalid(b)}")
        got = wire.message(b)[1]
        if how == "created":
            made = got.findall(".//{*}eventDescriptor/{*}createdDateTime")[k]; d = wire.dt(made.text)
            c.check(t0 - S(1) <= d <= datetime.now(UTC) + S(1), "created-time", lambda: f"{what()}: {made.text}")
            el.findall(".//{*}eventDescriptor/{*}createdDateTime")[k].text = made.text
        d = pairs.first_diff(pairs.canon(got), pairs.canon(el))
        c.check(d is None, f"not-corrected:{rule}" if how else "unbroken-altered", lambda: f"{what()}: {d}; {b!r}")
        if how: c.count("corrected", how != "kept")
        if how not in (None, "created") and r.random() < .3:
            pl2 = copy.deepcopy(pl); create_message(t, **pl2); m2 = create_message(t, **pl2)
            d = pairs.first_diff(pairs.canon(wire.message(m2.encode())[1]), pairs.canon(el)); c.count("same_message_again")
            c.check(d is None, f"second-message-differs:{rule}", lambda: f"{what()}: {d}")

def case(c):
    r = c.rng
    messages(c)
    async def body(loop):
        srv = world.server(vtn_id="VTN_1")
        good, bad, trace = {}, set(), []
        now = lambda: datetime.now(UTC)
        def event(eid):
            """A good event as dict with its parts."""
            start = now() + S(r.choice([-30, 5, 60, 300, 2000])); n = r.choice([1, 1, 2, 3]); total = r.choice([40, 120, 600, 3000])
            sigs = []
            for i in range(n):
                k = r.choice([1, 2, 4]); cut = sorted(r.sample(range(1, total), k - 1)); ds = [b - a for a, b in zip([0] + cut, cut + [total])]
                name = r.choice(["SIMPLE", "SIMPLE", "LOAD_CONTROL", "x-own"]); t = start; iv = []
                for d in ds: iv.append(dict(dtstart=t, duration=S(d), signal_payload=r.choice([0, 1, 2, 3]))); t += S(d)
                sigs.append(dict(signal_name=name, signal_type="level", signal_id=f"s{i}", current_value=r.choice([0, 0, 1, 2, 3]), intervals=iv))
            return dict(event_descriptor=dict(event_id=eid, modification_number=0, market_context="http://mc", event_status="far", created_date_time=now(), priority=r.choice([0, 1])),
                        active_period=dict(dtstart=start, duration=S(total), ramp_up_period=r.choice([None, None, S(100)])), targets=[{"ven_id": "v"}], response_required="never", event_signals=sigs)
        def to_object(e):
            return objects.Event(event_descriptor=objects.EventDescriptor(**e["event_descriptor"]), active_period=objects.ActivePeriod(**e["active_period"]), response_required=e["response_required"],
                                 targets=[objects.Target(ven_id="v")], event_signals=[objects.EventSignal(intervals=[objects.Interval(**i) for i in s["intervals"]], signal_name=s["signal_name"], signal_type="level", signal_id=s["signal_id"], current_value=s["current_value"]) for s in e["event_signals"]])
        def add():
            eid = gen.uid(r, "pm"); x = r.random()
            if x < .2:      # the convenience method
                start = now() + S(50); broken = r.random() < .5
                v = r.choice([4, -1, 1.5, 99]) if broken else r.choice([0, 1, 2, 3])
                iv = [dict(dtstart=start, duration=S(60), signal_payload=1), dict(dtstart=start + S(60), duration=S(60), signal_payload=v)]
                try: srv.add_event(ven_id="v", event_id=eid, signal_name="SIMPLE", signal_type="level", intervals=iv, response_required="never"); err = None
                except ValueError as e: err = e
                c.check((err is not None) == broken, "added-or-refused", lambda: f"add_event with SIMPLE value {v}: {err!r}")
                if broken: bad.add(eid); c.count("convenience_refused"); c.count("add_refused")
                else: good[eid] = dict(start=start, total=S(120), cur=None, sig=["SIMPLE"], ramp=None); c.count("added")
                trace.append(("add_event", broken)); return
            e = event(eid); rule = r.choice([None, None, "longer", "differ", "simple", "response", "created", "measurement", "targets"]); refuse = False
            total = e["active_period"]["duration"]
            sig = r.choice(e["event_signals"])
            if rule == "longer":
                total = total + S(r.choice([1, 30, 300]))
                for s in e["event_signals"]: s["intervals"][-1]["duration"] += total - e["active_period"]["duration"]
                if len(e["event_signals"]) and r.random() < .3: pass
            if rule == "differ":
                if len(e["event_signals"]) < 2: rule = None
                else: sig["intervals"][0]["duration"] += S(7); refuse = True
            if rule == "simple": sig["signal_name"] = "SIMPLE"; r.choice(sig["intervals"])["signal_payload"] = r.choice([4, -1, 0.5]); refuse = True
            if rule == "response": e["response_required"] = r.choice(["sometimes", "ALWAYS"])
            if rule == "created": e["event_descriptor"]["created_date_time"] = None
            if rule == "measurement": sig["measurement"] = dict(name="unknown thing", description="x", unit="V", scale="none"); refuse = True
            if rule == "targets": e["targets_by_type"] = {"ven_id": ["w"]}; refuse = True
            obj = rule not in ("response", "created", "measurement", "targets") and r.random() < .5
            ev = to_object(e) if obj else e
            try: srv.add_raw_event(ven_id="v", event=ev); err = None
            except ValueError as x: err = x
            c.check((err is not None) == refuse, "added-or-refused", lambda: f"add_raw_event breaking {rule!r} ({'object' if obj else 'dict'}): {err!r}; {e}")
            trace.append(("raw", rule, obj))
            if refuse: bad.add(eid); c.count("raw_refused"); c.count("add_refused"); return
            c.count("added")
            good[eid] = dict(start=e["active_period"]["dtstart"], total=total, cur=[s["current_value"] for s in e["event_signals"]], sig=[s["signal_name"] for s in e["event_signals"]], ramp=e["active_period"]["ramp_up_period"])
            if rule == "longer": c.count("announced_longer")
        for _ in range(r.choice([6, 12, 20])):
            if r.random() < .6: add(); changed = True
            await asyncio.sleep(r.choice([0, 1, 20, 45, 200, 1000]))
            req = r.random() < .5
            a = await world.post(srv, "EiEvent" if req else "OadrPoll", oadr.request_event("v", "rq") if req else oadr.poll("v"))
            c.count("requests" if req else "polls")
            tag = lambda: f"{'request' if req else 'poll'}: {a}; added {trace[-6:]}"
            if not c.check(a.status == 200 and a.bad is None, "queue-blocked", tag): break
            ids = [e["event_id"] for e in a.events]
            c.check(not set(ids) & bad, "refused-event-sent", tag)
            t = now()
            if req:
                for eid, g in good.items(): c.check(eid in ids or g["start"] + g["total"] <= t, "event-withheld", lambda: f"{eid} {g} at {t}: {tag()}")
            for e in a.events:
                g = good.get(e["event_id"])
                if not c.check(g is not None, "unknown-event", tag): continue
                c.count("delivered"); c.count("delivered_beside_refused", bool(bad))
                c.check(e["duration"] == g["total"] and all(sum((i["duration"] for i in s["intervals"]), S(0)) == e["duration"] for s in e["signals"]), "durations-disagree", lambda: f"{e}: {g}; {tag()}")
                end = e["start"] + e["duration"]
                want = "completed" if t >= end else "active" if t >= e["start"] else "near" if g["ramp"] is not None and t >= e["start"] - g["ramp"] else "far"
                near = min(abs((t - x).total_seconds()) for x in (e["start"], end))
                c.check(e["status"] == want or near < .01, "status-contradicts-announced-period", lambda: f"{e['status']} at {t}, expected {want}: {e}; {tag()}")
                c.count(f"status_{e['status']}")
                c.check(e["response_required"] in ("always", "never"), "response-required", tag)
                for s, cv in zip(e["signals"], g["cur"] or []):
                    w = cv if s["name"] != "SIMPLE" or e["status"] == "active" else 0
                    c.check(s["current"] == float(w), "current-value", lambda: f"{s} current {cv} status {e['status']}: {tag()}")
                    c.count("simple_active_value", s["name"] == "SIMPLE" and e["status"] == "active" and cv != 0)
        c.sig(tuple(trace))
        c.sample({"operations": trace[:12]})
    c.run(body, start=vloop.EPOCH + timedelta(hours=3 * c.index))
