"""Random schema-valid messages of every type, built by the independent writer."""
from datetime import timedelta
import gen, oadr
S = lambda x: timedelta(seconds=x)
MS = [dict(name="voltage", description="Voltage", unit="V"), dict(name="frequency", description="Frequency", unit="Hz"), dict(name="current", description="Current", unit="A"),
      dict(name="temperature", description="temperature", unit="celsius"), dict(name="powerReal", description="RealPower", unit="W", scale="k", power=(50, 230, True)),
      dict(name="energyReal", description="RealEnergy", unit="Wh", scale="M"), dict(name="pulseCount", description="pulse count", unit="count", pulse_factor="1000")]

def targets(r, n=None):
    return [(r.choice(oadr.TORD), gen.txt(r)) for _ in range(r.choice([1, 1, 2, 4]) if n is None else n)]

def descr(r, n):
    return dict(r_id=f"{gen.uid(r, 'pm')}-{n}", type=r.choice(["usage", "reading", "x-own & type"]), source=targets(r, r.choice([0, 1, 2])) or None, measurement=r.choice(MS + [None]), reading=r.choice(["Direct Read", "Mean", "x-mine"]),
                market_context=r.choice([None, "http://mc/x?a=1&b=2"]), mrid=r.choice([None, "asset"]), min=r.choice([None, S(10), gen.dur(r)]), max=gen.dur(r), on_change=r.random() < .5)

NAMES = ["METADATA_TELEMETRY_USAGE", "METADATA_TELEMETRY_STATUS", "METADATA_HISTORY_USAGE"]
def ven_msg(r, ven, kind=None):
    """A message a VEN may send: (kind, element)."""
    kind = kind or r.choice(VEN_KINDS)
    rid = gen.uid(r, "pmu")
    if kind == "poll": return kind, oadr.poll(ven)
    if kind == "request_event": return kind, oadr.request_event(ven, rid, r.choice([None, 0, 1, 7]))
    if kind == "created_event":
        return kind, oadr.created_event(ven, [(gen.uid(r, "pmun"), r.randrange(5), r.choice(["optIn", "optOut"]), gen.uid(r, "pm"), 200) for _ in range(r.choice([1, 2, 4]))])
    if kind == "query": return kind, oadr.query_registration(rid)
    if kind == "register":
        return kind, oadr.create_party_registration(rid, ven_id=ven, ven_name=r.choice([gen.txt(r), gen.txt(r, "l")]), registration_id=r.choice([None, gen.uid(r, "pmu")]), transport=r.choice(["simpleHttp", "xmpp"]), address=r.choice([None, "http://ven/x?a&b"]), report_only=r.random() < .5, xml_sig=r.random() < .5, pull=r.random() < .5)
    if kind == "cancel_registration": return kind, oadr.cancel_party_registration(rid, gen.uid(r, "pmu"), ven)
    if kind == "register_report":
        return kind, oadr.register_report(rid, ven, [oadr.report_offer(gen.uid(r, "pmu"), r.choice(NAMES), [descr(r, n) for n in range(r.choice([1, 2, 3]))], duration=gen.dur(r), created=gen.when(r)) for _ in range(r.choice([0, 1, 1, 2]))])
    if kind == "update_report":
        return kind, oadr.update_report(rid, ven, [oadr.report_data(gen.uid(r, "pm"), gen.uid(r, "pm"), [(f"r{r.randrange(3)}", gen.when(r), gen.num(r)) for _ in range(r.choice([0, 1, 2, 5]))], name=r.choice(["TELEMETRY_USAGE", "HISTORY_USAGE", None]), start=r.choice([None, gen.when(r)]), created=gen.when(r)) for _ in range(r.choice([1, 1, 2, 3]))])
    ids = [gen.uid(r, "pm") for _ in range(r.choice([0, 1, 2, 3]))]
    if kind == "created_report": return kind, oadr.created_report(rid, ven, ids)
    if kind == "canceled_report": return kind, oadr.canceled_report(rid, ven, ids)
    if kind == "response": return kind, oadr.oadr_response(r.choice([200, 452]), rid, ven)
    raise KeyError(kind)
VEN_KINDS = ["poll", "request_event", "created_event", "query", "register", "cancel_registration", "register_report", "update_report", "created_report", "canceled_report", "response"]
VEN_SERVICE = {"poll": "OadrPoll", "request_event": "EiEvent", "created_event": "EiEvent", "query": "EiRegisterParty", "register": "EiRegisterParty", "cancel_registration": "EiRegisterParty", "register_report": "EiReport", "update_report": "EiReport", "created_report": "EiReport",
               "canceled_report": "EiReport", "response": "EiRegisterParty"}

def event(r, n=0):
    start = gen.when(r)
    sigs = []
    for k in range(r.choice([1, 1, 2, 3])):
        t, ivs = start, []
        for _ in range(r.choice([1, 1, 2, 5])):
            d = gen.dur(r, hi=86400); ivs.append((t, d, gen.num(r))); t = t + d
        name = r.choice(["ELECTRICITY_PRICE", "LOAD_CONTROL", "BID_PRICE", "x-own & signal"])
        sigs.append(dict(name=name, type=r.choice(["price", "level", "setpoint", "x-loadControlCapacity"]), id=gen.uid(r, "pm"), measurement=r.choice(MS + [None, None]), current=r.choice([None, gen.num(r)]), intervals=ivs))
    return dict(event_id=gen.uid(r, "pmun"), mod=r.randrange(9), status=r.choice(["far", "near", "active", "completed", "cancelled"]), market_context=r.choice(["http://mc/1", "oadr://x.y?a=1&b=2"]), created=gen.when(r), priority=r.choice([None, 0, 1, 5]),
                test=r.choice([None, "true", "false", "test run"]), comment=r.choice([None, gen.txt(r), gen.txt(r, "l")]), modified=r.choice([None, gen.when(r)]), start=start, duration=r.choice([gen.dur(r), S(0)]), tolerance=r.choice([None, gen.dur(r)]), notification=r.choice([None, gen.dur(r), S(0)]),
                ramp_up=r.choice([None, gen.dur(r)]), recovery=r.choice([None, gen.dur(r)]), signals=sigs, targets=targets(r), response=r.choice(["always", "never"]))

def vtn_msg(r, ven, kind=None, vtn="VTN_1"):
    kind = kind or r.choice(VTN_KINDS)
    rid = gen.uid(r, "pmu")
    if kind == "distribute_event": return kind, oadr.distribute_event(rid, [event(r, n) for n in range(r.choice([0, 1, 1, 2, 3]))], vtn=vtn, resp=r.random() < .7)
    if kind == "created_registration": return kind, oadr.created_party_registration(rid, ven, r.choice([None, gen.uid(r, "pmu")]), vtn=vtn, freq=r.choice([None, gen.dur(r)]), code=r.choice([200, 463]), desc=gen.txt(r), profiles=r.choice([(("2.0b", ("simpleHttp",)),), (("2.0a", ("simpleHttp",)), ("2.0b", ("simpleHttp", "xmpp")))]))
    if kind == "response": return kind, oadr.oadr_response(r.choice([200, 452]), rid, r.choice([None, ven]), desc=gen.txt(r))
    reqs = lambda: [oadr.report_request(gen.uid(r, "pmu"), gen.uid(r, "pmu"), gen.dur(r), r.choice([None, gen.dur(r), S(0)]) or S(0), [(f"r{k}", "Direct Read", r.choice(MS + [None])) for k in range(r.choice([1, 2, 3]))], start=r.choice([None, gen.when(r)])) for _ in range(r.choice([0, 1, 2]))]
    if kind == "registered_report": return kind, oadr.registered_report(rid, reqs(), ven)
    if kind == "create_report": return kind, oadr.create_report(rid, ven, reqs() or reqs() or [oadr.report_request("q", "s", S(1), S(2), [("r", "Direct Read")])])
    if kind == "cancel_report": return kind, oadr.cancel_report(rid, [gen.uid(r, "pm") for _ in range(r.choice([1, 2, 3]))], r.random() < .5, ven)
    if kind == "updated_report": return kind, oadr.updated_report(rid, ven, r.choice([None, (gen.uid(r, "p"), ["x", "y"], True, ven)]))
    if kind == "request_reregistration": return kind, oadr.request_reregistration(ven)
    if kind == "cancel_registration": return kind, oadr.cancel_party_registration(rid, gen.uid(r, "pmu"), ven)
    raise KeyError(kind)
VTN_KINDS = ["distribute_event", "distribute_event", "created_registration", "response", "registered_report", "create_report", "cancel_report", "updated_report", "request_reregistration", "cancel_registration"]
