"""P01: emitted messages are schema-valid and carry the supplied values verbatim."""
import copy
from datetime import datetime, timezone
import gen, oadr, pairs, sign, wire
ID = "P01"
CASES = {"quick": 1600, "thorough": 40000}
RULE = ("every case builds messages of all 23 types from random payloads (hostile text, any numbers, times with offsets, durations, one or several or no repeated items, payloads as dicts and as the library's objects, every measurement with every unit and scale), unsigned or signed, through create_message and through the create functions of the "
        "client and server objects; the result must validate against an own copy of the schema and be, element by element, the message that an independent writer makes of the same values; signature = (type, shape of the message)")
ASSUME = ["texts contain only characters that XML 1.0 can represent"]
REQUIRED = [f"type_{t}" for t in pairs.TYPES] + ["signed", "unsigned", "objects", "dicts", "measurements", "texts_markup", "client_function", "server_function"]

def setup():
    global create_message, parse_message, objects, OpenADRClient, OpenADRServer
    from openleadr.messaging import create_message, parse_message
    from openleadr import objects, OpenADRClient, OpenADRServer

def shape(el): return wire.local(el), tuple(shape(k) for k in el if isinstance(k.tag, str))

def check_one(c, build, t, pl, el, signed, what):
    try: m = build(t, pl)
    except Exception as e:
        c.fail(f"not-built:{t}:{type(e).__name__}", f"{what}: {e!r}"); return None
    b = m.encode("utf-8") if isinstance(m, str) else m
    v = wire.invalid(b)
    c.check(v is None, f"invalid:{t}", lambda: f"{what}: {v}; {b!r}")
    try: mt, got = wire.message(b)
    except Exception as e:
        c.fail(f"unreadable:{t}", f"{what}: {e!r} {b!r}"); return None
    c.check(mt == t, f"type:{t}", lambda: f"{what}: {mt}")
    d = pairs.first_diff(pairs.canon(got), pairs.canon(el))
    c.check(d is None, f"content:{t}:{(d or '').split(':')[0].rsplit('/', 1)[-1]}", lambda: f"{what}: {d}; {b!r}")
    root = wire.parse(b)
    so = [k for k in root if wire.local(k) == "oadrSignedObject"]
    c.check(len(so) == 1 and len(wire.kids(so[0])) == 1, f"envelope:{t}", lambda: f"{what}: {b!r}")
    c.check((root[0].tag == "{http://www.w3.org/2000/09/xmldsig#}Signature") == signed, f"signature:{t}", lambda: f"{what}: {b!r}")
    return b

def case(c):
    r = c.rng
    kinds = set()
    for _ in range(6):
        t = r.choice(list(pairs.TYPES)); kinds.add(t)
        o = objects if r.random() < .5 else None
        c.count("objects" if o else "dicts")
        pl, el, _ = pairs.TYPES[t](r, o)
        signed = r.random() < .12
        c.count("signed" if signed else "unsigned"); c.count(f"type_{t}")
        if b"&" in oadr.msg(copy.deepcopy(el)): c.count("texts_markup")
        if signed:
            nm = r.choice(["v0", "v0", "v3", "vtn"])
            ct, ky = sign.pem(nm), open(sign.path(nm, "key"), "rb").read()
            build = lambda t, p: create_message(t, cert=ct, key=ky, passphrase=sign.PASS.get(nm), **p)
        elif r.random() < .2:
            c.count("client_function"); cl = OpenADRClient(ven_name="x", vtn_url="http://localhost/x"); build = lambda t, p: cl._create_message(t, **p)
        elif r.random() < .05:
            c.count("server_function"); sv = OpenADRServer(vtn_id="x"); build = lambda t, p: r.choice(list(sv.services.values()))._create_message(t, **p)
        else: build = lambda t, p: create_message(t, **p)
        what = f"{t} of {pl!r}"
        b = check_one(c, build, t, pl, el, signed, what)
        if b is not None and r.random() < .15:
            # the same payload gives the same message again
            b2 = check_one(c, build, t, pl, el, signed, "again " + what)
        c.sig((t, shape(el)))
    # every measurement, unit and scale in its turn
    names = [(n, u, s) for n in pairs.UNITS for u in pairs.UNITS[n][1] for s in (pairs.SCALES if n != "pulseCount" else [None])]
    n, u, s = names[c.index % len(names)]
    m = pairs.measurement(r, n, s, u); c.count("measurements")
    from openleadr import enums
    std = [x for x in enums.MEASUREMENTS.values if x.name == n]
    lib = pairs.m_payload(r, m, objects if r.random() < .5 else None)
    if std and r.random() < .5:
        lib = copy.deepcopy(std[c.index % len(std)]); m = dict(m, unit=lib.unit, scale=lib.scale or "none")
        if n == "pulseCount": m["pulse_factor"] = lib.pulse_factor; m.pop("scale", None)
        if lib.power_attributes: m["power"] = (lib.power_attributes.hertz, lib.power_attributes.voltage, lib.power_attributes.ac)
    now = gen.when(r)
    d = dict(r_id="r", type="usage", measurement=m)
    rep = dict(report_specifier_id="s", report_name="METADATA_TELEMETRY_USAGE", created_date_time=now, report_descriptions=[dict(r_id="r", report_type="usage", reading_type="Direct Read", measurement=copy.deepcopy(lib))])
    check_one(c, lambda t, p: create_message(t, **p), "oadrRegisterReport", dict(request_id="q", ven_id="v", reports=[pairs.deep_dict(rep)]), oadr.register_report("q", "v", [oadr.report_offer("s", "METADATA_TELEMETRY_USAGE", [d], duration=None, created=now)]), False, f"report with {lib}")
    dur = gen.dur(r)
    ev = dict(event_id="e", market_context="http://mc/1", created=now, start=now, duration=dur, signals=[dict(name="LOAD_CONTROL", type="level", id="s", measurement=m, current=None, intervals=[(now, dur, 2.5)])], targets=[("ven_id", "v")], status="far", mod=0)
    pe = dict(event_descriptor=dict(event_id="e", modification_number=0, market_context="http://mc/1", event_status="far", created_date_time=now, priority=None), active_period=dict(dtstart=now, duration=dur), targets=[{"ven_id": "v"}], event_signals=[dict(signal_name="LOAD_CONTROL", signal_type="level", signal_id="s", measurement=pairs.deep_dict(copy.deepcopy(lib)), intervals=[dict(dtstart=now, duration=dur, signal_payload=2.5)])])
    check_one(c, lambda t, p: create_message(t, **p), "oadrDistributeEvent", dict(request_id="q", vtn_id="x", events=[pe]), oadr.distribute_event("q", [ev], vtn="x", resp=False), False, f"event with {lib}")
    c.sample({"types": sorted(kinds), "measurement": (n, u, s)})
