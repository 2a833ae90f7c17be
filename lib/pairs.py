"""For every message type: random content as (payload for the library's writer, the same message from the independent writer,
what parsing it has to give)."""
import copy, re
from datetime import timedelta, timezone
import gen, oadr
from oadr import E, opt, M
S = lambda x: timedelta(seconds=x)

def T(s):
    """Text as parsed: without surrounding white space."""
    return None if s is None else (str(s).strip() or None)
def R(s):
    """A request id as parsed: ids that are plain numbers may come back as that number."""
    s = T(s)
    return int(s) if s is not None and re.fullmatch(r"0|-?[1-9][0-9]*", s) else s
def Z(d): return None if d is None else d.astimezone(timezone.utc)
def clean(d): return {k: v for k, v in d.items() if v is not None}

# ---- values
def word(r): return gen.txt(r, r.choice(["p", "pmun", "pmun", "pmunl"]))
def wtext(r):
    t = word(r)
    return r.choice([t, t, t, " " + t, t + "  ", "\t" + t + "\n", "  " + t + " \r\n"])
def rid(r): return r.choice([gen.uid(r, "pmun"), gen.uid(r, "pmun"), word(r)])
def code(r): return r.choice([200, 200, 450, 452, 459, 469, 463])
def fl(r): return r.random() < .5

UNITS = {'currency': ("currency", ("AFN", "EUR", "USD", "ZWL", "XXX"), "oadr"), 'currencyPerKW': ("currencyPerKW", ("EUR", "GBP"), "oadr"), 'currencyPerKWh': ("currencyPerKWh", ("EUR", "JPY"), "oadr"), 'currencyPerThm': ("currency", ("EUR",), "oadr"),
         'current': ("Current", ("A",), "oadr"), 'energyApparent': ("ApparentEnergy", ("VAh",), "power"), 'energyReactive': ("ReactiveEnergy", ("VARh",), "power"), 'energyReal': ("RealEnergy", ("Wh",), "power"), 'frequency': ("Frequency", ("Hz",), "oadr"),
         'powerApparent': ("ApparentPower", ("VA",), "power"), 'powerReactive': ("ReactivePower", ("VAR",), "power"), 'powerReal': ("RealPower", ("W",), "power"), 'pulseCount': ("pulse count", ("count",), "oadr"), 'temperature': ("temperature", ("celsius", "fahrenheit"), "oadr"),
         'Therm': ("Therm", ("thm",), "oadr"), 'voltage': ("Voltage", ("V",), "power")}
SCALES = ["p", "n", "micro", "m", "c", "d", "k", "M", "G", "T", "none"]
def measurement(r, name=None, scale=None, unit=None):
    """dict(name, description, unit, scale, power, pulse_factor)"""
    name = name or r.choice(list(UNITS) + ["customUnit"] * 3)
    if name == "customUnit": m = dict(name=name, description=word(r), unit=word(r))
    else: m = dict(name=name, description=UNITS[name][0], unit=unit or r.choice(UNITS[name][1]))
    if name == "pulseCount": m["pulse_factor"] = r.choice([1, 1000, 7])
    else: m["scale"] = scale or r.choice(SCALES)
    if name.startswith("power"): m["power"] = (r.choice([50, 60, 50.5]), r.choice([230, 120, 400.0]), fl(r))
    return m
def m_payload(r, m, objs=None):
    """For the library: as a dict or as an object."""
    if m is None: return None
    pa = m.get("power")
    kw = dict(name=m["name"], description=m["description"], unit=m["unit"])
    if "scale" in m: kw["scale"] = m["scale"]
    if "pulse_factor" in m: kw["pulse_factor"] = m["pulse_factor"]
    if objs: return objs.Measurement(**kw, power_attributes=objs.PowerAttributes(hertz=pa[0], voltage=pa[1], ac=pa[2]) if pa else None)
    if pa: kw["power_attributes"] = dict(hertz=pa[0], voltage=pa[1], ac=pa[2])
    return kw
def m_parsed(m):
    if m is None: return None
    d = dict(name=m["name"], description=T(m["description"]), unit=T(m["unit"]))
    if "pulse_factor" in m: d["pulse_factor"] = m["pulse_factor"]
    else: d["scale"] = m["scale"]
    if "power" in m: d["power_attributes"] = dict(hertz=m["power"][0], voltage=m["power"][1], ac=m["power"][2])
    return d

def targets(r, n): return [(r.choice(oadr.TORD), wtext(r)) for _ in range(n)]
def t_list(ts): return [{k: v} for k, v in ts]
def t_parsed(ts):
    o = sorted(ts, key=lambda x: oadr.TORD.index(x[0]))
    by = {}
    for k, v in o: by.setdefault(k, []).append(T(v))
    return [{k: T(v)} for k, v in o], by

def resp(r):
    x = dict(response_code=code(r), response_description=wtext(r), request_id=rid(r))
    return x, oadr.response(x["response_code"], x["response_description"], x["request_id"]), dict(response_code=x["response_code"], response_description=T(x["response_description"]), request_id=R(x["request_id"]))

# ---- one generator per message type: (payload, element, parsed)
def poll(r, o):
    v = wtext(r); return dict(ven_id=v), oadr.poll(v), dict(ven_id=T(v))
def request_event(r, o):
    q, v, n = rid(r), wtext(r), r.choice([None, 0, 1, 99]); return dict(request_id=q, ven_id=v, reply_limit=n), oadr.request_event(v, q, n), clean(dict(request_id=R(q), ven_id=T(v), reply_limit=n))
def created_event(r, o):
    v = wtext(r); x, _, px = resp(r)
    items = [dict(response_code=code(r), response_description=r.choice([None, wtext(r)]), request_id=rid(r), event_id=rid(r), modification_number=r.randrange(50), opt_type=r.choice(["optIn", "optOut"])) for _ in range(r.choice([0, 1, 1, 2, 5]))] or None
    el = M("oadrCreatedEvent", E("pyld:eiCreatedEvent", oadr.response(x["response_code"], x["response_description"], "" if items else x["request_id"]),
         E("ei:eventResponses", *[E("ei:eventResponse", E("ei:responseCode", i["response_code"]), opt("ei:responseDescription", i["response_description"]), E("pyld:requestID", i["request_id"]), E("ei:qualifiedEventID", E("ei:eventID", i["event_id"]), E("ei:modificationNumber", i["modification_number"])), E("ei:optType", i["opt_type"])) for i in items]) if items else None, E("ei:venID", v)))
    if items: px = dict(px, request_id=None)
    p = dict(response=px, ven_id=T(v))
    if items: p["event_responses"] = [dict({k: w for k, w in i.items() if k != "response_description"}, request_id=R(i["request_id"]), event_id=T(i["event_id"]), **({"response_description": T(i["response_description"])} if i["response_description"] is not None else {})) for i in items]
    return dict(response=x, event_responses=items, ven_id=v), el, p
def query_registration(r, o):
    q = rid(r); return dict(request_id=q), oadr.query_registration(q), dict(request_id=R(q))
def create_party_registration(r, o):
    d = dict(request_id=rid(r), registration_id=r.choice([None, rid(r)]), ven_id=r.choice([None, wtext(r)]), profile_name=r.choice(["2.0a", "2.0b"]), transport_name=r.choice(["simpleHttp", "xmpp"]), transport_address=r.choice([wtext(r), "http://ven.example:8080/x?a=1&b=2"]), report_only=fl(r), xml_signature=fl(r), ven_name=wtext(r), http_pull_model=fl(r))
    el = oadr.create_party_registration(d["request_id"], d["ven_id"], d["ven_name"], d["registration_id"], d["profile_name"], d["transport_name"], d["transport_address"], d["report_only"], d["xml_signature"], d["http_pull_model"])
    return d, el, clean(dict(d, request_id=R(d["request_id"]), registration_id=T(d["registration_id"]), ven_id=T(d["ven_id"]), transport_address=T(d["transport_address"]), ven_name=T(d["ven_name"])))
def cancel_party_registration(r, o):
    q, g, v = rid(r), rid(r), wtext(r); return dict(request_id=q, registration_id=g, ven_id=v), oadr.cancel_party_registration(q, g, v), dict(request_id=R(q), registration_id=T(g), ven_id=T(v))
def canceled_party_registration(r, o):
    x, ex, px = resp(r); g, v = rid(r), r.choice([None, wtext(r)])
    return dict(response=x, registration_id=g, ven_id=v), M("oadrCanceledPartyRegistration", ex, E("ei:registrationID", g), opt("ei:venID", v)), clean(dict(response=px, registration_id=T(g), ven_id=T(v)))

def descr(r, o, n, names=None):
    m = r.choice([measurement(r), measurement(r), None])
    src = r.choice([[], [(k, wtext(r)) for k in oadr.TORD if fl(r)]])
    d = dict(r_id=rid(r) + str(n), source=src, type=r.choice(["usage", "reading", "x-own & type", "demand"]), measurement=m, reading=r.choice(["Direct Read", "Mean", "x-mine & yours"]), market_context=r.choice([None, "http://mc/x?a=1&b=2", "urn:x"]), mrid=r.choice([None, wtext(r)]),
             min=r.choice([None, gen.dur(r)]), max=gen.dur(r), on_change=fl(r))
    pl = dict(r_id=d["r_id"], report_type=d["type"], reading_type=d["reading"], measurement=m_payload(r, m, o if fl(r) else None))
    if src or fl(r): pl["report_data_source"] = dict(src) if src else None
    if d["market_context"]: pl["market_context"] = d["market_context"]
    if d["mrid"]: pl["report_subject"] = {"end_device_asset": {"mrid": d["mrid"]}}
    elif fl(r): pl["report_subject"] = {"resource_id": "not sent"}
    if d["min"] is not None: pl["sampling_rate"] = dict(min_period=d["min"], max_period=d["max"], on_change=d["on_change"])
    if o and fl(r):    # as an object
        pl["measurement"] = m_payload(r, m, o)
        pl = o.ReportDescription(r_id=d["r_id"], market_context=d["market_context"], reading_type=d["reading"], report_subject=o.Target(end_device_asset=o.EndDeviceAsset(mrid=d["mrid"])) if d["mrid"] else None, report_data_source=o.Target(**dict(src)) if src else None, report_type=d["type"],
                                 sampling_rate=o.SamplingRate(min_period=d["min"], max_period=d["max"], on_change=d["on_change"]) if d["min"] is not None else None, measurement=pl["measurement"])
    elif o: pl = deep_dict(pl)
    pd = clean(dict(r_id=T(d["r_id"]), report_type=d["type"], reading_type=d["reading"], market_context=d["market_context"], measurement=m_parsed(m)))
    if d["mrid"]: pd["report_subject"] = {"end_device_asset": {"mrid": T(d["mrid"])}}
    if src: pd["report_data_source"] = {k: T(v) for k, v in src}
    if d["min"] is not None: pd["sampling_rate"] = dict(min_period=d["min"], max_period=d["max"], on_change=d["on_change"])
    d["source"] = src or None
    return pl, oadr.report_description(d), pd
def deep_dict(x):
    import dataclasses
    if dataclasses.is_dataclass(x): return dataclasses.asdict(x)
    if isinstance(x, dict): return {k: deep_dict(v) for k, v in x.items()}
    if isinstance(x, list): return [deep_dict(v) for v in x]
    return x
def register_report(r, o):
    q, v = rid(r), r.choice([None, wtext(r), wtext(r)])
    pls, els, pds = [], [], []
    for _ in range(r.choice([1, 1, 2, 3])):
        name = r.choice(["METADATA_TELEMETRY_USAGE", "METADATA_TELEMETRY_STATUS", "METADATA_HISTORY_USAGE", "METADATA_HISTORY_GREENBUTTON", "x-own & name"])
        ds = [descr(r, o, n) for n in range(r.choice([0, 1, 1, 2, 4]))]
        sp, du, cr, rq = rid(r), r.choice([None, gen.dur(r)]), gen.when(r), r.choice([None, None, rid(r)])
        pl = dict(report_specifier_id=sp, report_name=name, report_descriptions=[d[0] for d in ds], created_date_time=cr, duration=du)
        if rq is not None: pl["report_request_id"] = rq
        if not pl["duration"] and fl(r): del pl["duration"]
        if o and fl(r): pl = o.Report(report_specifier_id=sp, report_name=name, report_request_id=rq, report_descriptions=[d[0] for d in ds], created_date_time=cr, duration=du)
        else: pl = deep_dict(pl)
        els.append(oadr.report_offer(sp, name, [], du, rq if rq is not None else "0", cr))
        at = 1 if du is not None else 0
        for n, d in enumerate(ds): els[-1].insert(at + n, d[1])
        p = clean(dict(report_specifier_id=T(sp), report_name=name, created_date_time=Z(cr), duration=du, report_request_id=R(rq if rq is not None else "0")))
        if ds: p["report_descriptions"] = [d[2] for d in ds]
        pls.append(pl); pds.append(p)
    pl = dict(request_id=q, reports=pls)
    if v is not None or fl(r): pl["ven_id"] = v
    return pl, oadr.register_report(q, v, els), clean(dict(request_id=R(q), reports=pds, ven_id=T(v)))
def update_report(r, o):
    q, v = rid(r), r.choice([None, wtext(r), wtext(r)])
    pls, els, pds = [], [], []
    for _ in range(r.choice([1, 1, 2, 3])):
        name = r.choice(["TELEMETRY_USAGE", "TELEMETRY_STATUS", "HISTORY_USAGE", "x-own & name"])
        sp, rr, rp, cr, st = rid(r), rid(r), rid(r), gen.when(r), r.choice([None, gen.when(r)])
        ivs = [dict(dtstart=gen.when(r), duration=r.choice([None, gen.dur(r), S(0)]), r_id=rid(r), value=gen.num(r), confidence=r.choice([None, 0, 95, 100]), accuracy=r.choice([None, 0, 0.5, 3])) for _ in range(r.choice([0, 1, 1, 2, 6]))]
        quality = [r.choice([None, "Quality Good - Non Specific", "x-mine & yours"]) for _ in ivs]
        obj = o and fl(r)
        ip = []
        for i, ql in zip(ivs, quality):
            pay = clean(dict(r_id=i["r_id"], value=i["value"], confidence=i["confidence"], accuracy=i["accuracy"]))
            if obj: ip.append(o.ReportInterval(dtstart=i["dtstart"], duration=i["duration"], report_payload=o.ReportPayload(**pay)))
            else: ip.append(clean(dict(dtstart=i["dtstart"], duration=i["duration"], report_payload=dict(pay, data_quality=ql))))
        if obj: quality, rp = [None] * len(ivs), ""
        if obj: pl = o.Report(report_specifier_id=sp, report_name=name, report_request_id=rr, created_date_time=cr, dtstart=st, intervals=ip)
        else: pl = dict(report_id=rp, report_specifier_id=sp, report_name=name, report_request_id=rr, created_date_time=cr, dtstart=st, intervals=ip or r.choice([None, []]), report_descriptions=r.choice([None, []]))
        el = E("oadr:oadrReport", oadr.dts("xcal:dtstart", st), E("strm:intervals", *[E("ei:interval", oadr.dts("xcal:dtstart", i["dtstart"]), oadr.durs("xcal:duration", i["duration"]),
               E("oadr:oadrReportPayload", E("ei:rID", i["r_id"]), opt("ei:confidence", i["confidence"]), opt("ei:accuracy", i["accuracy"]), E("ei:payloadFloat", E("ei:value", repr(float(i["value"])))), opt("oadr:oadrDataQuality", ql))) for i, ql in zip(ivs, quality)]) if ivs else None,
               E("ei:eiReportID", rp), E("ei:reportRequestID", rr), E("ei:reportSpecifierID", sp), E("ei:reportName", name), E("ei:createdDateTime", oadr.fmt_dt(cr)))
        p = dict(report_id=T(rp), report_specifier_id=T(sp), report_name=name, report_request_id=R(rr), created_date_time=Z(cr))
        if st: p["dtstart"] = Z(st)
        if ivs: p["intervals"] = [clean(dict(dtstart=Z(i["dtstart"]), duration=i["duration"], report_payload=clean(dict(r_id=T(i["r_id"]), value=float(i["value"]), confidence=i["confidence"], accuracy=i["accuracy"], data_quality=T(ql))))) for i, ql in zip(ivs, quality)]
        pls.append(pl); els.append(el); pds.append(p)
    pl = dict(request_id=q, reports=pls)
    if v is not None or fl(r): pl["ven_id"] = v
    return pl, oadr.update_report(q, v, els), clean(dict(request_id=R(q), reports=pds, ven_id=T(v)))
def update_report_rich(r):
    """Forms the library itself doesn't write: several values in an interval, resource states, intervals without a time. Returns element, expected parse."""
    els, pds = [], []
    for _ in range(r.choice([1, 1, 2])):
        q, s, st = rid(r), rid(r), r.choice([None, gen.when(r)])
        gs, iv = [], []
        for _ in range(r.choice([1, 1, 2, 5])):
            t, d = r.choice([None, gen.when(r)]), r.choice([None, gen.dur(r), S(0)])
            ps, ex = [], []
            for _ in range(r.choice([1, 2, 3])):
                i = rid(r)
                if fl(r):
                    on, mo = fl(r), fl(r)
                    x = dict(online=str(on).lower(), manual=str(mo).lower()); e = dict(online=on, manual_override=mo)
                    if fl(r):
                        x["state"], e["load_control_state"] = {}, {}
                        for k, n in (("Capacity", "capacity"), ("LevelOffset", "level_offset"), ("PercentOffset", "percent_offset"), ("SetPoint", "set_point")):
                            if fl(r):
                                vs = {w: round(r.uniform(-50, 50), 3) for w in ("Min", "Max", "Current", "Normal") if w == "Current" or fl(r)}
                                x["state"][k] = {w: repr(v) for w, v in vs.items()}; e["load_control_state"][n] = {w.lower(): v for w, v in vs.items()}
                        if not e["load_control_state"]: e["load_control_state"] = None
                    ps.append((i, x)); ex.append(dict(r_id=T(i), payload_resource_status=clean(e)))
                else:
                    v = gen.num(r); ps.append((i, repr(float(v)))); ex.append(dict(r_id=T(i), value=float(v)))
            gs.append((t, d, ps))
            p = dict(report_payload=ex if len(ex) > 1 else ex[0])
            if t: p["dtstart"] = Z(t)
            if d is not None: p["duration"] = d
            iv.append(p)
        els.append(oadr.report_groups(q, s, gs, start=st))
        p = dict(report_id="rep", report_specifier_id=T(s), report_name="TELEMETRY_USAGE", report_request_id=R(q), created_date_time=oadr.NOW, intervals=iv)
        if st: p["dtstart"] = Z(st)
        pds.append(p)
    return oadr.update_report("q", "v", els), dict(request_id="q", reports=pds, ven_id="v")
def _pending(tag):
    def f(r, o):
        x, ex, px = resp(r); v = r.choice([None, wtext(r)]); ids = [rid(r) for _ in range(r.choice([0, 1, 1, 2, 5]))]
        return dict(response=x, pending_reports=[{"report_request_id": i} for i in ids], ven_id=v), M(tag, ex, oadr.pending(ids), opt("ei:venID", v)), clean(dict(response=px, pending_reports=[{"report_request_id": T(i)} for i in ids], ven_id=T(v)))
    return f
def response(r, o):
    x, ex, px = resp(r); v = r.choice([None, wtext(r)])
    return dict(response=x, ven_id=v), M("oadrResponse", ex, opt("ei:venID", v)), clean(dict(response=px, ven_id=T(v)))
def create_opt(r, o):
    d = dict(opt_id=rid(r), opt_type=r.choice(["optIn", "optOut"]), opt_reason=r.choice(["economic", "mustRun", "x-own & reason"]), market_context=r.choice([None, "http://mc/x?a=1&b=2"]), ven_id=wtext(r), created_date_time=gen.when(r), request_id=rid(r))
    ts = targets(r, r.choice([0, 1, 1, 2, 5]))
    comps = [(gen.when(r), gen.dur(r)) for _ in range(r.choice([1, 1, 2, 4]))] if fl(r) else None
    ev = None if comps else (rid(r), r.randrange(9))
    mrid = r.choice([None, "EVSE", "x-own & kind"])
    pl = dict(clean(d), targets=[o.Target(**t) for t in t_list(ts)] if o and fl(r) else t_list(ts))
    if comps: pl["vavailability"] = o.Vavailability([o.VavailabilityComponent(a, b) for a, b in comps]) if o and fl(r) else {"components": [dict(dtstart=a, duration=b) for a, b in comps]}
    if ev: pl["event_id"], pl["modification_number"] = ev
    if mrid: pl["signal_target_mrid"] = mrid
    el = M("oadrCreateOpt", E("ei:optID", d["opt_id"]), E("ei:optType", d["opt_type"]), E("ei:optReason", d["opt_reason"]), opt("emix:marketContext", d["market_context"]), E("ei:venID", d["ven_id"]),
           E("xcal:vavailability", E("xcal:components", *[E("xcal:available", E("xcal:properties", oadr.dts("xcal:dtstart", a), oadr.durs("xcal:duration", b))) for a, b in comps])) if comps else None,
           E("ei:createdDateTime", oadr.fmt_dt(d["created_date_time"])), E("pyld:requestID", d["request_id"]), E("ei:qualifiedEventID", E("ei:eventID", ev[0]), E("ei:modificationNumber", ev[1])) if ev else None, oadr.target("ei:eiTarget", ts),
           E("oadr:oadrDeviceClass", E("power:endDeviceAsset", E("power:mrid", mrid))) if mrid else None)
    p = clean(dict(d, opt_id=T(d["opt_id"]), ven_id=T(d["ven_id"]), created_date_time=Z(d["created_date_time"]), request_id=R(d["request_id"])))
    tl, by = t_parsed(ts)
    p["targets"], p["targets_by_type"] = tl, by
    if ev: p["event_id"], p["modification_number"] = T(ev[0]), ev[1]
    if mrid: p["device_class"] = {"end_device_asset": {"mrid": mrid}}
    if comps:
        cs = [{"properties": dict(dtstart=Z(a), duration=b)} for a, b in comps]
        p["vavailability"] = {"components": {"available": cs if len(cs) > 1 else {"dtstart": cs[0]["properties"]["dtstart"], "duration": cs[0]["properties"]["duration"]}}}
    return pl, el, p
def cancel_opt(r, o):
    q, v, i = rid(r), wtext(r), rid(r); return dict(request_id=q, opt_id=i, ven_id=v), oadr.cancel_opt(q, v, i), dict(request_id=R(q), opt_id=T(i), ven_id=T(v))
def _opt_answer(tag):
    def f(r, o):
        x, ex, px = resp(r); i = rid(r); return dict(response=x, opt_id=i), M(tag, ex, E("ei:optID", i)), dict(response=px, opt_id=T(i))
    return f
def request_reregistration(r, o):
    v = wtext(r); return dict(ven_id=v), oadr.request_reregistration(v), dict(ven_id=T(v))
def created_party_registration(r, o):
    x, ex, px = resp(r)
    g, v, vtn = r.choice([None, rid(r), rid(r)]), r.choice([None, wtext(r), wtext(r)]), wtext(r)
    prof = [(n, r.sample(["simpleHttp", "xmpp"], r.choice([1, 1, 2]))) for n in r.choice([["2.0b"], ["2.0a", "2.0b"], ["2.0b", "2.0a"]])]
    fr = r.choice([None, gen.dur(r), S(10)])
    pl = dict(response=x, registration_id=g, ven_id=v, vtn_id=vtn, profiles=[dict(profile_name=n, transports=[dict(transport_name=t) for t in ts]) for n, ts in prof], requested_oadr_poll_freq=fr)
    el = M("oadrCreatedPartyRegistration", ex, E("ei:registrationID", g), E("ei:venID", v), E("ei:vtnID", vtn), E("oadr:oadrProfiles", *[E("oadr:oadrProfile", E("oadr:oadrProfileName", n), E("oadr:oadrTransports", *[E("oadr:oadrTransport", E("oadr:oadrTransportName", t)) for t in ts])) for n, ts in prof]), oadr.durs("oadr:oadrRequestedOadrPollFreq", fr))
    p = dict(response=px, registration_id=T(g), ven_id=T(v), vtn_id=T(vtn), profiles=copy.deepcopy(pl["profiles"]))
    if fr is not None: p["requested_oadr_poll_freq"] = fr
    return pl, el, p
def _requests(r, o, lo=0):
    pls, els, pds = [], [], []
    for _ in range(max(lo, r.choice([0, 1, 1, 2, 4]))):
        i, sp, gr, bk = rid(r), rid(r), gen.dur(r), gen.dur(r)
        st, du = r.choice([None, gen.when(r)]), r.choice([gen.dur(r), S(0)])
        ps = [(rid(r), r.choice(["Direct Read", "Mean", "x-mine & yours"])) for _ in range(r.choice([1, 1, 2, 5]))]
        spec = dict(report_specifier_id=sp, granularity=gr, specifier_payloads=[dict(r_id=a, reading_type=b) for a, b in ps])
        if bk is not None or fl(r): spec["report_back_duration"] = bk
        if st is not None or fl(r): spec["report_interval"] = dict(dtstart=st, duration=du) if st else None
        pl = dict(report_request_id=i, report_specifier=spec)
        if o and fl(r): pl = o.ReportRequest(report_request_id=i, report_specifier=o.ReportSpecifier(report_specifier_id=sp, granularity=gr, specifier_payloads=[o.SpecifierPayload(a, b) for a, b in ps], report_back_duration=bk, report_interval=o.Interval(st, du, None) if st else None))
        el = E("oadr:oadrReportRequest", E("ei:reportRequestID", i), E("ei:reportSpecifier", E("ei:reportSpecifierID", sp), oadr.durs("xcal:granularity", gr), oadr.durs("ei:reportBackDuration", bk),
               E("ei:reportInterval", E("xcal:properties", oadr.dts("xcal:dtstart", st), oadr.durs("xcal:duration", du))) if st else None, *[E("ei:specifierPayload", E("ei:rID", a), E("ei:readingType", b)) for a, b in ps]))
        s = clean(dict(report_specifier_id=T(sp), granularity=gr, report_back_duration=bk, specifier_payloads=[dict(r_id=T(a), reading_type=b) for a, b in ps]))
        if st: s["report_interval"] = dict(dtstart=Z(st), duration=du)
        pls.append(pl); els.append(el); pds.append(dict(report_request_id=R(i), report_specifier=s))
    return pls, els, pds
def registered_report(r, o):
    x, ex, px = resp(r); v = r.choice([None, wtext(r)])
    pls, els, pds = _requests(r, o)
    p = clean(dict(response=px, ven_id=T(v)))
    if pds: p["report_requests"] = pds
    return dict(response=x, report_requests=pls, ven_id=v), M("oadrRegisteredReport", ex, *els, opt("ei:venID", v)), p
def create_report(r, o):
    q, v = rid(r), wtext(r)
    pls, els, pds = _requests(r, o, 1)
    return dict(request_id=q, report_requests=pls, ven_id=v), M("oadrCreateReport", E("pyld:requestID", q), *els, E("ei:venID", v)), dict(request_id=R(q), report_requests=pds, ven_id=T(v))
def cancel_report(r, o):
    q, i, f, v = rid(r), rid(r), fl(r), wtext(r)
    return dict(request_id=q, report_request_id=i, report_to_follow=f, ven_id=v), oadr.cancel_report(q, [i], f, v), dict(request_id=R(q), report_request_id=R(i), report_to_follow=f, ven_id=T(v))
def updated_report(r, o):
    x, ex, px = resp(r); v = r.choice([None, wtext(r)])
    pl, p = dict(response=x, ven_id=v), clean(dict(response=px, ven_id=T(v)))
    el = [ex]
    if fl(r):
        q, ids, f, cv = rid(r), [rid(r) for _ in range(r.choice([1, 2, 3]))], fl(r), r.choice([None, wtext(r)])
        pl["cancel_report"] = dict(request_id=q, report_request_id=ids, report_to_follow=f)
        if cv: pl["cancel_report"]["ven_id"] = cv
        el.append(E("oadr:oadrCancelReport", *oadr.cancel_report_el(q, ids, f, cv)))
        p["cancel_report"] = clean(dict(request_id=R(q), report_request_id=[R(i) for i in ids] if len(ids) > 1 else R(ids[0]), report_to_follow=f, ven_id=T(cv)))
    return pl, M("oadrUpdatedReport", *el, opt("ei:venID", v)), p
def event(r, o):
    start = gen.when(r)
    total = S(r.choice([60, 600, 3600, 7200, 90000]))
    sigs, spl, spd = [], [], []
    for k in range(r.choice([1, 1, 2, 3])):
        n = r.choice([1, 1, 2, 3, 6]); each = [total // n] * n; t, ivs = start, []
        sec = int(total.total_seconds()); cut = sorted(r.sample(range(1, sec), n - 1)); each = [S(b - a) for a, b in zip([0] + cut, cut + [sec])]
        for d in each: ivs.append((t, d, gen.num(r))); t += d
        m = r.choice([None, measurement(r), measurement(r)])
        name = r.choice(["ELECTRICITY_PRICE", "LOAD_CONTROL", "BID_PRICE", "x-own & signal", "SIMPLE", "LOAD_DISPATCH"])
        if name == "SIMPLE": ivs = [(a, b, r.choice([0, 1, 2, 3, 1.0])) for a, b, _ in ivs]; m = None
        sid, ty, cv = rid(r), r.choice(["price", "level", "setpoint", "delta", "multiplier", "x-loadControlCapacity"]), r.choice([None, gen.num(r), 0])
        if name == "SIMPLE": cv = 0
        mr = r.choice([[], [], ["EVSE"], ["Pool_Pump", "x & y"]])
        # intervals of a signal may leave out their start or give their duration only
        sigs.append(dict(name=name, type=ty, id=sid, measurement=m, current=cv, intervals=ivs, mrids=mr))
        spd.append(clean(dict(signal_name=name, signal_type=ty, signal_id=T(sid), measurement=m_parsed(m), current_value=None if cv is None else float(cv), intervals=[dict(dtstart=Z(a), duration=b, uid=j, signal_payload=float(v)) for j, (a, b, v) in enumerate(ivs)])))
        if mr: spd[-1]["targets"] = [{"end_device_asset": {"mrid": x}} for x in mr]; spd[-1]["targets_by_type"] = {"end_device_asset": [{"mrid": x} for x in mr]}
    ts = targets(r, r.choice([1, 1, 2, 3, 6]))
    d = dict(event_id=rid(r), mod=r.randrange(99), status=r.choice(["none", "far", "near", "active", "completed", "cancelled"]), market_context=r.choice(["http://mc/1", "oadr://x.y?a=1&b=2"]), created=gen.when(r), priority=r.choice([None, 0, 1, 5]), test=r.choice([None, True, False]), comment=r.choice([None, wtext(r)]),
             modified=r.choice([None, gen.when(r)]), reason=r.choice([None, wtext(r)]), start=start, duration=total, tolerance=r.choice([None, gen.dur(r), timedelta(0)]), notification=r.choice([None, gen.dur(r), timedelta(0)]), ramp_up=r.choice([None, gen.dur(r), timedelta(0)]), recovery=r.choice([None, gen.dur(r), timedelta(0)]), response=r.choice(["always", "never"]))
    el = oadr.event(dict(d, signals=sigs, targets=ts, test=None if d["test"] is None else str(d["test"]).lower()))
    if d["reason"] is not None:
        ed = el[0][0]; at = 3 if d["modified"] else 2
        ed.insert(at, E("ei:modificationReason", d["reason"]))
    for x, s in zip(el[0][2], sigs):
        if s["mrids"]: x.insert(1, E("ei:eiTarget", *[E("power:endDeviceAsset", E("power:mrid", m)) for m in s["mrids"]]))
    desc = clean(dict(event_id=d["event_id"], modification_number=d["mod"], market_context=d["market_context"], event_status=d["status"], created_date_time=d["created"], modification_date_time=d["modified"], test_event=d["test"], vtn_comment=d["comment"], modification_reason=d["reason"]))
    if d["priority"] is not None or fl(r): desc["priority"] = d["priority"]
    ap = clean(dict(dtstart=start, duration=total, tolerance={"startafter": d["tolerance"]} if d["tolerance"] is not None else None, notification_period=None, ramp_up_period=d["ramp_up"], recovery_period=d["recovery"]))
    if d["notification"] is not None: ap["notification_period"] = d["notification"]
    spl = []
    for s in sigs:
        x = dict(signal_name=s["name"], signal_type=s["type"], signal_id=s["id"], intervals=[dict(dtstart=a, duration=b, signal_payload=v) for a, b, v in s["intervals"]])
        if s["measurement"] or fl(r): x["measurement"] = m_payload(r, s["measurement"])
        if s["current"] is not None: x["current_value"] = s["current"]
        if s["mrids"]: x["targets"] = [{"end_device_asset": {"mrid": m}} for m in s["mrids"]]
        spl.append(x)
    pl = dict(event_descriptor=desc, active_period=ap, event_signals=spl, targets=t_list(ts), response_required=d["response"])
    c = r.random()
    if o and c < .4 and d["reason"] is None and d["modified"] is not None and d["test"] is not None and d["status"] == "cancelled":
        pl = o.Event(event_descriptor=o.EventDescriptor(**dict(desc, priority=d["priority"])), active_period=o.ActivePeriod(**ap), response_required=d["response"], targets=[o.Target(**t) for t in t_list(ts)],
                     event_signals=[o.EventSignal(intervals=[o.Interval(a, b, v) for a, b, v in s["intervals"]], signal_name=s["name"], signal_type=s["type"], signal_id=s["id"], current_value=s["current"], measurement=m_payload(r, s["measurement"], o), targets=[o.Target(end_device_asset=o.EndDeviceAsset(mrid=m)) for m in s["mrids"]] or None) for s in sigs])
    elif c > .9:
        by = {}
        for k, v in ts: by.setdefault(k, []).append(v)
        pl["targets_by_type"] = by
        if fl(r): del pl["targets"]
    tl, tby = t_parsed(ts)
    pd = dict(event_descriptor=clean(dict(event_id=T(d["event_id"]), modification_number=d["mod"], market_context=d["market_context"], event_status=d["status"], created_date_time=Z(d["created"]), modification_date_time=Z(d["modified"]), priority=d["priority"], test_event=d["test"], vtn_comment=T(d["comment"]), modification_reason=T(d["reason"]))),
              active_period=clean(dict(dtstart=Z(start), duration=total, tolerance={"tolerate": {"startafter": d["tolerance"]}} if d["tolerance"] is not None else None, notification=d["notification"], ramp_up=d["ramp_up"], recovery=d["recovery"])),
              event_signals=spd, targets=tl, targets_by_type=tby, response_required=d["response"])
    return pl, el, pd
def distribute_event(r, o):
    x, ex, px = resp(r) if fl(r) else (None, None, None)
    q, vtn = rid(r), wtext(r)
    es = [event(r, o) for _ in range(r.choice([0, 1, 1, 2, 4]))]
    p = clean(dict(response=px, request_id=R(q), vtn_id=T(vtn)))
    if es: p["events"] = [e[2] for e in es]
    return dict(response=x, request_id=q, vtn_id=vtn, events=[e[0] for e in es]), M("oadrDistributeEvent", ex, E("pyld:requestID", q), E("ei:vtnID", vtn), *[e[1] for e in es]), p

TYPES = {"oadrPoll": poll, "oadrRequestEvent": request_event, "oadrCreatedEvent": created_event, "oadrQueryRegistration": query_registration, "oadrCreatePartyRegistration": create_party_registration, "oadrCancelPartyRegistration": cancel_party_registration,
         "oadrCanceledPartyRegistration": canceled_party_registration, "oadrRegisterReport": register_report, "oadrUpdateReport": update_report, "oadrCreatedReport": _pending("oadrCreatedReport"), "oadrCanceledReport": _pending("oadrCanceledReport"), "oadrResponse": response,
         "oadrCreateOpt": create_opt, "oadrCancelOpt": cancel_opt, "oadrCreatedOpt": _opt_answer("oadrCreatedOpt"), "oadrCanceledOpt": _opt_answer("oadrCanceledOpt"), "oadrRequestReregistration": request_reregistration, "oadrCreatedPartyRegistration": created_party_registration,
         "oadrRegisteredReport": registered_report, "oadrCreateReport": create_report, "oadrCancelReport": cancel_report, "oadrUpdatedReport": updated_report, "oadrDistributeEvent": distribute_event}

# ---- comparison of messages
import wire
DT = {"date-time", "createdDateTime", "modificationDateTime"}
DU = {"duration", "startafter", "oadrMinPeriod", "oadrMaxPeriod"}
NU = {"value", "hertz", "voltage", "pulseFactor", "accuracy", "confidence", "modificationNumber", "priority", "replyLimit", "responseCode"}
def canon(el):
    """(qualified name, content): content is a value for an element without children, else the list of its children."""
    ks = [k for k in el if isinstance(k.tag, str)]
    n = wire.local(el)
    if ks: return el.tag, [canon(k) for k in ks]
    t = "".join(x for x in el.itertext())
    if n in DT: return el.tag, wire.dt(t)
    if n in DU: return el.tag, wire.dur(t)
    if n in NU and t: return el.tag, float(t)
    return el.tag, t
def first_diff(a, b, path=""):
    if a[0] != b[0]: return f"{path}: element {a[0].rsplit('}')[-1]} instead of {b[0].rsplit('}')[-1]}"
    p = path + "/" + a[0].rsplit("}")[-1]
    x, y = a[1], b[1]
    if isinstance(x, list) and isinstance(y, list):
        for i, j in zip(x, y):
            d = first_diff(i, j, p)
            if d: return d
        if len(x) != len(y): return f"{p}: children {[i[0].rsplit('}')[-1] for i in x]} instead of {[i[0].rsplit('}')[-1] for i in y]}"
        return None
    if x == [] or y == []: x, y = x or "", y or ""
    return None if x == y and type(x) == type(y) else f"{p}: {x!r} instead of {y!r}"
