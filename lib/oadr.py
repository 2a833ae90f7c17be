"""Independent writer of OpenADR 2.0b messages (lxml trees), used for scripted peers.
Every builder returns the message element; msg(el) wraps it into a payload and serialises it."""
from datetime import datetime, timedelta, timezone
from lxml import etree
NS = {"oadr": "http://openadr.org/oadr-2.0b/2012/07", "ei": "http://docs.oasis-open.org/ns/energyinterop/201110",
      "pyld": "http://docs.oasis-open.org/ns/energyinterop/201110/payloads", "emix": "http://docs.oasis-open.org/ns/emix/2011/06",
      "xcal": "urn:ietf:params:xml:ns:icalendar-2.0", "strm": "urn:ietf:params:xml:ns:icalendar-2.0:stream",
      "power": "http://docs.oasis-open.org/ns/emix/2011/06/power", "scale": "http://docs.oasis-open.org/ns/emix/2011/06/siscale",
      "ds": "http://www.w3.org/2000/09/xmldsig#", "dsp": "http://openadr.org/oadr-2.0b/2012/07/xmldsig-properties"}

def q(tag):
    p, n = tag.split(":", 1)
    return "{%s}%s" % (NS[p], n)

def E(tag, *children, **attrs):
    el = etree.Element(q(tag), nsmap=NS)
    for k, v in attrs.items():
        el.set(q(k.replace("__", ":")) if "__" in k else k, v)
    for c in children:
        add(el, c)
    return el

def add(el, c):
    if c is None:
        return
    if isinstance(c, (list, tuple)):
        for x in c:
            add(el, x)
    elif isinstance(c, etree._Element):
        el.append(c)
    elif isinstance(c, bool):
        el.text = "true" if c else "false"
    else:
        el.text = str(c)

def opt(tag, v):
    return None if v is None else E(tag, v)

def fmt_dt(d):
    d = d.astimezone(timezone.utc)
    return d.strftime("%Y-%m-%dT%H:%M:%S") + (f".{d.microsecond:06d}" if d.microsecond else "") + "Z"

def fmt_dur(t):
    if isinstance(t, str):
        return t
    s = int(t.total_seconds())
    sign, s = ("-", -s) if s < 0 else ("", s)
    d, s = divmod(s, 86400); h, s = divmod(s, 3600); m, s = divmod(s, 60)
    a = (f"{d}D" if d else "")
    b = (f"{h}H" if h else "") + (f"{m}M" if m else "") + (f"{s}S" if s else "")
    return sign + "P" + a + (("T" + b) if b else "") if (a or b) else "PT0S"

def dts(tag, d):
    return None if d is None else E(tag, E("xcal:date-time", d if isinstance(d, str) else fmt_dt(d)))

def durs(tag, t):
    return None if t is None else E(tag, E("xcal:duration", fmt_dur(t)))

def payload(el):
    p = etree.Element(q("oadr:oadrPayload"), nsmap=NS)
    so = etree.SubElement(p, q("oadr:oadrSignedObject"))
    so.set(q("oadr:Id"), "oadrSignedObject")
    so.append(el)
    return p

def msg(el):
    p = payload(el)
    etree.cleanup_namespaces(p, keep_ns_prefixes=None)
    return etree.tostring(p, xml_declaration=True, encoding="utf-8")

def M(tag, *c):
    return E(f"oadr:{tag}", *c, ei__schemaVersion="2.0b")

def response(code=200, desc="OK", rid="r"):
    return E("ei:eiResponse", E("ei:responseCode", code), opt("ei:responseDescription", desc), E("pyld:requestID", rid if rid is not None else ""))

# ---- VEN -> VTN
def poll(ven): return M("oadrPoll", E("ei:venID", ven))
def request_event(ven, rid, limit=None):
    return M("oadrRequestEvent", E("pyld:eiRequestEvent", E("pyld:requestID", rid), E("ei:venID", ven), opt("pyld:replyLimit", limit)))
def created_event(ven, items, rid="", code=200, desc="OK"):
    """items: (event_id, mod, opt) or (event_id, mod, opt, rid, code)."""
    rs = []
    for it in items:
        eid, mod, o = it[:3]
        r = it[3] if len(it) > 3 else "q"
        cd = it[4] if len(it) > 4 else 200
        rs.append(E("ei:eventResponse", E("ei:responseCode", cd), E("ei:responseDescription", "OK"), E("pyld:requestID", r),
                    E("ei:qualifiedEventID", E("ei:eventID", eid), E("ei:modificationNumber", mod)), E("ei:optType", o)))
    return M("oadrCreatedEvent", E("pyld:eiCreatedEvent", response(code, desc, rid), E("ei:eventResponses", *rs) if items is not None and rs else None, E("ei:venID", ven)))
def query_registration(rid): return M("oadrQueryRegistration", E("pyld:requestID", rid))
def create_party_registration(rid, ven_id=None, ven_name="ven", registration_id=None, profile="2.0b", transport="simpleHttp", address=None,
                              report_only=False, xml_sig=False, pull=True):
    return M("oadrCreatePartyRegistration", E("pyld:requestID", rid), opt("ei:registrationID", registration_id), opt("ei:venID", ven_id),
             E("oadr:oadrProfileName", profile), E("oadr:oadrTransportName", transport), opt("oadr:oadrTransportAddress", address),
             E("oadr:oadrReportOnly", report_only), E("oadr:oadrXmlSignature", xml_sig), opt("oadr:oadrVenName", ven_name), E("oadr:oadrHttpPullModel", pull))
def cancel_party_registration(rid, registration_id, ven):
    return M("oadrCancelPartyRegistration", E("pyld:requestID", rid), E("ei:registrationID", registration_id), opt("ei:venID", ven))
def canceled_party_registration(code, rid, registration_id, ven):
    return M("oadrCanceledPartyRegistration", response(code, "OK", rid), opt("ei:registrationID", registration_id), opt("ei:venID", ven))

POWER = {"powerReal", "powerApparent", "powerReactive"}
MNS = {"energyApparent": "power", "energyReactive": "power", "energyReal": "power", "powerApparent": "power", "powerReactive": "power",
       "powerReal": "power", "voltage": "power"}
def measurement(m):
    """m: dict name, description, unit, scale | pulse_factor, power=(hertz, voltage, ac)"""
    if m is None:
        return None
    n = m["name"]; p = MNS.get(n, "oadr")
    pa = m.get("power")
    return E(f"{p}:{n}", E(f"{p}:itemDescription", m["description"]), E(f"{p}:itemUnits", m["unit"]),
             E("oadr:pulseFactor", m["pulse_factor"]) if m.get("pulse_factor") else E("scale:siScaleCode", m.get("scale") or "none"),
             E("power:powerAttributes", E("power:hertz", pa[0]), E("power:voltage", pa[1]), E("power:ac", bool(pa[2]))) if pa else None)

TTAG = {"group_id": "ei:groupID", "group_name": "ei:groupName", "resource_id": "ei:resourceID", "ven_id": "ei:venID", "party_id": "ei:partyID"}
TORD = list(TTAG)
def target(tag, targets):
    """targets: [(type, value)]"""
    if targets is None:
        return None
    return E(tag, *[E(TTAG[t], v) for t, v in sorted(targets, key=lambda x: TORD.index(x[0]))])

def report_description(d):
    """d: r_id, source [(type,value)], type, measurement, reading, market_context, min, max, on_change"""
    return E("oadr:oadrReportDescription", E("ei:rID", d["r_id"]),
             E("ei:reportSubject", E("power:endDeviceAsset", E("power:mrid", d["mrid"]))) if d.get("mrid") else None,
             target("ei:reportDataSource", d.get("source")), E("ei:reportType", d.get("type", "reading")), measurement(d.get("measurement")),
             E("ei:readingType", d.get("reading", "Direct Read")), opt("emix:marketContext", d.get("market_context")),
             E("oadr:oadrSamplingRate", E("oadr:oadrMinPeriod", fmt_dur(d["min"])), E("oadr:oadrMaxPeriod", fmt_dur(d["max"])),
               E("oadr:oadrOnChange", bool(d.get("on_change")))) if d.get("min") is not None else None)
NOW = datetime(2027, 3, 10, 6, 0, tzinfo=timezone.utc)
def report_offer(specifier, name, descriptions, duration=timedelta(hours=1), request="0", created=None):
    return E("oadr:oadrReport", durs("xcal:duration", duration), *[report_description(d) for d in descriptions],
             E("ei:reportRequestID", request), E("ei:reportSpecifierID", specifier), opt("ei:reportName", name), E("ei:createdDateTime", fmt_dt(created or NOW)))
def register_report(rid, ven, offers):
    return M("oadrRegisterReport", E("pyld:requestID", rid), *offers, opt("ei:venID", ven))
def report_data(request, specifier, values, name="TELEMETRY_USAGE", start=None, created=None, report_id="rep"):
    """values: [(r_id, time, value)]"""
    ivs = [E("ei:interval", dts("xcal:dtstart", t), E("oadr:oadrReportPayload", E("ei:rID", r), E("ei:payloadFloat", E("ei:value", repr(float(v)) if not isinstance(v, str) else v)))) for r, t, v in values]
    return E("oadr:oadrReport", dts("xcal:dtstart", start), E("strm:intervals", *ivs) if ivs else None, E("ei:eiReportID", report_id),
             E("ei:reportRequestID", request), E("ei:reportSpecifierID", specifier), opt("ei:reportName", name), E("ei:createdDateTime", fmt_dt(created or NOW)))
def resource_status(st):
    """st: online, manual, {capacity|levelOffset|percentOffset|setPoint: {min, max, current, normal}} with texts as values"""
    lcs = st.get("state")
    return E("oadr:oadrPayloadResourceStatus", E("oadr:oadrOnline", st["online"]), E("oadr:oadrManualOverride", st["manual"]),
             E("oadr:oadrLoadControlState", *[E(f"oadr:oadr{k}", *[E(f"oadr:oadr{n}", v[n]) for n in ("Min", "Max", "Current", "Normal") if n in v]) for k, v in lcs.items()]) if lcs is not None else None)
def report_groups(request, specifier, groups, name="TELEMETRY_USAGE", start=None, created=None, report_id="rep"):
    """groups: [(time|None, duration|None, [(r_id, text of the value or a dict for resource_status)])]"""
    pay = lambda v: resource_status(v) if isinstance(v, dict) else E("ei:payloadFloat", E("ei:value", v))
    ivs = [E("ei:interval", dts("xcal:dtstart", t), durs("xcal:duration", d), *[E("oadr:oadrReportPayload", E("ei:rID", i), pay(v)) for i, v in ps]) for t, d, ps in groups]
    return E("oadr:oadrReport", dts("xcal:dtstart", start), E("strm:intervals", *ivs) if ivs else None, E("ei:eiReportID", report_id),
             E("ei:reportRequestID", request), E("ei:reportSpecifierID", specifier), opt("ei:reportName", name), E("ei:createdDateTime", fmt_dt(created or NOW)))
def update_report(rid, ven, reports): return M("oadrUpdateReport", E("pyld:requestID", rid), *reports, opt("ei:venID", ven))
def pending(ids): return E("oadr:oadrPendingReports", *[E("ei:reportRequestID", i) for i in ids])
def created_report(rid, ven, ids, code=200): return M("oadrCreatedReport", response(code, "OK", rid), pending(ids), opt("ei:venID", ven))
def canceled_report(rid, ven, ids, code=200): return M("oadrCanceledReport", response(code, "OK", rid), pending(ids), opt("ei:venID", ven))
def registered_report(rid, requests, ven=None, code=200): return M("oadrRegisteredReport", response(code, "OK", rid), *requests, opt("ei:venID", ven))
def oadr_response(code, rid, ven=None, desc="OK"): return M("oadrResponse", response(code, desc, rid), opt("ei:venID", ven))
def create_opt(rid, ven, opt_id, opt_type="optIn", reason="x-r", targets=()):
    return M("oadrCreateOpt", E("ei:optID", opt_id), E("ei:optType", opt_type), E("ei:optReason", reason), E("ei:venID", ven),
             E("ei:createdDateTime", fmt_dt(NOW)), E("pyld:requestID", rid), target("ei:eiTarget", list(targets)))
def cancel_opt(rid, ven, opt_id): return M("oadrCancelOpt", E("pyld:requestID", rid), E("ei:optID", opt_id), E("ei:venID", ven))

# ---- VTN -> VEN
def created_party_registration(rid, ven, reg, vtn="VTN_1", freq=None, code=200, desc="OK", profiles=(("2.0b", ("simpleHttp",)),)):
    return M("oadrCreatedPartyRegistration", response(code, desc, rid), opt("ei:registrationID", reg), opt("ei:venID", ven), E("ei:vtnID", vtn),
             E("oadr:oadrProfiles", *[E("oadr:oadrProfile", E("oadr:oadrProfileName", p), E("oadr:oadrTransports", *[E("oadr:oadrTransport", E("oadr:oadrTransportName", t)) for t in ts])) for p, ts in profiles]),
             durs("oadr:oadrRequestedOadrPollFreq", freq))
def created_opt(rid, opt_id, code=200): return M("oadrCreatedOpt", response(code, "OK", rid), E("ei:optID", opt_id))
def canceled_opt(rid, opt_id, code=200): return M("oadrCanceledOpt", response(code, "OK", rid), E("ei:optID", opt_id))
def request_reregistration(ven): return M("oadrRequestReregistration", E("ei:venID", ven))
def report_request(rrid, specifier, granularity, back, payloads, start=None, period=None):
    """payloads: [(r_id, reading, measurement|None)]"""
    return E("oadr:oadrReportRequest", E("ei:reportRequestID", rrid),
             E("ei:reportSpecifier", E("ei:reportSpecifierID", specifier), durs("xcal:granularity", granularity), durs("ei:reportBackDuration", back),
               E("ei:reportInterval", E("xcal:properties", dts("xcal:dtstart", start), durs("xcal:duration", period or timedelta(0)))) if start is not None else None,
               *[E("ei:specifierPayload", E("ei:rID", p[0]), measurement(p[2] if len(p) > 2 else None), E("ei:readingType", p[1])) for p in payloads]))
def create_report(rid, ven, requests): return M("oadrCreateReport", E("pyld:requestID", rid), *requests, opt("ei:venID", ven))
def cancel_report_el(rid, ids, follow=False, ven=None):
    return [E("pyld:requestID", rid), *[E("ei:reportRequestID", i) for i in ids], E("pyld:reportToFollow", bool(follow)), opt("ei:venID", ven)]
def cancel_report(rid, ids, follow=False, ven=None): return M("oadrCancelReport", *cancel_report_el(rid, ids, follow, ven))
def updated_report(rid, ven=None, cancel=None, code=200):
    return M("oadrUpdatedReport", response(code, "OK", rid), E("oadr:oadrCancelReport", *cancel_report_el(*cancel)) if cancel else None, opt("ei:venID", ven))

def event(e):
    """e: dict event_id, mod, status, market_context, created, priority, test, comment, modified, start, duration, tolerance, notification,
    ramp_up, recovery, signals [{name,type,id,measurement,current,intervals [(start,duration,value)]}], targets [(t,v)], response"""
    desc = E("ei:eventDescriptor", E("ei:eventID", e["event_id"]), E("ei:modificationNumber", e.get("mod", 0)),
             E("ei:modificationDateTime", fmt_dt(e["modified"])) if e.get("modified") else None, opt("ei:priority", e.get("priority")),
             E("ei:eiMarketContext", E("emix:marketContext", e.get("market_context", "http://mc"))), E("ei:createdDateTime", fmt_dt(e.get("created", NOW))),
             E("ei:eventStatus", e.get("status", "far")), opt("ei:testEvent", e.get("test")), opt("ei:vtnComment", e.get("comment")))
    ap = E("ei:eiActivePeriod", E("xcal:properties", dts("xcal:dtstart", e["start"]), durs("xcal:duration", e["duration"]),
           E("xcal:tolerance", E("xcal:tolerate", E("xcal:startafter", fmt_dur(e["tolerance"])))) if e.get("tolerance") is not None else None,
           durs("ei:x-eiNotification", e.get("notification")), durs("ei:x-eiRampUp", e.get("ramp_up")), durs("ei:x-eiRecovery", e.get("recovery"))), E("xcal:components"))
    sigs = []
    for n, s in enumerate(e.get("signals") or [{"intervals": [(e["start"], e["duration"], 1)]}]):
        ivs = [E("ei:interval", dts("xcal:dtstart", a), durs("xcal:duration", d), E("xcal:uid", E("xcal:text", k)),
                 E("ei:signalPayload", E("ei:payloadFloat", E("ei:value", repr(float(v)))))) for k, (a, d, v) in enumerate(s["intervals"])]
        sigs.append(E("ei:eiEventSignal", E("strm:intervals", *ivs), E("ei:signalName", s.get("name", "SIMPLE")), E("ei:signalType", s.get("type", "level")),
                      E("ei:signalID", s.get("id", f"s{n}")), measurement(s.get("measurement")),
                      E("ei:currentValue", E("ei:payloadFloat", E("ei:value", repr(float(s["current"]))))) if s.get("current") is not None else None))
    return E("oadr:oadrEvent", E("ei:eiEvent", desc, ap, E("ei:eiEventSignals", *sigs), target("ei:eiTarget", e.get("targets", [("ven_id", "v")]))),
             E("oadr:oadrResponseRequired", e.get("response", "always")))
def distribute_event(rid, events, vtn="VTN_1", resp=True, code=200):
    return M("oadrDistributeEvent", response(code, "OK", "x") if resp else None, E("pyld:requestID", rid), E("ei:vtnID", vtn), *[event(e) if isinstance(e, dict) else e for e in events])
