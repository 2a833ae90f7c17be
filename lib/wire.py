"""Independent reader of OpenADR 2.0b messages and reference schema validation (own copy of the XSDs)."""
import os, re
from datetime import datetime, timedelta, timezone
from lxml import etree

HERE = os.path.dirname(os.path.abspath(__file__))
_schema = None
def schema():
    global _schema
    if _schema is None:
        _schema = etree.XMLSchema(etree.parse(os.path.join(HERE, "schema", "oadr_20b.xsd")))
    return _schema

def _parser():
    return etree.XMLParser(resolve_entities=False, no_network=True, huge_tree=False, remove_comments=False)

def parse(body):
    if isinstance(body, str):
        body = body.encode("utf-8")
    try:
        return etree.fromstring(body, _parser())
    except etree.XMLSyntaxError as e:
        if "is not a valid URI" not in str(e):
            raise
        # Namespace names need not be checked for being URIs; only this error is overlooked.
        p = etree.XMLParser(resolve_entities=False, no_network=True, huge_tree=False, remove_comments=False, recover=True)
        t = etree.fromstring(body, p)
        if t is None or any("is not a valid URI" not in x.message for x in p.error_log):
            raise
        return t

def invalid(body):
    """None if the bytes are a schema-valid oadrPayload, else the reason."""
    try:
        t = parse(body)
    except etree.XMLSyntaxError as e:
        return f"not well-formed: {e}"
    try:
        ok = schema().validate(t)
    except etree.XMLSchemaError as e:
        return f"not schema-valid: {e}"
    if not ok:
        return f"not schema-valid: {schema().error_log.last_error}"
    if local(t) != "oadrPayload":
        return f"root is {local(t)}"
    return None

def local(el):
    return el.tag.rsplit("}", 1)[-1]

def kids(el, *names):
    return [k for k in el if isinstance(k.tag, str) and (not names or local(k) in names)]

def first(el, *path):
    for p in path:
        if el is None:
            return None
        el = next((k for k in kids(el, p)), None)
    return el

def text(el, *path):
    e = first(el, *path) if path else el
    if e is None:
        return None
    return "".join(e.itertext())

def message(body):
    """(message type, element) of a payload."""
    t = parse(body) if not isinstance(body, etree._Element) else body
    so = first(t, "oadrSignedObject")
    k = kids(so)
    return local(k[-1]), k[-1]

_DUR = re.compile(r"^([+-])?P(?:(\d+)W|(?:(\d+)Y)?(?:(\d+)M)?(?:(\d+)D)?(?:T(?:(\d+)H)?(?:(\d+)M)?(?:(\d+)S)?)?)$")
def dur(s):
    if s is None:
        return None
    m = _DUR.match(s.strip())
    if not m:
        raise ValueError(f"not a duration: {s!r}")
    sg, w, y, mo, d, h, mi, se = m.groups()
    t = timedelta(weeks=int(w or 0), days=int(y or 0) * 365 + int(mo or 0) * 30 + int(d or 0),
                  hours=int(h or 0), minutes=int(mi or 0), seconds=int(se or 0))
    return -t if sg == "-" else t

def dt(s):
    if s is None:
        return None
    m = re.match(r"^(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(?:\.(\d+))?Z$", s.strip())
    if not m:
        raise ValueError(f"not a UTC time: {s!r}")
    us = int(((m.group(7) or "") + "000000")[:6])
    return datetime(*map(int, m.groups()[:6]), us, tzinfo=timezone.utc)

def fnum(s):
    return None if s is None else float(s)

TARGET = {"groupID": "group_id", "groupName": "group_name", "resourceID": "resource_id", "venID": "ven_id", "partyID": "party_id"}

def targets(el):
    """[(type, value)] in document order of an EiTargetType element."""
    if el is None:
        return None
    res = []
    for k in kids(el):
        n = local(k)
        res.append((TARGET.get(n, n), text(k).strip() if n in TARGET else etree.tostring(k)))
    return res

def measurement(el):
    """Reads an item base (power:, oadr: ...) out of a signal or report description."""
    for k in kids(el):
        d = first(k, "itemDescription")
        if d is not None:
            pa = first(k, "powerAttributes")
            return {"name": local(k), "description": text(k, "itemDescription"), "unit": text(k, "itemUnits"),
                    "scale": text(k, "siScaleCode"), "pulse_factor": text(k, "pulseFactor"),
                    "power": None if pa is None else (float(text(pa, "hertz")), float(text(pa, "voltage")), text(pa, "ac"))}
    return None

def read_event(oe):
    ev = first(oe, "eiEvent")
    d = first(ev, "eventDescriptor")
    p = first(ev, "eiActivePeriod", "properties")
    r = {"event_id": text(d, "eventID"), "modification_number": int(text(d, "modificationNumber")),
         "priority": int(text(d, "priority")) if first(d, "priority") is not None else None,
         "market_context": text(d, "eiMarketContext", "marketContext"),
         "created": dt(text(d, "createdDateTime")), "status": text(d, "eventStatus"),
         "modified": dt(text(d, "modificationDateTime")),
         "test_event": text(d, "testEvent"), "comment": text(d, "vtnComment"),
         "start": dt(text(p, "dtstart", "date-time")), "duration": dur(text(p, "duration", "duration")),
         "tolerance": dur(text(p, "tolerance", "tolerate", "startafter")),
         "notification": dur(text(p, "x-eiNotification", "duration")),
         "ramp_up": dur(text(p, "x-eiRampUp", "duration")),
         "recovery": dur(text(p, "x-eiRecovery", "duration")),
         "response_required": text(oe, "oadrResponseRequired"),
         "targets": targets(first(ev, "eiTarget")), "signals": []}
    for s in kids(first(ev, "eiEventSignals"), "eiEventSignal"):
        sig = {"name": text(s, "signalName"), "type": text(s, "signalType"), "id": text(s, "signalID"),
               "measurement": measurement(s), "targets": targets(first(s, "eiTarget")),
               "current": fnum(text(s, "currentValue", "payloadFloat", "value")), "intervals": []}
        for i in kids(first(s, "intervals"), "interval"):
            sig["intervals"].append({"start": dt(text(i, "dtstart", "date-time")), "duration": dur(text(i, "duration", "duration")),
                                     "uid": text(i, "uid", "text"), "value": fnum(text(i, "signalPayload", "payloadFloat", "value"))})
        r["signals"].append(sig)
    return r

def events(body):
    mt, el = message(body)
    assert mt == "oadrDistributeEvent", mt
    return [read_event(e) for e in kids(el, "oadrEvent")]

def response(el):
    r = first(el, "eiResponse")
    if r is None:
        return None
    return {"code": int(text(r, "responseCode")), "description": text(r, "responseDescription"), "request_id": text(r, "requestID")}

def created_event(body):
    mt, el = message(body)
    assert mt == "oadrCreatedEvent", mt
    c = first(el, "eiCreatedEvent")
    res = []
    ers = first(c, "eventResponses")
    for e in (kids(ers, "eventResponse") if ers is not None else []):
        res.append({"code": int(text(e, "responseCode")), "request_id": text(e, "requestID"),
                    "event_id": text(e, "qualifiedEventID", "eventID"), "mod": int(text(e, "qualifiedEventID", "modificationNumber")),
                    "opt": text(e, "optType")})
    return {"response": response(c), "ven_id": text(c, "venID"), "items": res}

def report_requests(el):
    res = []
    for r in kids(el, "oadrReportRequest"):
        s = first(r, "reportSpecifier")
        res.append({"id": text(r, "reportRequestID"), "specifier": text(s, "reportSpecifierID"),
                    "granularity": dur(text(s, "granularity", "duration")), "back": dur(text(s, "reportBackDuration", "duration")),
                    "start": dt(text(s, "reportInterval", "properties", "dtstart", "date-time")),
                    "period": dur(text(s, "reportInterval", "properties", "duration", "duration")),
                    "payloads": [(text(p, "rID"), text(p, "readingType")) for p in kids(s, "specifierPayload")]})
    return res

def reports(el):
    res = []
    for r in kids(el, "oadrReport"):
        iv = first(r, "intervals")
        res.append({"specifier": text(r, "reportSpecifierID"), "request": text(r, "reportRequestID"), "name": text(r, "reportName"),
                    "start": dt(text(r, "dtstart", "date-time")), "duration": dur(text(r, "duration", "duration")),
                    "created": dt(text(r, "createdDateTime")),
                    "intervals": [{"start": dt(text(i, "dtstart", "date-time")), "duration": dur(text(i, "duration", "duration")),
                                   "r_id": text(i, "oadrReportPayload", "rID"),
                                   "confidence": text(i, "oadrReportPayload", "confidence"), "accuracy": text(i, "oadrReportPayload", "accuracy"),
                                   "value": fnum(text(i, "oadrReportPayload", "payloadFloat", "value"))}
                                  for i in (kids(iv, "interval") if iv is not None else [])],
                    "descriptions": [{"r_id": text(d, "rID"), "type": text(d, "reportType"), "reading": text(d, "readingType"),
                                      "market_context": text(d, "marketContext"), "measurement": measurement(d),
                                      "subject_mrid": text(d, "reportSubject", "endDeviceAsset", "mrid"),
                                      "source": targets(first(d, "reportDataSource")),
                                      "min": dur(text(d, "oadrSamplingRate", "oadrMinPeriod")), "max": dur(text(d, "oadrSamplingRate", "oadrMaxPeriod")),
                                      "on_change": text(d, "oadrSamplingRate", "oadrOnChange")}
                                     for d in kids(r, "oadrReportDescription")]})
    return res

def request_id(el):
    """The request id a request message carries (None if its type has none)."""
    for name in ("requestID",):
        e = first(el, name)
        if e is not None:
            return text(e)
    for wrap in ("eiRequestEvent", "eiCreatedEvent"):
        e = first(el, wrap)
        if e is not None:
            q = first(e, "requestID")
            if q is not None:
                return text(q)
    return None
