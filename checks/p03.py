"""P03: durations and times survive encoding and decoding."""
import re
from datetime import datetime, timedelta, timezone
import gen, wire
ID = "P03"
CASES = {"quick": 2400, "thorough": 24000}
RULE = ("each case draws 40 durations, duration texts, times, time texts and non-durations and puts them through the codec functions "
        "and through whole messages (registration poll frequency, events, report requests, report values); "
        "oracle: own RFC5545/ISO8601 reader; signature = the shapes (fields present, sign, magnitude class, offset) drawn")
ASSUME = ["a year counts as 365 days and a month as 30, as documented", "durations on the wire have a resolution of one second"]
REQUIRED = ["duration_roundtrips", "duration_texts", "datetime_roundtrips", "datetime_texts", "refusals", "wire_messages"]
UTC = timezone.utc

def setup():
    global utils, create_message, parse_message
    from openleadr import utils
    from openleadr.messaging import create_message, parse_message

def rdur(r):
    c = r.random()
    if c < .15:
        return timedelta(seconds=r.choice([0, 1, 59, 60, 61, 3599, 3600, 3601, 86399, 86400, 86401, 90000, 604800, 694861, 31536000]))
    if c < .25:
        return timedelta(days=r.randrange(0, 400))
    d = timedelta(seconds=r.randrange(0, r.choice([100, 4000, 100000, 10 ** 7, 10 ** 9])))
    return -d if r.random() < .25 else d

def dtext(r):
    """(text, timedelta): a duration text valid in OpenADR."""
    if r.random() < .12:
        w = r.randrange(0, 60)
        return r.choice(["{}W", "P{}W", "+P{}W"]).format(w), timedelta(weeks=w)
    vals = {k: (r.choice([0, 1, 5, 12, 30, 45, 60, 90, 100, 1000]) if r.random() < p else None)
            for k, p in (("Y", .1), ("Mo", .12), ("D", .4), ("H", .5), ("M", .5), ("S", .5))}
    date = "".join(f"{vals[k]}{k[0]}" for k in ("Y", "Mo", "D") if vals[k] is not None)
    tm = "".join(f"{vals[k]}{k}" for k in ("H", "M", "S") if vals[k] is not None)
    if r.random() < .1:
        tm = re.sub(r"(\d+)", lambda m: m.group(1).zfill(3), tm)
    sign = r.choice(["", "", "", "+", "-"])
    t = timedelta(days=365 * (vals["Y"] or 0) + 30 * (vals["Mo"] or 0) + (vals["D"] or 0), hours=vals["H"] or 0,
                  minutes=vals["M"] or 0, seconds=vals["S"] or 0)
    if not date and not tm:
        return sign + r.choice(["P", "PT", "PT0S", "P0D"]), timedelta(0)
    return f"{sign}P{date}" + (f"T{tm}" if tm else ""), (-t if sign == "-" else t)

BAD = ["", "X", "1H", "PX", "P1X", "PT1H garbage", "P1D PT1H", "--PT1H", "P-1D", "PT-5M", "P-1DT23H", "PT1H30", "1 hour", "PT1.5.2S", "W", "P1DT1X", "PT5M\nPT1H", "T1H", "P 1D", "5WD", "PTT1H", "P1S2H3", "PT1H2H"]

def case(c):
    r = c.rng
    shapes = []
    for _ in range(10):
        d = rdur(r)
        s = utils.timedeltaformat(d)
        c.count("duration_roundtrips")
        shapes.append(re.sub(r"\d+", "n", s))
        try:
            w = wire.dur(s)
        except Exception:
            w = f"invalid text {s!r}"
        c.check(w == d, "duration-encoding" + ("-negative" if d < timedelta(0) else ""), f"{d!r} encoded as {s!r}, which denotes {w!r}")
        try:
            back = utils.parse_duration(s)
        except ValueError as e:
            back = e
        c.check(back == d, "duration-roundtrip" + ("-negative" if d < timedelta(0) else ""), f"{d!r} -> {s!r} -> {back!r}")
    for _ in range(10):
        s, d = dtext(r)
        c.count("duration_texts")
        shapes.append(re.sub(r"\d+", "n", s))
        try:
            back = utils.parse_duration(s)
        except ValueError as e:
            back = e
        c.check(back == d, "duration-decoding", f"{s!r} decoded as {back!r}, denotes {d!r}")
    for _ in range(3):
        s = r.choice(BAD)
        c.count("refusals")
        try:
            back = utils.parse_duration(s)
            c.fail("duration-garbage-accepted", f"{s!r} decoded as {back!r}")
        except ValueError:
            pass
    for _ in range(8):
        t = gen.when(r, datetime(r.choice([1970, 1999, 2000, 2024, 2027, 2100, 9000]), r.randrange(1, 13), r.randrange(1, 28), tzinfo=UTC), 10 ** 7)
        s = utils.datetimeformat(t)
        c.count("datetime_roundtrips")
        shapes.append(str(t.utcoffset()))
        try:
            w = wire.dt(s)
        except Exception:
            w = f"invalid text {s!r}"
        c.check(w == t, "datetime-encoding", f"{t!r} encoded as {s!r}")
        back = utils.parse_datetime(s)
        c.check(isinstance(back, datetime) and back == t and back.tzinfo is not None, "datetime-roundtrip", f"{t!r} -> {s!r} -> {back!r}")
    for _ in range(8):
        t = gen.when(r).astimezone(UTC).replace(microsecond=0)
        frac = r.choice(["", ".", ".0", ".5", ".05", ".000001", ".123456", ".1234567", ".999999999", ".120", "." + str(r.randrange(10 ** 9))])
        us = int((frac[1:] + "000000")[:6])
        s = t.strftime("%Y-%m-%dT%H:%M:%S") + frac + "Z"
        c.count("datetime_texts")
        back = utils.parse_datetime(s)
        c.check(isinstance(back, datetime) and back == t + timedelta(microseconds=us) and back.utcoffset() == timedelta(0),
                "datetime-decoding", f"{s!r} decoded as {back!r}")
    # through whole messages
    for _ in range(2):
        d = abs(rdur(r))
        m = create_message("oadrCreatedPartyRegistration", response={"response_code": 200, "response_description": "OK", "request_id": "r"},
                           registration_id="reg", ven_id="ven", vtn_id="VTN", profiles=[{"profile_name": "2.0b", "transports": [{"transport_name": "simpleHttp"}]}],
                           requested_oadr_poll_freq=d)
        bad = wire.invalid(m)
        c.check(bad is None, "wire-invalid", bad)
        mt, p = parse_message(m)
        c.check(p.get("requested_oadr_poll_freq") == d, "wire-poll-frequency", f"{d!r} came back as {p.get('requested_oadr_poll_freq')!r}")
        g, b = abs(rdur(r)), abs(rdur(r))
        st, pd = gen.when(r), abs(rdur(r))
        m = create_message("oadrCreateReport", request_id="q", ven_id="v", report_requests=[
            {"report_request_id": "rr", "report_specifier": {"report_specifier_id": "s", "granularity": g, "report_back_duration": b,
             "report_interval": {"dtstart": st, "duration": pd},
             "specifier_payloads": [{"r_id": "r", "reading_type": "Direct Read"}]}}])
        mt, p = parse_message(m)
        s = p["report_requests"][0]["report_specifier"]
        got = (s.get("granularity"), s.get("report_back_duration"), s["report_interval"].get("dtstart") or s["report_interval"].get("properties", {}).get("dtstart"),
               s["report_interval"].get("duration"))
        c.check(got == (g, b, st, pd), "wire-report-request", f"{(g, b, st, pd)!r} came back as {got!r}")
        vals = [(gen.when(r), gen.num(r)) for _ in range(3)]
        m = create_message("oadrUpdateReport", request_id="q", ven_id="v", reports=[
            {"report_request_id": "rr", "report_specifier_id": "s", "report_name": "TELEMETRY_USAGE", "created_date_time": gen.when(r), "dtstart": vals[0][0],
             "report_id": "x", "intervals": [{"dtstart": a, "duration": d, "report_payload": {"r_id": "k", "value": v}} for a, v in vals]}])
        mt, p = parse_message(m)
        iv = p["reports"][0]["intervals"]
        got = [(i.get("dtstart"), i.get("duration"), i["report_payload"]["value"]) for i in iv]
        c.check(got == [(a, d, float(v)) for a, v in vals], "wire-report-values", f"{vals!r} {d!r} came back as {got!r}")
        c.count("wire_messages", 3)
    c.sig(sorted(set(shapes)))
    c.sample({"durations": shapes[:6]})
