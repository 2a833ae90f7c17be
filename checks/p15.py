"""P15: the VEN survives communication faults and recovers."""
import asyncio
from datetime import datetime, timedelta, timezone
import fabric, gen, oadr, script, wire, world
ID = "P15"
CASES = {"quick": 560, "thorough": 12000}
RULE = ("each case runs a real VEN (events and reports) against a real VTN over an in-memory network in virtual time; after registration a fault phase of random length refuses, drops, delays, "
        "duplicates, truncates, corrupts or replaces random answers (each message type separately addressable) while the operator adds and cancels events and loses the registration; then the faults "
        "stop; monitors: unhandled errors of the loop and of scheduled jobs, poll gaps, report arrival, handler runs against what the VTN queued; signature = the sequence of (message type, fault)")
ASSUME = ["an answer that is a valid message with status 200 counts as sent by the VTN", "a report or answer lost on the way is not repeated"]
REQUIRED = ["faults", "polls_after_faults", "changes_recovered", "reports_after_faults", "fault_replace", "fault_mutate", "fault_drop_response", "fault_refuse", "poll_faults", "report_faults", "event_answer_faults"]
UTC = timezone.utc

def fake_event():
    return oadr.msg(oadr.distribute_event("fake", [dict(event_id="FAKE", start=datetime.now(UTC), duration=timedelta(hours=1))], "VTN_1"))

def wrong_type(r, ex):
    return oadr.msg(r.choice([
        lambda: oadr.oadr_response(r.choice([452, 463, 500, 459]), "0", "v", "an error"),
        lambda: oadr.oadr_response(200, "0", None),
        lambda: oadr.created_opt("0", "opt"),
        lambda: oadr.canceled_opt("0", "opt"),
        lambda: oadr.updated_report("0"),
        lambda: oadr.registered_report("0", []),
        lambda: oadr.canceled_report("0", "v", ["nope"]),
        lambda: oadr.created_report("0", "v", ["nope"]),
        lambda: oadr.distribute_event("0", []),
        lambda: oadr.cancel_report("0", ["nope"]),
        lambda: oadr.cancel_report("0", ["nope", "nope2"], True),
        lambda: oadr.create_report("0", "v", [oadr.report_request("rr", "unknown-specifier", timedelta(seconds=10), timedelta(seconds=10), [("r1", "Direct Read")])]),
        lambda: oadr.register_report("0", "v", []),
        lambda: oadr.update_report("0", "v", []),
        lambda: oadr.poll("v"),
        lambda: oadr.request_reregistration("v"),
        lambda: oadr.cancel_party_registration("0", "some-other-registration", "v"),
        lambda: oadr.canceled_party_registration(200, "0", "x", "v"),
        lambda: oadr.created_party_registration("0", None, None, code=500, desc="busy"),
        lambda: oadr.request_event("v", "0"),
    ])())

def corrupt(r):
    def f(st, body):
        k = r.randrange(6)
        if k == 0: return st, body[:r.randrange(len(body) or 1)]
        if k == 1: return st, b""
        if k == 2: return st, body.replace(b"<", b"", 1)
        if k == 3: return st, body + b"<trailing"
        if k == 4: return st, bytes(r.randrange(256) for _ in range(40))
        return r.choice([500, 502, 404, 403, 302, 204]), body
    return f

def case(c):
    r = c.rng
    runs, sent_ids = [], {}
    trace = []
    state = dict(faulty=False, known=True, rep=0)
    async def body(loop):
        net = fabric.Net()
        ven = gen.uid(r, "pn")
        lookup = r.random() < .6
        kw = {}
        if lookup:
            async def ven_lookup(ven_id):
                return {"ven_id": ven, "registration_id": "reg"} if state["known"] else None
            kw["ven_lookup"] = ven_lookup
        freq = timedelta(seconds=r.choice([5, 10, 30]))
        srv = world.server(net, requested_poll_freq=freq, **kw)
        async def on_reg(info):
            state["known"] = True
            return ven, "reg"
        srv.add_handler("on_create_party_registration", on_reg)
        got = []
        async def on_register_report(ven_id, resource_id, measurement, unit, scale, min_sampling_interval, max_sampling_interval):
            return (lambda data: got.extend(data)), timedelta(seconds=10), timedelta(seconds=r.choice([10, 30]))
        srv.add_handler("on_register_report", on_register_report)
        cl = world.client()
        async def meas():
            state["rep"] += 1
            return state["rep"]
        cl.add_report(meas, resource_id="dev", measurement="voltage", unit="V", sampling_rate=timedelta(seconds=10), report_duration=timedelta(hours=1))
        def handler(kind):
            async def f(event):
                d = event["event_descriptor"]
                runs.append((kind, d["event_id"], d["modification_number"], d["event_status"]))
                return r.choice(["optIn", "optOut"])
            return f
        cl.add_handler("on_event", handler("new")); cl.add_handler("on_update_event", handler("update"))
        jobs = []
        script.job_errors(cl, jobs)
        await cl.run()
        c.check(cl.registration_id == "reg", "not-registered", cl.registration_id)
        await asyncio.sleep(r.choice([0, 3, 40]))
        rate = r.choice([.2, .6, 1])
        only = r.choice([None, None, None, "OadrPoll", "EiReport", "EiEvent", "EiRegisterParty"])
        async def faulter(ex):
            if not state["faulty"] or r.random() > rate or (only and ex.service != only):
                return None
            k = r.choice(["refuse", "drop_request", "drop_response", "disconnect", "read_error", "mutate", "mutate", "replace", "replace", "replace", "duplicate"])
            c.count("faults"); c.count(f"fault_{k}")
            c.count({"OadrPoll": "poll_faults", "EiReport": "report_faults", "EiEvent": "event_answer_faults"}.get(ex.service, "registration_faults"))
            try:
                mt = wire.message(ex.req)[0]
            except Exception:
                mt = "?"
            trace.append((mt, k))
            if k == "replace":
                x = r.randrange(6)
                if x == 0: return ("replace", r.choice([500, 404, 403, 302]), fake_event())
                if x == 1: return ("replace", 200, fake_event()[:-r.randrange(1, 400)])
                if x == 2: return ("replace", 200, r.choice([b"", b"<html>gateway</html>", b"\xff\xfe", b"   ", b"<!DOCTYPE x><x/>", b'{"error": 1}', "é".encode("latin-1")]))
                b = wrong_type(r, ex)
                c.note("wrong type", wire.message(b)[0], "to", mt)
                return ("replace", 200, b)
            if k == "mutate":
                return ("mutate", corrupt(r))
            return (k,)
        net.faulter = faulter
        if r.random() < .5:
            net.delayer = lambda ex, ph: r.choice([0, .01, 1, 4]) if state["faulty"] else 0
        evs = {}
        def add():
            eid = gen.uid(r, "pnm")
            srv.add_event(ven_id=ven, event_id=eid, signal_name="SIMPLE", signal_type="level", callback=lambda ven_id, event_id, opt_type: None,
                          intervals=[dict(dtstart=datetime.now(UTC) + timedelta(seconds=r.choice([-5, 100, 5000])), duration=timedelta(days=1), signal_payload=1)])
            evs[eid] = 0
        def cancel():
            live = [e for e, m in evs.items() if m == 0]
            if live:
                e = r.choice(live)
                srv.cancel_event(ven, e)
                evs[e] = 1
        for phase in range(r.choice([1, 1, 2, 3])):
            state["faulty"] = True
            for _ in range(r.choice([3, 10, 25])):
                x = r.random()
                if x < .4: add()
                elif x < .5: cancel()
                elif x < .7 and lookup: state["known"] = False
                await asyncio.sleep(r.choice([.5, 5, 11, 20, 60]))
            state["faulty"] = False
            t0 = loop.time()
            n0 = len(net.log)
            # requests in flight may still be timing out
            limit = freq.total_seconds() + 25
            await asyncio.sleep(limit)
            polls = [e for e in net.log[n0:] if e.service == "OadrPoll" and e.fault is None]
            c.count("polls_after_faults", len(polls))
            c.check(polls, "no-poll-after-faults", lambda: f"no poll within {limit} s after the faults stopped; scheduler running: {cl.scheduler.running}, registration {cl.registration_id}; last traffic {net.log[-6:]}; faults {trace[-12:]}")
            # the VTN hands its events out again with the next change
            reps = len(got)
            add()
            await asyncio.sleep(limit + 60)
            for eid, mod in evs.items():
                seen = [x for x in runs if x[1] == eid]
                out = [x for x in world_events(srv, ven) if x[0] == eid]
                c.count("changes_recovered", bool(out))
                c.check(not out or seen and seen[-1][2] == mod, "change-never-reached-the-handler", lambda: f"event {eid!r} mod {mod} outstanding at the VTN as {out}; handler saw {seen}; faults {trace[-12:]}")
            c.count("reports_after_faults", len(got) - reps)
            c.check(len(got) > reps, "no-reports-after-faults", lambda: f"{len(got)} values before and after; requests {cl.report_requests}; queue task {cl.report_queue_task}; jobs {cl.scheduler.get_jobs()}; faults {trace[-12:]}")
        for x in runs:
            c.check(x[1] in evs and x[2] <= evs[x[1]], "handler-ran-for-content-never-sent", lambda: f"{x}")
        dup = [x for x in set(runs) if runs.count(x) > 1]
        c.check(not [x for x in dup if x[3] != "cancelled"], "handler-ran-twice", lambda: f"{dup}")
        await cl.stop()
        for e in jobs:
            c.fail("unhandled-error-in-job", f"{e}; faults {trace[-12:]}")
    c.run(body)
    c.sig(trace[:60])
    c.sample({"faults": trace[:10], "handler_runs": runs[:6]})

def world_events(srv, ven):
    from openleadr import utils
    return [(utils.getmember(e, "event_descriptor.event_id"), utils.getmember(e, "event_descriptor.modification_number")) for e in srv.events.get(ven, [])]
