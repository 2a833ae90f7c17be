"""P14: the VEN forgets exactly the events that are over."""
import asyncio
from datetime import timedelta
import venrig
ID = "P14"
CASES = {"quick": 400, "thorough": 12000}
RULE = ("each case runs a real VEN in virtual time; batches of events of every duration, status and signal set are delivered, then the VEN's event memory is sampled at random moments "
        "over hours; a model of the events and of the clean-up ticks decides which events must be in it and with which status; redeliveries after samples check what the handlers and "
        "answers show of the memory; signature = the sequence of (remembered statuses) sampled")
ASSUME = ["an event is removed at the first periodic clean-up after it is over; statuses are refreshed at the configured log period"]
REQUIRED = ["samples", "remembered", "forgotten", "remembered_open_ended", "forgotten_cancelled", "forgotten_completed", "status_near", "status_active", "status_far"]
def case(c):
    r = c.rng
    shape = []
    async def body(loop):
        rig = venrig.Rig(c, cleanup=r.choice([300, 60, 1000]), freq=r.choice([5, 10]), slow=r.random() < .3)
        rig.t_status = 10
        await rig.start(rig.batch() if r.random() < .3 else None)
        def sample():
            t = rig.now()
            last = {}
            for d in rig.deliveries:
                for e in d["sent"]:
                    last[e["event_id"]] = (e, d["at"])
            have = {}
            for ev in rig.cl.received_events:
                eid = ev["event_descriptor"]["event_id"]
                c.check(eid not in have, "event-remembered-twice", eid)
                have[eid] = ev
            c.check(set(have) <= set(last), "unknown-event-remembered", lambda: f"{set(have) - set(last)}")
            c.count("samples")
            for eid, (e, at) in last.items():
                o = rig.over_at(e)
                sure = maybe = 0
                if o is not None:
                    sure = rig.ticks(max(at + timedelta(seconds=18), o), t)[0]
                    maybe = rig.ticks(max(at, o), t)[1]
                what = f"{eid!r} start={e['start']} dur={e['duration']} cancelled={e['cancelled']} received {at}; now {t}, clean-up every {rig.cleanup} s from {rig.t0}"
                if sure:
                    c.count("forgotten")
                    c.count("forgotten_cancelled" if e["cancelled"] else "forgotten_completed")
                    c.check(eid not in have, "event-not-forgotten", what)
                elif not maybe:
                    c.count("remembered")
                    c.count("remembered_open_ended", not e["duration"])
                    if c.check(eid in have, "event-forgotten-too-early", what):
                        st = have[eid]["event_descriptor"]["event_status"]
                        c.check(have[eid]["event_descriptor"]["modification_number"] == e["mod"], "stale-version-remembered", what)
                        may = {rig.status(e, t), rig.status(e, t - timedelta(seconds=rig.t_status + 1))}
                        if at > t - timedelta(seconds=rig.t_status + 1):
                            may.add(e["status"])
                        c.check(st in may, "stale-status", lambda: f"status {st}, should be one of {may}: {what}")
                        c.count(f"status_{st}")
                        shape.append(st)
        for _ in range(r.choice([2, 4, 8])):
            d, ans = rig.deliver(rig.batch())
            rig.vtn.queue.append(lambda rec, ans=ans: ans())
            await rig.settle()
            sample()
            for _ in range(r.choice([0, 1, 3])):
                await asyncio.sleep(r.choice([20, 50, 301, 700, 2000, 5000]))
                sample()
        await rig.cl.stop()
        return rig
    rig = c.run(body)
    for e in rig.errors:
        c.fail("job-error", e)
    venrig.check_answers(rig)
    for d, prs, clean in venrig.pair_runs(rig):
        for e, run, opts in prs:
            k = run["kind"] if run else "none"
            c.check(k in opts, "memory-contradicted-by-handlers", lambda: f"delivery {d['n']} {e['event_id']!r} mod {e['mod']}: {k} instead of {opts}")
    c.sig(shape)
    c.sample({"statuses": shape[:30]})
