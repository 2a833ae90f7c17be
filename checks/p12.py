"""P12: the VEN handlers see each event version exactly once."""
import asyncio
import venrig
ID = "P12"
CASES = {"quick": 480, "thorough": 14000}
RULE = ("each case runs a real VEN in virtual time against a scripted VTN that delivers random batches (new, redelivered, changed, cancelled and finished events, several signals, "
        "repeated ids) in poll answers and in the first event request, with synchronous, asynchronous, slow and failing handlers; an online model of what the VEN remembers decides "
        "which handler must run for each event of each delivery; signature = the sequence of expected handler runs")
ASSUME = ["an event that the periodic clean-up may already have removed may be reported as new again"]
REQUIRED = ["deliveries", "new_runs", "update_runs", "silent_redeliveries", "batches_of_several", "bursts"]
def probe_lowercase(c):
    """A VTN whose id has no upper case letters."""
    async def body(loop):
        rig = venrig.Rig(c, failing=0)
        rig.vtn.vtn_id = "vtn_1"
        await rig.start()
        d, ans = rig.deliver([dict(rig.new_event("ev1"), cancelled=False, start=rig.now(), duration=venrig.timedelta(hours=1), response="always")])
        rig.vtn.queue.append(lambda rec: ans())
        await rig.settle()
        await rig.cl.stop()
        return rig
    rig = c.run(body)
    c.count("lowercase_probe")
    c.check([x["eid"] for x in rig.runs] == ["ev1"], "lowercase-vtn-id-rejected", lambda: f"event of VTN 'vtn_1': handler runs {rig.runs}")
    if ID == "P13":
        c.check([(i["event_id"], i["opt"]) for r in rig.responses() for i in wire.created_event(r.body)["items"]] == [(x["eid"], x["res"]) for x in rig.runs] != [], "lowercase-vtn-id-rejected", lambda: f"{rig.responses()}")
def case(c):
    if c.index == 0:
        return probe_lowercase(c)
    async def body(loop):
        rig = venrig.Rig(c, cleanup=c.rng.choice([300, 60, 3000]), freq=c.rng.choice([5, 10, 30]), update=c.rng.random() < .8)
        await rig.start(rig.batch() if c.rng.random() < .5 else None)
        for _ in range(c.rng.choice([4, 10, 20])):
            d, ans = rig.deliver(rig.batch())
            rig.vtn.queue.append(lambda rec, ans=ans: ans())
            if c.rng.random() < .6:
                await rig.settle()
                await asyncio.sleep(c.rng.choice([0, 0, 1, 100, 400, 4000]))
        await rig.settle()
        await rig.cl.stop()
        return rig
    rig = c.run(body)
    for e in rig.errors:
        c.fail("job-error", e)
    for w in rig.vtn.invalid:
        c.fail("invalid-message-sent", w)
    shape = []
    for d, rows, runs in venrig.expect_runs(rig):
        c.count("deliveries")
        c.count("batches_of_several", len(rows) > 1)
        k = 0
        ok = True
        for e, opts in rows:
            run = runs[k] if k < len(runs) else None
            mine = run is not None and (run["eid"], run["mod"]) == (e["event_id"], e["mod"])
            got = run["kind"] if mine and (run["kind"] in opts or "none" not in opts) else "none"
            if not rig.update and "update" in opts:
                opts.add("none")
            if got != "none":
                k += 1
                c.count(f"{got}_runs")
                if got in opts:
                    dd = run["event"]["event_descriptor"]
                    c.check(len(run["event"]["event_signals"]) == len(e["signals"]), "handler-got-other-content", lambda: f"{run} for {e}")
            else:
                c.count("silent_redeliveries", "none" in opts)
            shape.append(got)
            ok &= c.check(got in opts, f"handler-{got}-instead-of-{'-or-'.join(sorted(opts))}", lambda: f"delivery {d['n']} at {d['at']} event {e['event_id']!r} mod {e['mod']} status {e['status']}: expected {opts}; runs of this delivery {[(x['kind'], x['eid'], x['mod']) for x in runs]}; batch {[(x['event_id'], x['mod'], x['status'], sorted(o)) for x, o in rows]}")
            if not ok:
                break
        if ok:
            c.check(k == len(runs), "extra-handler-run", lambda: f"delivery {d['n']}: {[(x['kind'], x['eid'], x['mod']) for x in runs[k:]]} not called for; batch {[(x['event_id'], x['mod'], x['status']) for x, _ in rows]}")
    c.sig(shape)
    c.sample({"handler_runs": shape[:30]})
