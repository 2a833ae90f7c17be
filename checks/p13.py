"""P13: the VEN answers each delivered event correctly."""
import asyncio
import venrig, wire
ID = "P13"
CASES = {"quick": 480, "thorough": 14000}
RULE = ("each case runs a real VEN in virtual time against a scripted VTN that delivers random batches (new, redelivered, changed, cancelled and finished events, several signals, "
        "repeated ids) in poll answers and in the first event request, with synchronous, asynchronous, slow and failing handlers; every answer message that arrives at the VTN is compared, "
        "entry by entry, with what was delivered and what the handlers returned; signature = the sequence of expected entries")
ASSUME = ["an event that the periodic clean-up may already have removed may be reported as new again"]
REQUIRED = ["answers", "entries", "entries_460", "entries_cancelled", "entries_of_failed_handlers", "entries_repeated", "deliveries_without_answer"]
def probe_lowercase(c):
    """A VTN whose id has no upper case letters."""
    async def body(loop):
        rig = venrig.Rig(c, failing=0)
        rig.vtn.vtn_id = "vtn_1"
        await rig.start()
        d, ans = rig.deliver([dict(rig.new_event("ev1"), cancelled=False, start=rig.now(), duration=venrig.timedelta(hours=1), response="always")])
        rig.vtn.queue.append(lambda rec: ans())
        await rig.settle()
        await rig.cl.stop()
        return rig
    rig = c.run(body)
    c.count("lowercase_probe")
    c.check([x["eid"] for x in rig.runs] == ["ev1"], "lowercase-vtn-id-rejected", lambda: f"event of VTN 'vtn_1': handler runs {rig.runs}")
    if ID == "P13":
        c.check([(i["event_id"], i["opt"]) for r in rig.responses() for i in wire.created_event(r.body)["items"]] == [(x["eid"], x["res"]) for x in rig.runs] != [], "lowercase-vtn-id-rejected", lambda: f"{rig.responses()}")
def case(c):
    if c.index == 0:
        return probe_lowercase(c)
    async def body(loop):
        rig = venrig.Rig(c, cleanup=c.rng.choice([300, 60, 3000]), freq=c.rng.choice([5, 10, 30]), update=c.rng.random() < .8)
        await rig.start(rig.batch() if c.rng.random() < .5 else None)
        for _ in range(c.rng.choice([4, 10, 20])):
            d, ans = rig.deliver(rig.batch())
            rig.vtn.queue.append(lambda rec, ans=ans: ans())
            if c.rng.random() < .6:
                await rig.settle()
                await asyncio.sleep(c.rng.choice([0, 0, 1, 100, 400, 4000]))
        await rig.settle()
        await rig.cl.stop()
        return rig
    rig = c.run(body)
    for e in rig.errors:
        c.fail("job-error", e)
    for w in rig.vtn.invalid:
        c.fail("invalid-message-sent", w)
    shape = venrig.check_answers(rig)
    c.sig(shape)
    c.sample({"answers": shape[:12]})
    if c.fails:
        for d, prs, clean in venrig.pair_runs(rig):
            c.note(d["n"], d["at"], [(e["event_id"], e["mod"], e["status"], e["response"], str(e["start"]), str(e["duration"]), sorted(o), run and (run["kind"], run["res"])) for e, run, o in prs])
