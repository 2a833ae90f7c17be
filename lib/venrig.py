"""A real client with recording handlers against a scripted VTN; events are delivered in the answers to its polls."""
import asyncio
from datetime import datetime, timedelta, timezone
import fabric, gen, oadr, wire, world, script
UTC = timezone.utc
BAD_RESULTS = [None, "optin", "OPTIN", "maybe", "", 1, True, {}, [], ("optIn",), 0.5]
DEFINED = None

class Rig:
    def __init__(self, c, cleanup=300, freq=10, update=True, slow=True, kinds="pnmu", failing=.25, bursts=.02):
        global DEFINED
        from openleadr import enums
        self.c, self.r, self.cleanup, self.update, self.slow, self.failing = c, c.rng, cleanup, update, slow, failing
        self.net = fabric.Net()
        self.vtn = script.ScriptVTN(self.net, freq=timedelta(seconds=freq), ven_id=gen.uid(c.rng, kinds))
        self.cl = world.client(events_clean_up_period=cleanup)
        self.errors = []
        self.bursts, self.fast = bursts, set()
        script.job_errors(self.cl, self.errors)
        self.runs = []          # handler runs
        self.deliveries = []    # what was delivered
        self.kinds = kinds
        self.ids = [gen.uid(c.rng, kinds) for _ in range(6)] if c.rng.random() < .8 else gen.family(c.rng, 6)
        self.latest = {}        # event id -> last delivered event dict
        self.in_handler = 0
        self.cl.add_handler("on_event", self.mk("new"))
        if update:
            self.cl.add_handler("on_update_event", self.mk("update"))
    def mk(self, kind):
        r = self.r
        style = r.choice(["sync", "async", "mixed"])
        def decide():
            x = r.random()
            if x < self.failing / 2:
                return "raise"
            if x < self.failing:
                return r.choice(BAD_RESULTS)
            return r.choice(["optIn", "optOut"])
        def rec(event, res):
            d = event["event_descriptor"]
            self.runs.append(dict(kind=kind, eid=d["event_id"], mod=d["modification_number"], res=res, at=self.now(), n=len(self.deliveries), event=event))
        def finish(res):
            if res == "raise":
                raise r.choice([ValueError, KeyError, ZeroDivisionError, asyncio.TimeoutError])("handler failed")
            return res
        def sync(event):
            res = decide(); rec(event, res)
            return finish(res)
        async def slow(event):
            res = decide(); rec(event, res)
            if self.slow and event["event_descriptor"]["event_id"] not in self.fast:
                await asyncio.sleep(r.choice([0, 0, .01, 1, 3]))
            return finish(res)
        if style == "sync":
            return sync
        if style == "async":
            return slow
        return lambda event: (sync if r.random() < .5 else slow)(event)
    def now(self):
        return datetime.now(UTC)
    def new_event(self, eid):
        r = self.r
        start = self.now() + timedelta(seconds=r.choice([-4000, -100, 0, 5, 40, 200, 900, 4000, 90000]))
        start = start.replace(microsecond=0)
        total = timedelta(0)
        sigs = []
        dur = timedelta(seconds=r.choice([0, 20, 60, 120, 300, 600, 3600, 86400]))
        for k in range(r.choice([1, 1, 1, 2, 3])):
            name = r.choice(["SIMPLE", "ELECTRICITY_PRICE", "LOAD_DISPATCH", "ENERGY_PRICE", "LOAD_CONTROL", "CHARGE_STATE", "DEMAND_CHARGE", "BID_PRICE", "BID_LOAD", "BID_ENERGY"]) if r.random() < .88 else r.choice(["x-own", "x-SIMPLE", "x-loadControl"])
            n = r.choice([1, 1, 2])
            ivs = [(start + dur / n * i, dur / n, r.choice([0, 1, 2, 3])) for i in range(n)]
            sigs.append(dict(name=name, type="level" if name.lower() == "simple" else r.choice(["level", "delta", "price", "setpoint"]), id=f"s{k}", intervals=ivs, current=r.choice([None, 0, 1])))
        return dict(event_id=eid, mod=r.choice([0, 0, 0, 1, 5]), start=start, duration=dur, signals=sigs, priority=r.choice([None, 0, 1, 3]),
                    test=r.choice([None, "false", "true"]), comment=r.choice([None, "hi"]), targets=[("ven_id", "v")], response=r.choice(["always", "always", "always", "never"]),
                    ramp_up=r.choice([None, None, timedelta(minutes=5)]), notification=r.choice([None, timedelta(minutes=1)]), tolerance=r.choice([None, None, timedelta(minutes=2)]),
                    recovery=r.choice([None, None, timedelta(minutes=2)]), market_context=r.choice(["http://mc", "http://a/b?c=1&d=2"]))
    def status(self, e, t=None):
        t = t or self.now()
        if e["cancelled"]:
            return "cancelled"
        if e["duration"] and t >= e["start"] + e["duration"]:
            return "completed"
        if t >= e["start"]:
            return "active"
        if e["ramp_up"] and t >= e["start"] - e["ramp_up"]:
            return "near"
        return "far"
    def batch(self):
        """Random batch: new events, redeliveries, new versions, cancellations."""
        r = self.r
        res = []
        ids = r.sample(self.ids, r.choice([1, 1, 2, 3, 4]))
        for eid in ids:
            e = self.latest.get(eid)
            if e is None or r.random() < .05:
                was = e
                e = dict(self.new_event(eid), cancelled=False)
                if was is not None:
                    e["mod"] = was["mod"] + 1
            else:
                e = dict(e)
                x = r.random()
                if x < .3:                      # unchanged redelivery
                    pass
                elif x < .65:                   # changed
                    n = self.new_event(eid)
                    n["mod"] = e["mod"] + r.choice([1, 1, 1, 2, -1]) if e["mod"] else e["mod"] + 1
                    e = dict(n, cancelled=e["cancelled"] and r.random() < .5)
                elif x < .85:
                    e.update(mod=e["mod"] + 1, cancelled=True)
            self.latest[eid] = e
            res.append(e)
            if r.random() < .03:                # twice in one delivery
                e = dict(e, mod=e["mod"] + r.choice([0, 1]))
                self.latest[eid] = e
                res.append(e)
        if r.random() < self.bursts:
            # many events more, which the VEN has to remember beside these
            self.c.count("bursts")
            for _ in range(r.choice([12, 30, 70])):
                eid = gen.uid(r, self.kinds)
                self.fast.add(eid)
                res.append(dict(self.new_event(eid), cancelled=False))
        return res
    def deliver(self, evs, via="poll"):
        if self.deliveries and self.r.random() < .15: rid = self.deliveries[-1]["rid"]       # the request id says nothing about the contents
        else: rid = gen.uid(self.r, self.kinds)
        d = dict(rid=rid, evs=evs, at=None, runs0=None, n=len(self.deliveries))
        def answer(rec=None):
            d["at"] = self.now()
            d["sent"] = [dict(e, status=self.status(e)) for e in evs]
            d["seq"] = len(self.vtn.log)
            d["runs0"] = len(self.runs)
            self.deliveries.append(d)
            return oadr.distribute_event(d["rid"], d["sent"], self.vtn.vtn_id, resp=self.r.random() < .7)
        return d, answer
    async def start(self, initial=None):
        if initial is not None:
            d, ans = self.deliver(initial)
            self.vtn.override["oadrRequestEvent"] = lambda rec: ans()
        await self.cl.run()
        self.t0 = self.now()
        self.tick0 = asyncio.get_running_loop().time()
    async def settle(self):
        """Wait until the queued answers were given and processed."""
        while self.vtn.queue:
            await asyncio.sleep(1)
        await asyncio.sleep(25)     # handlers take a few seconds at most
    def responses(self):
        return self.vtn.of("oadrCreatedEvent")
    def ticks(self, a, b):
        """Clean-up ticks certainly / possibly in (a, b]."""
        sure = maybe = 0
        k = 1
        P = timedelta(seconds=self.cleanup)
        t = self.t0 + P
        eps = timedelta(seconds=.5)
        while t - eps <= b:
            if a + eps < t < b - eps:
                sure += 1
            if a - eps < t < b + eps:
                maybe += 1
            t += P
        return sure, maybe
    def over_at(self, e):
        """When this version becomes removable (None: never)."""
        if e["cancelled"]:
            return datetime.min.replace(tzinfo=UTC)
        if e["duration"]:
            return e["start"] + e["duration"]
        return None

def expect_runs(rig):
    """Walk the deliveries and derive what handlers should have run; yields (delivery, event, expected set, actual run)."""
    seen = {}       # eid -> (mod, event, time of receipt)
    out = []
    for i, d in enumerate(rig.deliveries):
        nxt = rig.deliveries[i + 1]["runs0"] if i + 1 < len(rig.deliveries) else len(rig.runs)
        runs = list(rig.runs[d["runs0"]:nxt])
        rows = []
        for e in d["sent"]:
            eid = e["event_id"]
            opts = set()
            if eid not in seen:
                opts = {"new"}
            else:
                mod, old, at = seen[eid]
                o = rig.over_at(old)
                sure = maybe = 0
                if o is not None:
                    # slow handlers of other events of a delivery make its processing take up to a quarter of a minute
                    sure = rig.ticks(max(at + timedelta(seconds=18), o), d["at"])[0]
                    maybe = rig.ticks(max(at, o), d["at"] + timedelta(seconds=18))[1]
                if not sure:
                    opts.add("none" if mod == e["mod"] else "update")
                if maybe:
                    opts.add("new")
            rows.append([e, opts])
            seen[eid] = (e["mod"], e, d["at"])
        out.append((d, rows, runs))
    return out


def pair_runs(rig):
    """Assign the handler runs of each delivery to its events, in order."""
    out = []
    for d, rows, runs in expect_runs(rig):
        k, prs = 0, []
        for e, opts in rows:
            run = runs[k] if k < len(runs) else None
            if run is not None and (run["eid"], run["mod"]) == (e["event_id"], e["mod"]) and (run["kind"] in opts or "none" not in opts):
                k += 1
            else:
                run = None
            prs.append((e, run, opts))
        out.append((d, prs, k == len(runs)))
    return out

def check_answers(rig):
    c = rig.c
    given = {}
    shape = []
    pairs = pair_runs(rig)
    for i, (d, prs, clean) in enumerate(pairs):
        nxt = pairs[i + 1][0]["seq"] if i + 1 < len(pairs) else len(rig.vtn.log)
        msgs = [r for r in rig.vtn.log[d["seq"]:nxt] if r.type == "oadrCreatedEvent"]
        want, count = [], 0
        t1 = msgs[0].at if msgs else d["at"] + timedelta(seconds=25)
        for e, run, opts in prs:
            if run is not None:
                res = run["res"] if run["res"] in ("optIn", "optOut") and isinstance(run["res"], str) else "optOut"
            else:
                res = given.get(e["event_id"], "optOut")
            given[e["event_id"]] = res
            if e["response"] != "always":
                continue
            end = e["start"] + e["duration"] if e["duration"] else None
            must = end is None or end > t1
            may = end is None or end > d["at"]
            code = 200 if all(not s["name"].startswith("x-") for s in e["signals"]) else 460
            if may:
                want.append((e["event_id"], e["mod"], res, d["rid"], code, must, e["status"], run and run["res"]))
        c.check(len(msgs) <= 1, "several-answers-to-one-delivery", lambda: f"delivery {d['n']}: {msgs}")
        must = [w for w in want if w[5]]
        if not msgs:
            c.check(not must, "delivery-not-answered", lambda: f"delivery {d['n']} at {d['at']}: expected {want}")
            c.count("deliveries_without_answer")
            shape.append(0)
            continue
        m = wire.created_event(msgs[0].body)
        c.count("answers")
        c.check(bool(want), "answer-not-called-for", lambda: f"delivery {d['n']}: {m}")
        c.check(m["ven_id"] == rig.vtn.ven_id and m["response"]["code"] == 200, "answer-envelope", lambda: f"{m} for request {d['rid']!r} ven {rig.vtn.ven_id!r}")
        got = [(x["event_id"], x["mod"], x["opt"], x["request_id"], x["code"]) for x in m["items"]]
        # entries that may be missing because their event ended while the handlers ran
        exp, k = [], 0
        for w in want:
            if w[5] or (k < len(got) and got[k][:2] == w[:2]):
                exp.append(w[:5]); k += 1
        c.check(got == exp, "wrong-entries", lambda: f"delivery {d['n']} at {d['at']}: sent {got}, expected {exp}; details {want}")
        for w in want:
            c.count("entries")
            c.count("entries_460", w[4] == 460)
            c.count("entries_cancelled", w[6] == "cancelled")
            c.count("entries_of_failed_handlers", w[7] not in (None, "optIn", "optOut"))
            c.count("entries_repeated", w[7] is None)
        shape.append(tuple((w[2], w[4], w[6]) for w in want))
    return shape
