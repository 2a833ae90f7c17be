"""Random multi-VEN event histories against one VTN; everything that happens is recorded in one totally ordered log."""
import asyncio
from datetime import datetime, timedelta, timezone
import gen, oadr, wire, world
from vloop import EPOCH
UTC = timezone.utc

class Ev:
    """What the operator asked for: the model of one queued event."""
    def __init__(self, **kw):
        self.__dict__.update(kw)
        self.cancels = []          # seqs
        self.acks = []             # (s, e, mod) windows of confirming responses
        self.done = []             # (s, e) windows in which it was handed out as completed
    def __repr__(self):
        return f"<ev {self.ven}/{self.eid} add={self.add} cancels={self.cancels}>"
    def status_at(self, t):
        if t >= self.start + self.duration and self.duration > timedelta(0):
            return "completed"
        if t >= self.start:
            return "active"
        if self.ramp is not None and t >= self.start - self.ramp:
            return "near"
        return "far"

class Hist:
    def __init__(self, c, nven=3, conc=False, slow=.3, w=None, ext_lookup=False, callbacks=True, failing=.0, idkinds="pnmu"):
        self.c, self.r = c, c.rng
        self.seq = 0
        self.conc, self.slow, self.callbacks, self.failing = conc, slow, callbacks, failing
        self.w = dict(add=5, raw=2, cancel=2, poll=5, request=4, respond=5, wrong=2, sleep=5, cancel_bad=.5)
        self.w.update(w or {})
        self.evs, self.reqs, self.resps, self.calls, self.dels = [], [], [], [], []
        self.vens = [f"ven_{i}" if c.rng.random() < .7 else gen.uid(c.rng, idkinds) for i in range(nven)]
        if c.rng.random() < .25: self.vens = gen.family(c.rng, nven); c.count("confusable_ven_ids")
        self.idkinds = idkinds
        self.shared_ids = [gen.uid(c.rng, idkinds) for _ in range(4)] if c.rng.random() < .7 else gen.family(c.rng, 4)
        kw = {}
        if ext_lookup:
            async def ven_lookup(ven_id):
                if self.r.random() < .5:
                    await asyncio.sleep(self.r.choice([0, 0, .01, .5]))
                return {"ven_id": ven_id, "registration_id": "reg"}
            kw["ven_lookup"] = ven_lookup
        self.srv = world.server(**kw)
        self.tasks = []
        self.futs = []
        self.inflight = []         # answers of VENs being handled
    def now(self):
        return datetime.now(UTC)
    def tick(self):
        self.seq += 1
        return self.seq
    # -- operations
    def mk_callback(self, ev):
        r = self.r
        kind = r.choice(["sync", "async", "slow", "future", "fail"] if self.failing else ["sync", "async", "slow", "future"])
        if kind == "future":
            f = asyncio.get_running_loop().create_future()
            self.futs.append((ev, f))
            ev.fut = f
            return f, kind
        def note(ven_id, event_id, opt_type):
            self.calls.append(dict(ev=ev, ven=ven_id, eid=event_id, opt=opt_type, seq=self.tick()))
        if kind == "sync":
            def cb(ven_id, event_id, opt_type): note(ven_id, event_id, opt_type)
        elif kind == "fail":
            def cb(ven_id, event_id, opt_type):
                note(ven_id, event_id, opt_type)
                raise r.choice([ValueError, KeyError, RuntimeError])("callback failed")
        else:
            d = 0 if kind == "async" else r.choice([.01, 1, 30])
            async def cb(ven_id, event_id, opt_type):
                note(ven_id, event_id, opt_type)
                await asyncio.sleep(d)
        return cb, kind
    def mk_delivery(self, ev):
        r = self.r
        kind = r.choice(["sync", "async", "slow", "fail"] if self.failing else ["sync", "async", "slow"])
        def note():
            self.dels.append(dict(ev=ev, seq=self.tick()))
        if kind == "sync":
            def cb(): note()
        elif kind == "fail":
            def cb():
                note()
                raise ValueError("delivery callback failed")
        else:
            d = 0 if kind == "async" else r.choice([.01, 1, 20])
            async def cb():
                note()
                await asyncio.sleep(d)
        return cb
    def add(self, raw, ven=None):
        from openleadr import objects
        r = self.r
        ven = ven or r.choice(self.vens)
        used = {e.eid for e in self.evs if e.ven == ven}
        eid = r.choice(self.shared_ids) if r.random() < .4 else gen.uid(r, self.idkinds)
        if eid in used:
            eid = gen.uid(r, self.idkinds)
        now = self.now()
        start = now + timedelta(seconds=r.choice([-7200, -600, -1, 0, 1, 60, 600, 3600, 7200, 90000, r.randrange(-4000, 8000)] if r.random() < .85 else [-86400, -86399, -90000, -172800, -700000]))
        if r.random() < .2:
            start = start.replace(microsecond=r.choice([1, 500000, 999999]))
        if r.random() < .3:
            start = start.astimezone(timezone(timedelta(minutes=r.choice([330, -480, 60]))))
        n = r.choice([1, 1, 2, 3])
        durs = [timedelta(seconds=r.choice([1, 30, 60, 600, 3600, 5400])) for _ in range(n)]
        if r.random() < .1:
            # whole days, or a second off
            durs = [timedelta(seconds=86400 * r.choice([1, 2, 7]) // n) for _ in range(n)]
            durs[-1] += timedelta(seconds=r.choice([0, 0, 1, -1]))
        if r.random() < .12:
            durs = [timedelta(0)]
        ivs, t = [], start
        for d in durs:
            ivs.append((t, d, r.choice([0, 1, 2, 3])))
            t += d
        ramp = r.choice([None, None, None, timedelta(minutes=5), timedelta(hours=1), timedelta(hours=3)])
        prio = r.choice([0, 0, 1, 2, 5, 9]) if raw else 0
        ev = Ev(ven=ven, eid=eid, start=start, duration=sum(durs, timedelta(0)), ramp=ramp, prio=prio, ivs=ivs, mod0=0, has_cb=False, cbkind=None, has_del=False, fut=None)
        cb = dl = None
        if self.callbacks and r.random() < .8:
            cb, ev.cbkind = self.mk_callback(ev)
            ev.has_cb = True
        if self.callbacks and r.random() < .5:
            dl = self.mk_delivery(ev)
            ev.has_del = True
        as_dict = r.random() < .4
        if not raw:
            ints = [dict(dtstart=a, duration=d, signal_payload=v) for a, d, v in ivs]
            if not as_dict:
                ints = [objects.Interval(**i) for i in ints]
            got = self.srv.add_event(ven_id=ven, event_id=eid, signal_name=r.choice(["SIMPLE", "simple", "LOAD_CONTROL", "x-own"]) if r.random() < .6 else "ELECTRICITY_PRICE",
                                     signal_type="level", intervals=ints, callback=cb, delivery_callback=dl, ramp_up_period=ramp,
                                     response_required=r.choice(["always", "always", "never"]))
            self.c.check(got == eid, "add-event-id", f"add_event returned {got!r} for {eid!r}")
        else:
            mod = r.choice([0, 0, 0, 1, 7, 127, 255, 65535])
            ev.mod0 = mod
            sig = dict(signal_name="LOAD_CONTROL", signal_type="level", signal_id="s1", intervals=[dict(dtstart=a, duration=d, signal_payload=v) for a, d, v in ivs])
            desc = dict(event_id=eid, modification_number=mod, market_context="http://mc", event_status="far", priority=prio, created_date_time=now)
            ap = dict(dtstart=start, duration=ev.duration, ramp_up_period=ramp)
            if as_dict:
                e = dict(event_descriptor=desc, active_period=ap, event_signals=[sig], targets=[{"ven_id": ven}], response_required="always")
            else:
                e = objects.Event(event_descriptor=objects.EventDescriptor(**desc), active_period=objects.ActivePeriod(**ap),
                                  event_signals=[objects.EventSignal(**dict(sig, intervals=[objects.Interval(**i) for i in sig["intervals"]]))],
                                  targets=[objects.Target(ven_id=ven)])
            self.srv.add_raw_event(ven, e, callback=cb, delivery_callback=dl)
        ev.add = self.tick()
        self.evs.append(ev)
        self.c.count("events_added")
        self.c.note(f"#{ev.add} {self.now():%H:%M:%S} add {ven} {eid!r} start={start} dur={ev.duration} ramp={ramp} prio={prio} raw={raw}")
    def outstanding(self, ven=None):
        return [e for e in self.evs if (ven is None or e.ven == ven) and not e.done and not e.acks]
    def settled(self, e):
        """No message in flight may remove this event from the queue, so that it is certain what a cancellation finds."""
        if self.tasks and self.conc and e.status_at(self.now()) == "completed" and not e.cancels and any(not t.done() for t in self.tasks):
            return False
        return not any(rec["ven"] == e.ven and i[0] == e.eid and (e.cancels or i[1] != self.mod(e)) for rec in self.inflight for i in rec["items"])
    def mod(self, e):
        return e.mod0 + len(e.cancels)
    def cancel(self, bad=False):
        r = self.r
        cand = [e for e in self.outstanding() if self.settled(e)]
        if bad or not cand:
            ven, eid = r.choice(self.vens + ["stranger"]), r.choice(["no-such-event", gen.uid(r, self.idkinds)])
            before = repr({v: [(world_status(x)) for x in q] for v, q in self.srv.events.items()})
            self.srv.cancel_event(ven, eid)
            after = repr({v: [(world_status(x)) for x in q] for v, q in self.srv.events.items()})
            self.c.check(before == after, "unknown-cancel-changed-something", f"{before} -> {after}")
            self.c.count("unknown_cancels")
            return
        e = r.choice(cand)
        live = e
        self.srv.cancel_event(e.ven, e.eid)
        live.cancels.append(self.tick())
        self.c.count("cancels")
        self.c.note(f"#{self.seq} {self.now():%H:%M:%S} cancel {e.ven} {e.eid!r} -> mod {self.mod(e)}")
    async def ask(self, kind, ven=None):
        ven = ven or self.r.choice(self.vens)
        rid = gen.uid(self.r, "pn")
        rec = dict(kind=kind, ven=ven, s=self.tick(), t0=self.now(), rid=rid, e=None)
        self.reqs.append(rec)
        if kind == "poll":
            a = await world.post(self.srv, "OadrPoll", oadr.poll(ven))
        else:
            a = await world.post(self.srv, "EiEvent", oadr.request_event(ven, rid))
        rec.update(e=self.tick(), t1=self.now(), ans=a)
        self.c.check(a.status == 200 and a.bad is None, "bad-answer", f"{kind} of {ven}: {a} {a.bad}")
        rec["got"] = evs = a.events
        self.c.count("polls" if kind == "poll" else "event_requests")
        self.c.count("handed_out", len(evs))
        self.c.note(f"#{rec['s']}-{rec['e']} {rec['t0']:%H:%M:%S} {kind} {ven} -> {a.type} {[(x['event_id'], x['modification_number'], x['status']) for x in evs]}")
        for x in evs:
            m = self.find(ven, x["event_id"])
            if m and x["status"] == "completed":
                m.done.append((rec["s"], rec["e"]))
        return rec
    def find(self, ven, eid):
        return next((e for e in self.evs if e.ven == ven and e.eid == eid), None)
    async def respond(self, wrong=False):
        r = self.r
        ven = r.choice(self.vens)
        mine = [e for e in self.evs if e.ven == ven]
        items = []
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            o = r.choice(["optIn", "optOut"])
            if not wrong and mine:
                e = r.choice(mine[-6:])
                items.append((e.eid, self.mod(e), o, gen.uid(r)))
            else:
                k = r.randrange(4)
                others = [e for e in self.evs if e.ven != ven]
                if k == 0 and mine:
                    e = r.choice(mine); items.append((e.eid, self.mod(e) + r.choice([1, 5]), o, "q"))
                elif k == 1 and others:
                    e = r.choice(others); items.append((e.eid, self.mod(e), o, "q"))
                elif k == 2 and mine:
                    e = r.choice(mine); items.append((e.eid, self.mod(e), o, "q"))
                else:
                    items.append((r.choice(["nope", gen.uid(r, self.idkinds)]), 0, o, "q"))
        items = list({i[0]: i for i in items}.values()) if r.random() < .8 else items
        rid = gen.uid(r, "pn")
        rec = dict(ven=ven, items=items, s=self.tick(), t0=self.now(), e=None, rid=rid)
        rec["acking"] = [(m, mod) for m, mod in ((self.find(ven, i[0]), i[1]) for i in items) if m and m.cancels and mod == self.mod(m)]
        self.resps.append(rec)
        self.inflight.append(rec)
        a = await world.post(self.srv, "EiEvent", oadr.created_event(ven, items, rid=rid))
        rec.update(e=self.tick(), t1=self.now(), ans=a)
        self.c.check(a.status == 200 and a.bad is None and a.type == "oadrResponse", "bad-answer", f"created event of {ven}: {a} {a.bad}")
        self.c.count("responses")
        self.c.note(f"#{rec['s']}-{rec['e']} {rec['t0']:%H:%M:%S} respond {ven} {items} -> {a.code}")
        for m, mod in rec["acking"]:
            m.acks.append((rec["s"], rec["e"], mod))
        self.inflight.remove(rec)
        return rec
    async def step(self):
        r = self.r
        op = r.choices(list(self.w), list(self.w.values()))[0]
        if op == "add": self.add(False)
        elif op == "raw": self.add(True)
        elif op == "cancel": self.cancel()
        elif op == "cancel_bad": self.cancel(True)
        elif op == "sleep": await asyncio.sleep(r.choice([.1, 1, 30, 300, 1800, 3600, 4000, r.randrange(1, 6000)]))
        else:
            co = self.ask("poll") if op == "poll" else self.ask("request") if op == "request" else self.respond(op == "wrong")
            if self.conc and r.random() < .6:
                self.tasks.append(asyncio.ensure_future(co))
                for _ in range(r.choice([0, 0, 1, 2, 3])):
                    await asyncio.sleep(0)
                if r.random() < .3:
                    await asyncio.sleep(r.choice([.005, .5, 5]))
            else:
                await co
    async def drain(self):
        if self.tasks:
            await asyncio.gather(*self.tasks)
            self.tasks = []
    async def go(self, n):
        burst = r.randrange(n) if (r := self.r).random() < .07 else None
        for k in range(n):
            if k == burst:
                self.c.count("long_queues")
                v = r.choice(self.vens)
                for _ in range(r.choice([21, 40, 130])): self.add(r.random() < .5, v)
            await self.step()
        await self.drain()
        for v in self.vens:
            await self.ask("poll", v)
        for v in self.vens:
            await self.ask("request", v)

def world_status(x):
    from openleadr import utils
    return (utils.getmember(x, "event_descriptor.event_id"), utils.getmember(x, "event_descriptor.event_status"), utils.getmember(x, "event_descriptor.modification_number"))

# ---------------------------------------------------------------- offline checkers
# Every operation has a window (s, e) in the total order of the log; additions and cancellations are single points.

def removed_windows(e):
    return [(s, t) for s, t, *_ in e.acks] + e.done

def definitely_out(e, s, t):
    return e.add < s and not any(ws < t for ws, wt in removed_windows(e) if (ws, wt) != (s, t))

def possibly_out(e, s, t):
    return e.add < t and not any(wt < s for _, wt in removed_windows(e))

def mods_possible(e, s, t):
    base = e.mod0 + sum(1 for x in e.cancels if x < s)
    return range(base, base + sum(1 for x in e.cancels if s < x < t) + 1)

def answered_with_events(h, rec):
    """Requests are always to be answered with the events; polls only when something changed."""
    return rec["kind"] == "request" or rec["ans"].type == "oadrDistributeEvent"

def check_outstanding(h):
    c = h.c
    for rec in h.reqs:
        ids = [x["event_id"] for x in rec["got"]]
        c.check(len(ids) == len(set(ids)), "handed-out-twice-in-one-answer", lambda: f"{rec['kind']} #{rec['s']} of {rec['ven']}: {ids}")
        for x in rec["got"]:
            m = h.find(rec["ven"], x["event_id"])
            if m is None:
                owner = [e.ven for e in h.evs if e.eid == x["event_id"]]
                c.fail("other-vens-event-handed-out", f"#{rec['s']} {rec['ven']} got {x['event_id']!r} queued for {owner}")
                continue
            c.check(possibly_out(m, rec["s"], rec["e"]), "event-handed-out-after-it-was-over",
                    lambda: f"#{rec['s']}-{rec['e']} {rec['ven']} got {m} acks={m.acks} done={m.done} status={x['status']}")
            c.check(abs((x["start"] - m.start).total_seconds()) < 1e-3 and [i["value"] for i in x["signals"][0]["intervals"]] == [float(v) for _, _, v in m.ivs],
                    "foreign-content-under-this-id", lambda: f"{rec['ven']} {m} got {x}")
            c.count("handed_out_checked")
        if answered_with_events(h, rec):
            for m in h.evs:
                if m.ven == rec["ven"] and definitely_out(m, rec["s"], rec["e"]):
                    c.count("must_be_included")
                    c.check(m.eid in ids, "outstanding-event-missing", lambda: f"#{rec['s']}-{rec['e']} {rec['kind']} of {rec['ven']} lacks {m}: {ids}")
    for m in h.evs:
        n = sum(1 for rec in h.reqs if rec["ven"] == m.ven for x in rec["got"] if x["event_id"] == m.eid)
        d = sum(1 for x in h.dels if x["ev"] is m)
        if m.has_del:
            c.count("delivery_callbacks", d)
            c.check(n == d, "delivery-callback-count", lambda: f"{m} handed out {n} times, its delivery callback ran {d} times")
        if m.done:
            c.count("completed_handed_out")
            c.check(len(m.done) == 1 or any(a[0] < b[1] and b[0] < a[1] for a in m.done for b in m.done if a is not b), "completed-handed-out-again", lambda: f"{m} {m.done}")

def changes(h, ven):
    return sorted([(e.add, e, e.mod0) for e in h.evs if e.ven == ven] + [(x, e, e.mod0 + k + 1) for e in h.evs if e.ven == ven for k, x in enumerate(e.cancels)], key=lambda t: t[0])

def check_polls(h):
    c = h.c
    for ven in h.vens:
        polls = [r for r in h.reqs if r["ven"] == ven and r["kind"] == "poll"]
        chg = changes(h, ven)
        def carries(p, m, mod):
            return any(x["event_id"] == m.eid and x["modification_number"] >= mod for x in p["got"])
        for at, m, mod in chg:
            first = min((p for p in polls if p["s"] > at), key=lambda p: p["s"], default=None)
            if first is None:
                continue
            if any(p["s"] < at < p["e"] and carries(p, m, mod) for p in polls):
                c.count("change_carried_by_overlapping_poll")
                continue
            if not definitely_out(m, first["s"], first["e"]):
                continue
            # another poll that began before the answer of the first one may have carried it first
            c.count("changes_followed_up")
            c.check(any(carries(p, m, mod) for p in polls if first["s"] <= p["s"] < first["e"]), "change-not-in-next-poll",
                    lambda: f"change #{at} ({m}, mod {mod}) not in poll #{first['s']}-{first['e']} of {ven}: {[(x['event_id'], x['modification_number']) for x in first['got']]} {first['ans']}")
        for p in polls:
            prev = max((q["s"] for q in polls if q["e"] < p["s"]), default=0)
            fresh = [at for at, *_ in chg if prev < at < p["e"]]
            # a change that came while an earlier poll was being answered may be announced twice
            if not fresh and not any(q["s"] < p["e"] and q["e"] > p["s"] and q is not p for q in polls):
                c.count("idle_polls")
                c.check(p["ans"].type == "oadrResponse", "unprovoked-poll-answer", lambda: f"poll #{p['s']} of {ven} gave {p['ans'].type} {[x['event_id'] for x in p['got']]} without a change since poll #{prev}")

ORDER = ["far", "near", "active", "completed"]
def check_status(h):
    c = h.c
    last = {}
    for rec in sorted(h.reqs, key=lambda r: r["e"]):
        rows = []
        for x in rec["got"]:
            m = h.find(rec["ven"], x["event_id"])
            if m is None:
                continue
            a, b = m.status_at(rec["t0"]), m.status_at(rec["t1"])
            sure, maybe = any(k < rec["s"] for k in m.cancels), any(k < rec["e"] for k in m.cancels)
            ok = (x["status"] in ORDER[ORDER.index(a):ORDER.index(b) + 1] and not sure) or (maybe and x["status"] == "cancelled")
            c.check(ok, "wrong-status", lambda: f"#{rec['s']} {rec['ven']} {x['event_id']!r}: {x['status']} at {rec['t0']}..{rec['t1']}, start={m.start} dur={m.duration} ramp={m.ramp} cancels={m.cancels}; should be {a}..{b}")
            c.count(f"status_{x['status']}")
            was = last.get((rec["ven"], m.eid))
            if was and rec["s"] > was[1]:
                c.check(x["status"] == "cancelled" or (was[0] != "cancelled" and ORDER.index(x["status"]) >= ORDER.index(was[0])), "status-moved-backwards", lambda: f"{m}: {was} -> {x['status']}")
            last[(rec["ven"], m.eid)] = (x["status"], rec["e"])
            rows.append((x["status"], m))
        still = rec["t0"] == rec["t1"] and not any(rec["s"] < k < rec["e"] for m in h.evs for k in m.cancels)
        overl = any(r["ven"] == rec["ven"] and r is not rec and r["s"] < rec["e"] and r["e"] > rec["s"] for r in h.reqs)
        if still and not overl and len(rows) > 1:
            keys = [(0, m.prio or 10 ** 9, m.start) if st == "active" else (1, 0, m.start) for st, m in rows]
            c.count("orderings_checked")
            c.count("orderings_with_several_active", sum(1 for k in keys if k[0] == 0) > 1)
            c.check(keys == sorted(keys), "wrong-order", lambda: f"#{rec['s']} {rec['ven']}: {[(st, m.prio, str(m.start)) for st, m in rows]}")

def entry(h, rec, item, before):
    """yes / maybe / no: does this response entry name a queued event and its modification?"""
    m = h.find(rec["ven"], item[0])
    s, e = rec["s"], rec["e"]
    if m is None or m.add > e:
        return "no", None
    if (m.eid in before):
        return "maybe", m
    if definitely_out(m, s, e):
        mods = mods_possible(m, s, e)
        return ("no" if item[1] not in mods else "yes" if len(mods) == 1 else "maybe"), m
    if any(t < s for _, t, *_ in m.acks):
        return "no", None
    if any(t < s for _, t in m.done):
        return ("yes" if item[1] == m.mod0 else "maybe"), m
    return "maybe", m

def check_callbacks(h):
    c = h.c
    cands = {}
    for rec in h.resps:
        verdicts, seen = [], []
        for it in rec["items"]:
            v, m = entry(h, rec, it, seen)
            verdicts.append(v)
            if m is not None:
                cands.setdefault(id(m), []).append((rec, it, v))
                seen.append(m.eid)
        code = rec["ans"].code
        if "no" in verdicts:
            c.count("unknown_event_responses")
            c.check(code == 452, "unknown-event-not-reported", lambda: f"#{rec['s']} {rec['ven']} {rec['items']} -> {code} (verdicts {verdicts})")
        elif "maybe" not in verdicts:
            c.count("valid_responses")
            c.check(code == 200, "valid-response-refused", lambda: f"#{rec['s']} {rec['ven']} {rec['items']} -> {code}")
    for m in h.evs:
        if not m.has_cb:
            continue
        cs = cands.get(id(m), [])
        if m.cbkind == "future":
            calls = [dict(ven=m.ven, eid=m.eid, opt=m.fut.result(), seq=None)] if m.fut.done() else []
        else:
            calls = [x for x in h.calls if x["ev"] is m]
        c.count("callback_runs", len(calls))
        sure = [rec for rec, it, v in cs if v == "yes"]
        c.check(len(calls) <= 1, "callback-ran-again", lambda: f"{m} kind={m.cbkind}: {calls}")
        if sure:
            c.count("callbacks_due")
            c.check(len(calls) == 1, "callback-not-run", lambda: f"{m} kind={m.cbkind}: {len(calls)} runs; responses {[(r['s'], r['items']) for r in sure]}")
        for x in calls[:1]:
            c.check((x["ven"], x["eid"]) == (m.ven, m.eid), "callback-with-foreign-ids", lambda: f"{m} got {x}")
            limit = min((r["e"] for r in sure), default=10 ** 9)
            ok = [it[2] for rec, it, v in cs if v != "no" and rec["s"] < limit and (x["seq"] is None or rec["s"] < x["seq"] < rec["e"])]
            c.check(x["opt"] in ok, "callback-with-wrong-opt", lambda: f"{m} kind={m.cbkind} got {x['opt']}, first responses say {ok}: {[(r['s'], r['e'], i, v) for r, i, v in cs]}")

def check_cancels(h):
    c = h.c
    for rec in h.reqs:
        for x in rec["got"]:
            m = h.find(rec["ven"], x["event_id"])
            if m is None:
                continue
            sure, maybe = any(k < rec["s"] for k in m.cancels), any(k < rec["e"] for k in m.cancels)
            c.check(x["modification_number"] in mods_possible(m, rec["s"], rec["e"]), "wrong-modification-number",
                    lambda: f"#{rec['s']} {m} mod0={m.mod0}: got {x['modification_number']}, expected {list(mods_possible(m, rec['s'], rec['e']))}")
            if sure:
                c.count("announced_cancelled")
                c.check(x["status"] == "cancelled", "cancelled-event-not-announced-cancelled", lambda: f"#{rec['s']} {m}: {x['status']}")
            elif not maybe:
                c.count("announced_not_cancelled")
                c.check(x["status"] != "cancelled", "event-cancelled-by-nobody", lambda: f"#{rec['s']} {m}: {x['status']}")
            if any(t < rec["s"] for _, t, *_ in m.acks):
                c.fail("cancellation-announced-after-acknowledgement", f"#{rec['s']} {m} acks={m.acks}")
            c.check(len(x["signals"]) == 1 and [(i["start"], i["duration"], i["value"]) for i in x["signals"][0]["intervals"]] == [(a.astimezone(UTC), d, float(v)) for a, d, v in m.ivs]
                    and x["start"] == m.start.astimezone(UTC) and x["duration"] == m.duration, "content-changed", lambda: f"#{rec['s']} {m} ivs={m.ivs} got {x}")
        if answered_with_events(h, rec):
            for m in h.evs:
                if m.ven == rec["ven"] and definitely_out(m, rec["s"], rec["e"]) and any(k < rec["s"] for k in m.cancels):
                    c.count("cancelled_must_be_included")
                    c.check(any(x["event_id"] == m.eid for x in rec["got"]), "cancelled-event-missing-before-acknowledgement", lambda: f"#{rec['s']} {rec['kind']} {m}: {[x['event_id'] for x in rec['got']]}")
    for m in h.evs:
        if m.acks:
            c.count("cancellations_acknowledged")

def shape(h):
    return [(r["kind"], len(r["got"]), tuple(x["status"][:2] + str(min(x["modification_number"], 3)) for x in r["got"])) for r in h.reqs][:40]
