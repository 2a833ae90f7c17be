"""P31: a stopped VEN is quiet and leaves nothing behind."""
import asyncio
from datetime import datetime, timedelta, timezone
import fabric, gen, msgs, oadr, script, wire, world
ID = "P31"
CASES = {"quick": 1600, "thorough": 40000}
RULE = ("each case runs a real VEN (events, updates, reports, re-registration, slow and failing handlers, faults, delays) against a scripted VTN in virtual time and stops it at a random moment: before it is started, at the n-th step of "
        "the n-th exchange, at any instant of the start-up or later, from inside an event handler or report callback, once or again; then days pass, and every message, handler run and report callback after the stop, and every task, timer, "
        "scheduled job and open session of the VEN that remains is a violation; registrations that are refused or fail, and cancelled registrations, likewise; signature = (moment of the stop, what the VEN was doing, session)")
ASSUME = ["closing the HTTP session breaks off the exchanges in flight, as in aiohttp", "two stops do not overlap"]
REQUIRED = ["stopped", "stop_before_run", "stop_in_startup", "stop_in_exchange", "stop_in_handler", "stop_in_report", "stop_twice", "refused_starts", "events", "reports", "quiet_days", "stop_while_polling", "stop_while_reporting", "lean_samples", "failed_starts_alone"]
UTC = timezone.utc
S = lambda x: timedelta(seconds=x)

def setup():
    global objects
    from openleadr import objects

def mine(loop):
    return [t for t in asyncio.all_tasks(loop) if not getattr(t, "_harness", False)]

def case(c):
    r = c.rng
    info = []
    async def body(loop):
        asyncio.current_task()._harness = True
        net = fabric.Net()
        how = r.choice(["before", "startup", "startup", "exchange", "exchange", "exchange", "later", "later", "handler", "report", "refused", "unregister"])
        freq = r.choice([5, 10, 60])
        vtn = script.ScriptVTN(net, freq=S(freq), ven_id=gen.uid(r, "pm"))
        sessions = []
        lat = r.choice([0, .01, .3, 1])
        jitter = r.random() < .5
        steps = [0]
        trigger = [None]          # step number at which to stop
        def delayer(ex, ph):
            steps[0] += 1
            if ex.client not in sessions: sessions.append(ex.client)
            if trigger[0] is not None and steps[0] == trigger[0]:
                trigger[0] = None; info.append((wire_type(ex), ph)); spawn(stop("exchange"), after=r.choice([0, lat / 2, lat]))
            return lat * (r.random() if jitter else 1)
        net.delayer = delayer
        def wire_type(ex):
            try: return wire.message(ex.req)[0]
            except Exception: return "?"
        def wire_res(x):
            try: return wire.message(x.res)[0]
            except Exception: return None
        faulty = r.random() < .3
        async def faulter(ex):
            if not faulty or wire_type(ex) in ("oadrQueryRegistration", "oadrCreatePartyRegistration") or r.random() > .15: return None
            return r.choice([("refuse",), ("drop_request",), ("drop_response",), ("disconnect",), ("replace", 500, b""), ("replace", 200, b""), ("replace", 200, b"<x/>")])
        net.faulter = faulter
        clkw = {}
        cl = world.client(**clkw)
        cl.event_status_log_period = r.choice([10, 100]); cl.events_clean_up_period = r.choice([10, 300])
        starts = []               # (time, what) every handler run and report callback
        stopped = []              # (time stop returned)
        harness = []
        def spawn(coro, after=0):
            async def go():
                if after: await asyncio.sleep(after)
                await coro
            t = loop.create_task(go()); t._harness = True; harness.append(t)
        calls, starter, starting = [0], [], [False]
        async def stop(kind):
            calls[0] += 1
            if starter: starting[0] = starting[0] or not starter[0].done()
            if calls[0] == 1:
                busy = [wire_type(e) for e in net.log if e.t1 is None]
                info.append((kind, tuple(busy)[:3]))
                if "oadrPoll" in busy: c.count("stop_while_polling")
                if "oadrUpdateReport" in busy: c.count("stop_while_reporting")
            try: await cl.stop()
            except asyncio.CancelledError:
                if kind not in ("handler", "report"): raise
                stopped.append(loop.time()); c.count("stopped"); raise
            except Exception as e:
                c.fail("stop-raises", f"stop() ({kind}, {info}) raised {type(e).__name__}: {e}")
            stopped.append(loop.time())
            c.count("stopped")
        slow = r.choice([0, 0, .2, 3, 30])
        fail = r.choice([0, 0, .3])
        stop_at_run = r.choice([1, 1, 2, 3])
        def handler(what):
            async def on(event):
                starts.append((loop.time(), what, event["event_descriptor"]["event_id"])); c.count("events")
                if how == "handler" and len([s for s in starts if s[1] in ("new", "update")]) == stop_at_run and not calls[0]: c.count("stop_in_handler"); await stop("handler")
                if slow: await asyncio.sleep(slow * r.random())
                if r.random() < fail: raise ValueError("handler failed")
                return "optIn"
            return on
        cl.add_handler("on_event", handler("new")); cl.add_handler("on_update_event", handler("update"))
        specs = []
        for j in range(r.choice([0, 1, 2]) if how != "report" else 1):
            spec, rid = f"spec{j}", f"r{j}"
            mode = r.choice(["incremental", "incremental", "full"]) if how != "report" else "incremental"
            async def cb(**kw):
                starts.append((loop.time(), "report", None)); c.count("reports")
                if how == "report" and len([s for s in starts if s[1] == "report"]) == stop_at_run and not calls[0]: c.count("stop_in_report"); await stop("report")
                if slow: await asyncio.sleep(slow * r.random())
                if r.random() < fail: raise ValueError("callback failed")
                return 1 if "date_from" not in kw else [(kw["date_from"], 1)]
            async def full(date_from, date_to, sampling_interval): return await cb(date_from=date_from, date_to=date_to)
            async def inc(): return await cb()
            cl.add_report(full if mode == "full" else inc, resource_id=f"res{j}", measurement="voltage", unit="V", report_specifier_id=spec, r_id=rid, data_collection_mode=mode, sampling_rate=objects.SamplingRate(min_period=S(r.choice([1, 5])), max_period=S(3600), on_change=False))
            specs.append((spec, rid))
        def ask(k):
            spec, rid = r.choice(specs)
            g = r.choice([5, 10, 30]); return oadr.report_request(f"rr{k}", spec, S(g), S(g * r.choice([1, 2, 3])), [(rid, "Direct Read", None)])
        ids = [f"e{i}" for i in range(5)]; mods = {}
        def ev():
            e = msgs.event(r); e["event_id"] = r.choice(ids); mods[e["event_id"]] = mods.get(e["event_id"], -1) + 1; e["mod"] = mods[e["event_id"]]
            e["start"] = datetime.now(UTC) + S(r.choice([-100, 100, 4000])); e["duration"] = S(r.choice([50, 3600])); e["targets"] = []
            for s in e["signals"]: s["intervals"] = [(e["start"], e["duration"], 1.0)]
            e["status"] = r.choice(["far", "active", "cancelled"]); return e
        def distinct(n):
            out = {}
            for _ in range(n): x = ev(); out[x["event_id"]] = x
            return list(out.values())
        vtn.initial_events = []
        if how == "handler" or r.random() < .6: vtn.override["oadrRequestEvent"] = lambda rec: oadr.distribute_event(vtn.rid(), [oadr.event(e) for e in distinct(r.choice([1, 2, 3]))], vtn.vtn_id)
        if specs: vtn.override["oadrRegisterReport"] = lambda rec: oadr.registered_report(rec.rid, [ask(k) for k in range(r.choice([0, 1, 2]) if how != "report" else 1)], vtn.ven_id)
        nreq = [10]
        def poll(rec):
            x = r.random()
            if x < .3: return oadr.distribute_event(vtn.rid(), [oadr.event(e) for e in distinct(r.choice([1, 2]))], vtn.vtn_id)
            if x < .45 and specs and nreq[0] < 14: nreq[0] += 1; return oadr.create_report(vtn.rid(), vtn.ven_id, [ask(nreq[0])])
            if x < .5 and specs: return oadr.cancel_report(vtn.rid(), [f"rr{r.randrange(12)}"], r.random() < .5, vtn.ven_id)
            if x < .55: return oadr.request_reregistration(vtn.ven_id)
            return None
        vtn.override["oadrPoll"] = poll
        if how == "refused":
            c.count("refused_starts")
            vtn.override["oadrCreatePartyRegistration"] = r.choice([
                lambda rec: (500, b""), lambda rec: (200, b""), lambda rec: oadr.created_party_registration(rec.rid, None, None, vtn.vtn_id, S(5), code=452, desc="no"), lambda rec: oadr.oadr_response(463, rec.rid, None, "no")])
        # -------- stop it
        if how == "before":
            c.count("stop_before_run"); await stop("before")
            if r.random() < .4: info.append("never run")
        run = None
        if "never run" not in info:
            run = loop.create_task(cl.run()); starter.append(run)
        if how == "startup":
            c.count("stop_in_startup"); spawn(stop("startup"), after=r.choice([0, r.random() * lat * 4, r.random() * lat * 14, r.random() * 3]))
        elif how == "exchange":
            c.count("stop_in_exchange"); trigger[0] = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 20, 40])
        elif how == "later":
            spawn(stop("later"), after=r.choice([10, 60, 300, 1200]) * (.5 + r.random()))
        elif how == "unregister":
            async def leave():
                await cl.cancel_party_registration(); await stop("unregister")
            spawn(leave(), after=r.choice([20, 100]))
        # -------- while it runs: no more tasks than its work in progress needs
        end = loop.time() + (900 if how != "later" else 2000)
        while loop.time() < end and not (stopped and how != "before"):
            await asyncio.sleep(r.choice([7, 33, 101, 1000]) if not how == "refused" else 3000)
            if stopped or how in ("before", "refused"): continue
            n, jobs = len(mine(loop)), len(cl.scheduler.get_jobs())
            c.count("lean_samples")
            c.check(n <= 4 + 4 * jobs, "tasks-accumulate", lambda: f"{n} tasks with {jobs} scheduled jobs after {loop.time()} s: {[str(t.get_coro())[:80] for t in mine(loop)][:12]}")
        alone = how == "refused" and run.done() and r.random() < .7        # the start failed, and nobody stops it
        if alone: c.count("failed_starts_alone"); stopped.append(loop.time()); info.append("failed start")
        elif not stopped or how == "before" and "never run" not in info:
            await stop("end")
        twice = not alone and r.random() < .4
        if twice: await asyncio.sleep(r.choice([.1, 50])); c.count("stop_twice"); await stop("again")
        # -------- quiet from then on
        ts = stopped[0] if how != "before" else (stopped[1] if len(stopped) > 1 else stopped[0])
        if len(stopped) == 1 or not twice: ts = stopped[-1]
        else: ts = stopped[-2]
        await asyncio.sleep(3 * 86400)
        c.count("quiet_days", 3)
        sent = [(e.t0, wire_type(e)) for e in net.log if e.t0 > ts and e.fault != "closed"]
        c.check(not sent, "message-after-stop", lambda: f"stopped at {ts} ({how}, {info}); sent {sent[:6]}")
        tried = [(e.t0, wire_type(e)) for e in net.log if e.t0 > ts + 120]
        c.check(not tried, "activity-after-stop", lambda: f"stopped at {ts} ({how}, {info}); it still tried to send {len(tried)} messages: {tried[:4]} ... {tried[-1:]}")
        # (a start-up that was broken off may still hand over the events and take up the report requests it had already received)
        got = {e["event_id"] for x in net.log if x.t1 is not None and x.t1 <= ts and x.res for e in (wire.events(x.res) if wire_res(x) == "oadrDistributeEvent" else [])} if any(s[0] > ts for s in starts) else set()
        late = [s for s in starts if s[0] > ts and not (starting[0] and (s[1] == "report" or s[2] in got) and s[0] < ts + 100)]
        c.check(not late, "handler-after-stop", lambda: f"stopped at {ts} ({how}, {info}); handlers and callbacks started later: {late[:5]} (of {len(late)})")
        left = mine(loop)
        c.check(not left, "task-after-stop", lambda: f"stopped at {ts} ({how}, {info}); tasks that remain: {[str(t)[:160] for t in left]}")
        timers = [h for h in loop._scheduled if not h._cancelled]
        c.check(not timers, "timer-after-stop", lambda: f"stopped at {ts} ({how}, {info}); timers that remain: {[str(t)[:160] for t in timers]}")
        c.check(not cl.scheduler.running, "scheduler-after-stop", lambda: f"stopped at {ts} ({how}, {info}); the scheduler still runs, with {cl.scheduler.get_jobs()}")
        opened = [s for s in sessions if not s.closed]
        c.check(not opened, "session-after-stop", lambda: f"stopped at {ts} ({how}, {info}); {len(opened)} of {len(sessions)} sessions are still open")
        if run is not None:
            c.check(run.done() and (run.cancelled() or run.exception() is None), "run-after-stop", lambda: f"stopped at {ts} ({how}, {info}); run(): {run}")
        for t in harness:
            if t.done() and not t.cancelled() and t.exception(): raise t.exception()
        c.sig(how, tuple(info), len(specs), lat, slow, faulty, twice)
        c.sample({"how": how, "moment": str(info), "exchanges": len(net.log), "handler runs": len(starts)})
    c.run(body)
