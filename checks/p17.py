"""P17: the VEN follows the registration life cycle."""
import asyncio
from datetime import datetime, timedelta, timezone
import fabric, gen, oadr, script, wire, world
ID = "P17"
CASES = {"quick": 640, "thorough": 16000}
RULE = ("each case runs a real VEN, with or without reports, through a random life (registration accepted or refused in several ways, polls, re-registrations with new ids, cancellations from either side "
        "that are or are not valid, stop) against a scripted VTN in virtual time; the log of every message the VTN received is checked against the life-cycle automaton: order, ids and poll times; "
        "signature = the sequence of life-cycle steps and outcomes")
ASSUME = ["a message that was already on its way when the registration ended does not count as sent afterwards"]
REQUIRED = ["poll_frequency_changed", "registrations", "refusals", "re_registrations", "re_registrations_refused", "cancelled_by_ven", "cancelled_by_vtn", "cancellation_not_for_us", "cancellation_not_acknowledged", "stopped", "poll_gaps", "reports_seen"]
UTC = timezone.utc
ACTIVE = ("oadrPoll", "oadrUpdateReport", "oadrRequestEvent")

def case(c):
    r = c.rng
    life = []
    async def body(loop):
        net = fabric.Net()
        freq = r.choice([timedelta(seconds=1), timedelta(seconds=5), timedelta(seconds=10), timedelta(seconds=37), timedelta(minutes=5), timedelta(hours=3), timedelta(hours=24), timedelta(hours=30), timedelta(days=8), None])
        vtn = script.ScriptVTN(net, freq=freq, ven_id=gen.uid(r, "pnmu"), reg=gen.uid(r, "pnmu"))
        own = r.choice([None, None, "own-ven-id", vtn.ven_id])
        cl = world.client(ven_id=own)
        cl.event_status_log_period = cl.events_clean_up_period = 1800     # (speed: nothing here depends on them)
        jobs = []
        script.job_errors(cl, jobs)
        cl.add_handler("on_event", lambda e: "optIn")
        nrep = r.choice([0, 1, 2]) if freq is None or freq < timedelta(hours=1) else 0
        slow = r.choice([0, 0, 2])
        async def meas():
            if slow:
                await asyncio.sleep(slow)
            return 1.0
        rids = [cl.add_report(meas, resource_id=f"d{k}", measurement="voltage", unit="V", sampling_rate=timedelta(seconds=10)) for k in range(nrep)]
        wants = nrep and r.random() < .8
        rr = [0]
        def registered(rec):
            if not wants:
                return None
            rr[0] += 1
            return oadr.registered_report(rec.rid, [oadr.report_request(f"rr{rr[0]}", rids[0][0], timedelta(seconds=10), timedelta(seconds=10), [(x[1], "Direct Read") for x in rids])], vtn.ven_id)
        vtn.override["oadrRegisterReport"] = registered
        refuse = r.choice([None] * 5 + ["no-id", "error", "http", "connection", "empty", "garbage"])
        def refusal(kind):
            def f(rec):
                if kind == "no-id":
                    return oadr.created_party_registration(rec.rid, r.choice([None, vtn.ven_id]), None, vtn.vtn_id, vtn.freq)
                if kind == "error":
                    return oadr.created_party_registration(rec.rid, r.choice([None, "x"]), r.choice([None, "y"]), vtn.vtn_id, vtn.freq, code=r.choice([463, 452, 500]), desc="refused")
                if kind == "http":
                    return r.choice([403, 500, 404]), b"no"
                if kind == "empty":
                    return 200, b""
                return 200, b"<garbage"
            return f
        if refuse == "connection":
            async def faulter(ex):
                return ("refuse",) if b"oadrCreatePartyRegistration" in ex.req else None
            net.faulter = faulter
        elif refuse:
            vtn.override["oadrCreatePartyRegistration"] = refusal(refuse)
        t_run = datetime.now(UTC)
        await cl.run()
        life.append(("start", refuse, nrep, bool(wants)))
        types = [x.type for x in vtn.log]
        if refuse:
            c.count("refusals")
            await asyncio.sleep(r.choice([100, 100000]))
            c.check(not vtn.of(*ACTIVE), "active-after-refusal", lambda: f"refused by {refuse}: {vtn.log}")
            c.check(not vtn.of("oadrRegisterReport"), "offers-reports-after-refusal", lambda: f"refused by {refuse}: {vtn.log}")
            return
        c.count("registrations")
        want = ["oadrQueryRegistration", "oadrCreatePartyRegistration", "oadrRegisterReport"] + (["oadrCreatedReport"] if wants else []) + ["oadrRequestEvent", "oadrPoll"]
        core = [t for t in types if t != "oadrUpdateReport"]
        c.check(core == want, "wrong-order-at-start", lambda: f"{core} instead of {want}")
        cpr = vtn.of("oadrCreatePartyRegistration")[0]
        c.check(wire.text(cpr.el, "oadrVenName") == "ven" and (cpr.ven or None) == own, "registration-content", lambda: f"ven name {wire.text(cpr.el, 'oadrVenName')!r} id {cpr.ven!r}, configured {own!r}")
        step = min(freq if freq is not None else timedelta(seconds=10), timedelta(hours=24))
        # from here on: a list of (from index, ven id in force)
        epochs = [(len([1 for x in vtn.log if x.n <= cpr.n]), vtn.ven_id, cpr.at)]
        t_poll = datetime.now(UTC)
        def check_ids():
            for k, (i, v, at) in enumerate(epochs):
                j = epochs[k + 1][0] if k + 1 < len(epochs) else len(vtn.log)
                for x in vtn.log[i:j]:
                    # a report that was under way while the registration was answered still carries the old id
                    c.check(x.ven == v or (k and x.type == "oadrUpdateReport" and x.at - at < timedelta(seconds=.5) and x.ven == epochs[k - 1][1]), "wrong-ven-id", lambda: f"{x} carries {x.ven!r} instead of {v!r}; epochs {epochs}")
        def check_polls():
            ps = vtn.of("oadrPoll")
            at = [p.at for p in ps]
            for a, b in zip(at[1:], at[2:]):
                c.count("poll_gaps")
                c.check(abs((b - a - step).total_seconds()) < .1, "wrong-poll-interval", lambda: f"{b - a} instead of {step} (asked {freq}); polls {at[-5:]}")
            if len(at) > 1:
                c.check(abs((at[1] - t_poll - step).total_seconds()) < 1.5, "wrong-first-poll-interval", lambda: f"{at[1] - t_poll} instead of {step}")
        span = min(step.total_seconds() * 3.5, 400000)
        over = False
        async def taken():
            """wait until the VEN has fetched what is queued, and a moment more"""
            for _ in range(6):
                if vtn.queue:
                    await asyncio.sleep(step.total_seconds())
            await asyncio.sleep(20)
        for _ in range(r.choice([1, 2, 4])):
            await asyncio.sleep(r.choice([span, span / 2, .3]))
            op = r.choice(["rereg", "rereg", "rereg_refused", "cancel_ven", "cancel_ven_bad", "cancel_vtn", "cancel_vtn_other", "stop", "event"])
            life.append(op); c.note(op, datetime.now(UTC), len(vtn.log))
            mark = len(vtn.log)
            if op == "event":
                vtn.queue.append(oadr.distribute_event("q", [dict(event_id="e1", start=datetime.now(UTC), duration=timedelta(hours=1))], vtn.vtn_id))
            elif op in ("rereg", "rereg_refused"):
                old = vtn.ven_id
                done = []
                def again(rec):
                    if op == "rereg_refused":
                        done.append(rec.n)
                        return oadr.created_party_registration(rec.rid, r.choice([None, vtn.ven_id]), None, vtn.vtn_id, vtn.freq)
                    if r.random() < .7:
                        vtn.ven_id = gen.uid(r, "pnmu"); vtn.reg = gen.uid(r, "pnmu")
                    if r.random() < .5:
                        vtn.freq = r.choice([None, timedelta(seconds=3), timedelta(seconds=10), timedelta(seconds=50), timedelta(minutes=3)] + ([timedelta(hours=24), timedelta(days=3)] if not nrep else []))
                        c.count("poll_frequency_changed")
                    done.append(rec.n)
                    epochs.append((rec.n + 1, vtn.ven_id, rec.at))
                    vtn.override.pop("oadrCreatePartyRegistration")
                    return None
                vtn.override["oadrCreatePartyRegistration"] = again
                vtn.queue.append(oadr.request_reregistration(old))
                await taken()
                if not c.check(done, "does-not-re-register", lambda: f"{vtn.log[mark:]}"):
                    return
                seq = [x.type for x in vtn.log[mark:] if x.type != "oadrUpdateReport"]
                i = next(k for k, x in enumerate(vtn.log) if x.n == done[0])
                before = [x.type for x in vtn.log[mark:i] if x.type != "oadrUpdateReport"]
                c.check(before and before[-1] == "oadrResponse", "re-registration-not-acknowledged", lambda: f"{seq}")
                after = [x.type for x in vtn.log[i + 1:] if x.type not in ("oadrUpdateReport", "oadrPoll")]
                if op == "rereg":
                    c.count("re_registrations")
                    c.check(after == ["oadrRegisterReport"] + (["oadrCreatedReport"] if wants else []) + ["oadrRequestEvent"], "wrong-order-after-re-registration", lambda: f"{after}")
                    n0 = len(vtn.of("oadrPoll"))
                    step = min(vtn.freq if vtn.freq is not None else timedelta(seconds=10), timedelta(hours=24))
                    await asyncio.sleep(step.total_seconds() * 2 + 1)
                    at = [x.at for x in vtn.of("oadrPoll")[n0:]]
                    for a, b in zip(at, at[1:]):
                        c.check(abs((b - a - step).total_seconds()) < .1, "wrong-poll-interval", lambda: f"{b - a} instead of {step} (asked {vtn.freq} at re-registration); polls {at}")
                    c.check(len(at) >= 2, "no-polls-after-re-registration", lambda: f"{vtn.log[-5:]}")
                    c.check(cl.ven_id == vtn.ven_id and cl.registration_id == vtn.reg, "ids-not-taken-over", lambda: f"{cl.ven_id!r} {cl.registration_id!r}")
                else:
                    c.count("re_registrations_refused")
                    n = len(vtn.log)
                    await asyncio.sleep(max(400, step.total_seconds() * 3))
                    late = [x for x in vtn.log[i + 1:] if x.type in ACTIVE or x.type == "oadrRegisterReport"]
                    c.check(not late, "active-after-refusal", lambda: f"re-registration refused at #{done[0]}, then {late}")
                    over = True
            elif op in ("cancel_ven", "cancel_ven_bad"):
                if op == "cancel_ven_bad":
                    def bad(rec):
                        k = r.randrange(4)
                        return [lambda: (500, b""), lambda: (200, b""), lambda: oadr.canceled_party_registration(452, rec.rid, vtn.reg, vtn.ven_id), lambda: oadr.oadr_response(463, rec.rid, vtn.ven_id, "no")][k]()
                    vtn.override["oadrCancelPartyRegistration"] = bad
                else:
                    vtn.override.pop("oadrCancelPartyRegistration", None)
                await cl.cancel_party_registration()
                m = vtn.of("oadrCancelPartyRegistration")
                c.check(len([x for x in m if x.n >= mark]) == 1 and wire.text(m[-1].el, "registrationID") == vtn.reg, "cancellation-message", lambda: f"{m}")
                i = m[-1].n
                n = len(vtn.log)
                if op == "cancel_ven":
                    c.count("cancelled_by_ven")
                    await asyncio.sleep(max(400, step.total_seconds() * 3))
                    late = [x for x in vtn.log[n:] if x.type in ACTIVE]
                    c.check(not late, "active-after-cancellation", lambda: f"cancelled at #{i}, then {late}")
                    over = True
                else:
                    c.count("cancellation_not_acknowledged")
                    await asyncio.sleep(step.total_seconds() + 1)
                    c.check([x for x in vtn.log[n:] if x.type == "oadrPoll"], "stopped-although-not-cancelled", lambda: f"{vtn.log[n:]}")
            elif op in ("cancel_vtn", "cancel_vtn_other"):
                rid = vtn.rid()
                other = op == "cancel_vtn_other"
                vtn.queue.append(oadr.cancel_party_registration(rid, vtn.reg if not other else vtn.reg + r.choice(["x", "-2"]), vtn.ven_id))
                await taken()
                ans = [x for x in vtn.log[mark:] if x.type == "oadrCanceledPartyRegistration"]
                if c.check(len(ans) == 1, "cancellation-not-answered", lambda: f"{vtn.log[mark:]}"):
                    rs = wire.response(ans[0].el)
                    c.check(rs["code"] == (452 if other else 200) and rs["request_id"] == rid, "cancellation-answered-wrongly", lambda: f"{rs} for {rid} other={other}")
                    n = ans[0].n + 1
                    if other:
                        c.count("cancellation_not_for_us")
                        await asyncio.sleep(step.total_seconds() + 1)
                        c.check([x for x in vtn.log[n:] if x.type == "oadrPoll"], "stopped-although-not-cancelled", lambda: f"{vtn.log[n:]}")
                    else:
                        c.count("cancelled_by_vtn")
                        await asyncio.sleep(max(400, step.total_seconds() * 3))
                        late = [x for x in vtn.log[n:] if x.type in ACTIVE]
                        c.check(not late, "active-after-cancellation", lambda: f"cancelled at #{n}, then {late}")
                        c.check(cl.registration_id is None, "registration-kept", lambda: cl.registration_id)
                        over = True
            elif op == "stop":
                await cl.stop()
                c.count("stopped")
                n = len(vtn.log)
                await asyncio.sleep(max(400, step.total_seconds() * 3))
                c.check(len(vtn.log) == n, "active-after-stop", lambda: f"{vtn.log[n:]}")
                over = True
            if over:
                break
        check_ids()
        if "rereg" not in life and "event" not in life and not over:
            check_polls()
        elif over and not {"rereg", "rereg_refused", "event"} & set(map(str, life)):
            check_polls()
        c.count("reports_seen", len(vtn.of("oadrUpdateReport")))
        if not over:
            await cl.stop()
        for e in jobs:
            if not e.startswith("CancelledError"):      # a job that stops the client ends by being cancelled
                c.fail("job-error", e)
        for w in vtn.invalid:
            c.fail("invalid-message-sent", w)
    c.run(body)
    c.sig(life)
    c.sample({"life": life})
