"""P27: opt schedules at the VEN reflect what the VTN acknowledged."""
import asyncio
from datetime import datetime, timedelta, timezone
import fabric, gen, oadr, script, wire, world
ID = "P27"
CASES = {"quick": 4000, "thorough": 24000}
RULE = ("each case runs a registered or unregistered real VEN that creates and cancels opts with random types, reasons, availabilities, event references, targets and ids, one at a time or overlapping, "
        "against a scripted VTN that acknowledges, refuses, answers wrongly, garbles or loses answers; each message is compared with the arguments and each result and the later "
        "cancellability with what the VTN answered; signature = the sequence of (operation, shape of arguments, answer kind, result)")
ASSUME = ["an opt whose creation was not acknowledged may or may not be cancellable"]
REQUIRED = ["cancelled_twice_at_once", "created", "create_failures", "cancelled", "cancel_failures", "unknown_cancels", "with_availability", "with_event", "with_targets"]
UTC = timezone.utc

def setup():
    global objects, enums
    from openleadr import objects, enums

def answer(r, good):
    """(kind, fault or None, answer function or None)"""
    k = r.choice(["ack"] * 6 + ["code", "error", "http", "empty", "garbage", "other", "refuse", "drop_response", "disconnect", "read_error", "httpack", "noid"])
    def f(rec):
        oid = wire.text(rec.el, "optID")
        if k == "ack": return good(rec.rid, oid)
        if k == "code": return good(rec.rid, oid, r.choice([400, 452, 463, 500]))
        if k in ("error", "noid"): return oadr.oadr_response(200 if k == "noid" else r.choice([452, 459, 463]), rec.rid, "v", "an error")
        if k == "http": return r.choice([500, 404, 403]), b"no"
        if k == "httpack": return 500, oadr.msg(good(rec.rid, oid))
        if k == "empty": return 200, b""
        if k == "garbage": return 200, oadr.msg(good(rec.rid, oid))[:-r.randrange(1, 80)]
        if k == "other": return r.choice([oadr.request_reregistration("v"), oadr.updated_report(rec.rid), oadr.distribute_event(rec.rid, [])])
        return good(rec.rid, oid)
    return k, ((k,) if k in ("refuse", "drop_response", "disconnect", "read_error") else None), f

def case(c):
    r = c.rng
    shape = []
    async def body(loop):
        net = fabric.Net()
        vtn = script.ScriptVTN(net, ven_id=gen.uid(r, "pnmu"))
        cl = world.client()
        if r.random() < .5:
            await cl.create_party_registration()
        else:
            cl.ven_id = vtn.ven_id
        vtn.log.clear()
        plan = {}          # opt id in the message -> answer kind
        async def faulter(ex):
            return plan.get(wire.text(wire.message(ex.req)[1], "optID"), (None, None, None))[1] if ex.service == "EiOpt" else None
        net.faulter = faulter
        def serve(rec):
            return plan[wire.text(rec.el, "optID")][2](rec)
        vtn.override["oadrCreateOpt"] = serve
        vtn.override["oadrCancelOpt"] = serve
        vtn.override["oadrResponse"] = None
        del vtn.override["oadrResponse"]
        known = {}         # opt id -> acknowledged creation?
        busy = set()
        async def create():
            opt_id = gen.uid(r, "pnmu") if r.random() < .7 else None
            rid = gen.uid(r, "pn") if r.random() < .5 else None
            ev = r.random() < .5
            kw = dict(opt_type=r.choice(["optIn", "optOut"]), opt_reason=r.choice(list(enums.OPT_REASON.values)))
            comps = [(gen.when(r).replace(microsecond=0), gen.dur(r)) for _ in range(r.choice([1, 1, 2, 3]))]
            mod = None
            if ev:
                kw["event_id"] = gen.uid(r, "pnmu")
                mod = r.choice([None, 0, 3])
                if mod is not None:
                    kw["modification_number"] = mod
                c.count("with_event")
            else:
                kw["vavailability"] = objects.Vavailability(components=[objects.VavailabilityComponent(dtstart=a, duration=d) for a, d in comps])
                c.count("with_availability")
            t = [] if r.random() < .15 else [(k, gen.txt(r, "pnmu")) for k in r.sample(["group_id", "group_name", "resource_id", "ven_id", "party_id"], r.choice([1, 1, 2, 3]))]
            # one target may hold several ids
            kw["targets"] = [objects.Target(**dict(t)) if r.random() < .6 else dict(t)] if t else []
            c.count("with_targets", bool(t))
            mc = r.choice([None, "http://mc", "http://mc/a?b=1&c=2"])
            if mc: kw["market_context"] = mc
            mrid = r.choice([None, None, "Thermostat", "x-own"])
            if mrid: kw["signal_target_mrid"] = mrid
            if opt_id: kw["opt_id"] = opt_id
            if rid: kw["request_id"] = rid
            k = answer(r, oadr.created_opt)
            key = opt_id
            if key is None:
                class Any(dict):
                    pass
                # the id is chosen by the library: plan by default
                plan.setdefault(None, k)
            else:
                plan[key] = k
            n0 = len(vtn.log)
            nl0 = len(net.log)
            if key is None:
                plan_get = plan
                # all unknown ids of this moment get this plan
                vtn.override["oadrCreateOpt"] = lambda rec: (plan.get(wire.text(rec.el, "optID")) or k)[2](rec)
                async def f2(ex):
                    if ex.service != "EiOpt": return None
                    return (plan.get(wire.text(wire.message(ex.req)[1], "optID")) or k)[1]
                net.faulter = f2
            res = await cl.create_opt(**kw)
            mine = [e for e in net.log[nl0:] if e.service == "EiOpt" and wire.message(e.req)[0] == "oadrCreateOpt" and (key is None or wire.text(wire.message(e.req)[1], "optID") == key)]
            if not c.check(len(mine) == 1, "not-exactly-one-message", lambda: f"{len(mine)} messages for {kw}"):
                return
            bad = wire.invalid(mine[0].req)
            c.check(bad is None, "invalid-message", lambda: f"{bad}: {kw} {mine[0].req}")
            el = wire.message(mine[0].req)[1]
            oid = wire.text(el, "optID")
            got = dict(opt_id=oid, type=wire.text(el, "optType"), reason=wire.text(el, "optReason"), ven=wire.text(el, "venID"), rid=wire.text(el, "requestID"), mc=wire.text(el, "marketContext"),
                       event=wire.text(el, "qualifiedEventID", "eventID"), mod=wire.text(el, "qualifiedEventID", "modificationNumber"), mrid=wire.text(el, "oadrDeviceClass", "endDeviceAsset", "mrid") or wire.text(el, "oadrDeviceClass", "mrid"),
                       targets=sorted(x for e in wire.kids(el, "eiTarget") for x in wire.targets(e)),
                       av=[(wire.dt(wire.text(a, "properties", "dtstart", "date-time")), wire.dur(wire.text(a, "properties", "duration", "duration"))) for a in (wire.kids(wire.first(el, "vavailability", "components"), "available") if wire.first(el, "vavailability") is not None else [])])
            want = dict(opt_id=opt_id or oid, type=kw["opt_type"], reason=kw["opt_reason"], ven=vtn.ven_id, rid=rid or got["rid"], mc=mc, event=kw.get("event_id"), mod=str(mod or 0) if ev else None, mrid=mrid,
                        targets=sorted((a, b.strip()) for a, b in t), av=[] if ev else [(a.astimezone(UTC), d) for a, d in comps])
            c.check(got == want and oid and got["rid"], "message-differs-from-arguments", lambda: f"{ {k: (got[k], want[k]) for k in got if got[k] != want[k]} }")
            ok = k[0] == "ack"
            c.count("created" if ok else "create_failures")
            c.check(res == oid if ok else not res, "wrong-result", lambda: f"create_opt returned {res!r} for answer {k[0]}; opt id {oid!r}")
            known[oid] = ok
            shape.append(("create", ev, len(t), k[0], bool(res)))
        async def cancel():
            ids = [x for x in known if x not in busy]
            if not ids or r.random() < .2:
                oid = gen.uid(r, "pnmu") if r.random() < .7 else "gone"
                if r.random() < .3 and gone:
                    oid = r.choice(gone)
                if oid in known:
                    return
                n = len(net.log)
                res = await cl.cancel_opt(oid)
                c.count("unknown_cancels")
                c.check(not res and not [e for e in net.log[n:] if e.service == "EiOpt" and wire.text(wire.message(e.req)[1], "optID") == oid], "unknown-opt-cancelled", lambda: f"{oid!r} -> {res!r} {net.log[n:]}")
                shape.append(("unknown",))
                return
            oid = r.choice(ids)
            busy.add(oid)
            k = plan[oid] = answer(r, oadr.canceled_opt)
            n = len(net.log)
            twice = k[1] is None and r.random() < .15
            if twice:
                # asked for twice at the same time: the two answers are equal, neither call fails
                c.count("cancelled_twice_at_once")
                both = await asyncio.gather(cl.cancel_opt(oid), cl.cancel_opt(oid), return_exceptions=True)
                if not c.check(not any(isinstance(x, Exception) for x in both) and (k[0] == "ack") == any(both), "cancel-raises", lambda: f"cancel_opt twice at once, answer {k[0]}: {both}"): return
                res = any(both)
            else: res = await cl.cancel_opt(oid)
            mine = [e for e in net.log[n:] if e.service == "EiOpt" and wire.message(e.req)[0] == "oadrCancelOpt" and wire.text(wire.message(e.req)[1], "optID") == oid]
            if not mine and not known[oid]:
                known.pop(oid); busy.discard(oid)
                return
            if c.check(len(mine) == 1 or twice and len(mine) == 2, "not-exactly-one-cancellation", lambda: f"{len(mine)} messages for {oid!r}"):
                bad = wire.invalid(mine[0].req)
                c.check(bad is None, "invalid-message", lambda: f"{bad}: {mine[0].req}")
                c.check(wire.text(wire.message(mine[0].req)[1], "venID") == vtn.ven_id, "wrong-ven-id", mine[0].req)
            ok = k[0] == "ack"
            c.count("cancelled" if ok else "cancel_failures")
            c.check(bool(res) == ok, "wrong-result", lambda: f"cancel_opt returned {res!r} for answer {k[0]}")
            have = [o.opt_id for o in cl.opts]
            c.check((oid in have) == (not ok), "opt-forgotten-wrongly", lambda: f"{oid!r} answer {k[0]}: opts now {have}")
            if ok:
                known.pop(oid)
                gone.append(oid)
            else:
                known[oid] = True
            busy.discard(oid)
            shape.append(("cancel", k[0], bool(res)))
        gone = []
        conc = r.random() < .3
        for _ in range(r.choice([4, 8, 16])):
            if conc and r.random() < .5:
                # several at once, each with its own id
                ts = [asyncio.ensure_future(cancel()) for _ in range(r.choice([2, 3]))]
                await asyncio.gather(*ts)
            elif r.random() < .5:
                await create()
            else:
                await cancel()
            have = [o.opt_id for o in cl.opts]
            c.check(all(x in have for x, ok in known.items() if ok), "opt-lost", lambda: f"{known} {have}")
        for w in vtn.invalid:
            c.fail("invalid-message-sent", w)
    c.run(body)
    c.sig(shape)
    c.sample({"operations": shape[:12]})
