"""P19: every measured value reaches its own report callback once."""
import asyncio, copy
from datetime import datetime, timedelta, timezone
import fabric, gen, oadr, script, wire, world
ID = "P19"
CASES = {"quick": 1800, "thorough": 24000}
RULE = ("end-to-end cases run one real VTN and one to three real VENs with reports of several data points (equal specifier and data point ids at different VENs, incremental and full collection, numbers and lists, slow, asynchronous and failing "
        "measurements, network latency) in virtual time and compare the log of everything the measurement callbacks produced with the log of everything the VTN's callbacks received, per data point and in order; raw cases send reports of many data points, "
        "requests and VENs in every mixture (one or several values per interval, resource states, intervals that take their time from the report), with unknown requests and data points; signature = (mode, intervals, data points per report, callback kinds)")
ASSUME = ["no message is lost; measurement callbacks finish within the sampling interval; VENs use only the request ids they were given", "values of a report that is not complete yet may still be held by the VEN"]
REQUIRED = ["end_to_end", "raw", "values_produced", "values_delivered", "incremental", "full_mode", "failing_measurements", "list_samples", "shared_ids", "unknown_request", "unknown_r_id", "several_reports_in_message", "status_reports", "several_values_in_interval", "resource_status", "interval_without_time", "offered_again"]
UTC = timezone.utc
BASES = [1, 2, 5, 7, 10, 30, 60, 300, 900, 3600, 43200, 86400, 90061]

def value(r):
    return r.choice([lambda: r.randrange(-10 ** 6, 10 ** 6), lambda: round(r.uniform(-1e4, 1e4), r.randrange(7)), lambda: r.random() * 10 ** r.randrange(-12, 15), lambda: r.choice([0, 0.0, -0.5, 1e-7, 1e22, 5e-324, 1.7e308, 10 ** 20])])()

async def end_to_end(c, r, shape):
    net = fabric.Net()
    base = r.choice(BASES)
    lat = r.choice([0, .05, .3])
    net.delayer = lambda ex, ph: r.uniform(0, lat) if lat else 0
    srv = world.server(net, requested_poll_freq=timedelta(seconds=base * r.choice([3, 7])))
    n = r.choice([1, 2, 2, 3])
    def on_reg(info): return f"id of {info['ven_name']}", f"reg of {info['ven_name']}"
    srv.add_handler("on_create_party_registration", on_reg)
    produced, delivered, plan = {}, {}, {}
    running = [True]
    slowcb = r.random() < .3
    def receiver(tag):
        delivered.setdefault(tag, [])
        def cb(values): delivered[tag].append(list(values))
        async def acb(values):
            if slowcb: await asyncio.sleep(r.choice([0, .1, .4]))
            delivered[tag].append(list(values))
        return r.choice([cb, acb])
    form = r.choice(["compact", "full"])
    if form == "compact":
        async def on_register_report(ven_id, resource_id, measurement, unit, scale, min_sampling_interval, max_sampling_interval):
            p = plan[resource_id]
            if p is None: return None
            return (receiver(resource_id), p[0]) if p[1] is None else (receiver(resource_id), p[0], p[1])
    else:
        async def on_register_report(report):
            res = []
            for d in report["report_descriptions"]:
                tag = d["report_data_source"]["resource_id"]
                p = plan[tag]
                if p is not None: res.append((d["r_id"], receiver(tag), p[0]) if p[1] is None else (d["r_id"], receiver(tag), p[0], p[1]))
            return res
    srv.add_handler("on_register_report", on_register_report)
    clients, groups, errs = [], [], []
    shared = r.random() < .6
    if shared and n > 1: c.count("shared_ids")
    longest = 1
    for i in range(n):
        cl = world.client(name=f"v{i}{gen.txt(r, 'pm')}")
        cl.event_status_log_period = cl.events_clean_up_period = max(10, base)     # (speed: nothing here depends on them)
        cl.add_handler("on_event", lambda e: "optIn")
        script.job_errors(cl, errs)
        for j in range(r.choice([1, 1, 2, 3])):
            mode = r.choice(["incremental", "incremental", "full"])
            g = base * r.choice([1, 1, 2, 3])
            k = r.choice([None, 1, 1, 2, 3, 5, .5, 2.5])
            rb = None if k is None else timedelta(seconds=max(1, int(g * k)))
            spec = f"spec{j}" if shared else gen.uid(r, "pnmu")
            name = r.choice(["TELEMETRY_USAGE"] * 3 + ["TELEMETRY_STATUS", "x-mine"][:1])
            if name == "TELEMETRY_STATUS": c.count("status_reports")
            tags, kinds = [], []
            for p in range(r.choice([1, 1, 2, 4])):
                tag = f"{gen.txt(r, 'pmu').strip()} v{i}r{j}p{p}"
                plan[tag] = (timedelta(seconds=g), rb) if r.random() < .85 or p == 0 else None
                produced[tag] = []
                kind = r.choice(["number", "number", "list", "fails", "slow"])
                kinds.append(kind)
                def make(tag=tag, kind=kind, mode=mode, g=g):
                    def sample():
                        if not running[0]: return []
                        if kind == "fails" and r.random() < .4:
                            c.count("failing_measurements")
                            raise r.choice([ValueError("sensor"), KeyError("x"), OSError("bus")])
                        t = datetime.now(UTC)
                        if kind == "list" or mode == "full":
                            m = r.choice([0, 1, 1, 2, 5])
                            vals = [(t - timedelta(seconds=m - x, microseconds=r.randrange(10 ** 6)), value(r)) for x in range(m)]
                            c.count("list_samples")
                            produced[tag] += vals
                            return [(a.astimezone(timezone(timedelta(hours=r.choice([0, 2, -7])))), b) for a, b in vals]
                        v = value(r)
                        produced[tag].append((t, v))
                        return v
                    if mode == "full":
                        def cb(date_from, date_to, sampling_interval): return sample()
                        async def acb(date_from, date_to, sampling_interval):
                            await asyncio.sleep(r.choice([0, g * .3]))
                            return sample()
                    else:
                        def cb(): return sample()
                        async def acb():
                            await asyncio.sleep(r.choice([0, g * .2]) if kind == "slow" else 0)
                            return sample()
                    return acb if kind == "slow" else r.choice([cb, acb])
                extra = {} if name == "TELEMETRY_STATUS" else dict(measurement=r.choice(["voltage", "REAL_POWER", "flow"]), unit=None)
                if extra.get("measurement") == "flow": extra["unit"] = "m3/h"
                cl.add_report(make(), resource_id=tag, report_name=name, report_specifier_id=spec, r_id=f"p{p}" if shared else None, data_collection_mode=mode,
                              sampling_rate=timedelta(seconds=g), **extra)
                tags.append(tag)
            groups.append((mode, g, rb, [t for t in tags if plan[t]], i))
            c.count("incremental" if mode == "incremental" else "full_mode")
            longest = max(longest, g, rb.total_seconds() if rb else 0)
            shape.append((mode, g, k, tuple(kinds), name))
        clients.append(cl)
    await asyncio.gather(*[cl.run() for cl in clients])
    t0 = min(g for _, g, _, _, _ in groups)
    twice = set()
    if r.random() < .3:
        # a VEN offers its reports once more, the VTN requests them once more
        await asyncio.sleep(longest * r.choice([0, .4, 1.3]))
        i = r.randrange(n)
        twice.add(i)
        c.count("offered_again")
        await clients[i].register_reports(clients[i].reports)
    await asyncio.sleep(longest * r.choice([1.2, 2.6]))
    running[0] = False
    await asyncio.sleep(longest + 5 + 2 * lat + t0)
    for mode, g, rb, tags, ven in groups:
        held = 0
        for t in tags:
            got = [x for d in delivered.get(t, []) for x in d]
            want = produced[t]
            c.count("values_produced", len(want)); c.count("values_delivered", len(got))
            if ven in twice: got, rest = sorted(got), sorted(want); want = []
            if ven in twice:
                for a, b in got:
                    k = next((k for k, (x, y) in enumerate(rest) if abs((a - x).total_seconds()) < .002 and float(b) == float(y)), None)
                    want.append(rest.pop(k) if k is not None else (a, None))
                want += rest
            same = len(got) <= len(want) and all(y is not None and abs((a - x).total_seconds()) < .002 and float(b) == float(y) for (a, b), (x, y) in zip(got, want))
            c.check(same, "values-differ", lambda: f"{t!r} ({mode}, every {g} s, report every {rb}, {form}): produced {want[:12]} delivered {delivered.get(t)[:8] if t in delivered else None}")
            held += len(want) - len(got)
        multi = mode == "incremental" and rb is not None and rb > timedelta(seconds=g)
        limit = len(tags) * int(rb.total_seconds() / g) if multi else 1
        if ven in twice: limit = 2 * max(limit, 1) - 1
        c.check(held < max(limit, 1), "values-not-delivered", lambda: f"{tags} ({mode}, every {g} s, report every {rb}): {held} values not delivered, produced {[produced[t][-6:] for t in tags]} delivered {[delivered.get(t)[-3:] if t in delivered else None for t in tags]}")
    for t, p in plan.items():
        c.check(p is not None or not produced[t], "unrequested-data-point-sampled", lambda: f"{t}: {produced[t][:5]}")
    for cl in clients: await cl.stop()

def plain(x): return ("status", bool(x.get("online")), bool(x.get("manual_override"))) if isinstance(x, dict) else float(x)

async def raw(c, r, shape):
    srv = world.server()
    log = []
    fall = []
    async def on_update(report): fall.append(report["report_request_id"])
    srv.add_handler("on_update_report", on_update)
    async def on_register_report(ven_id, resource_id, measurement, unit, scale, min_sampling_interval, max_sampling_interval):
        tag = (ven_id, resource_id)
        def cb(values): log.append((tag, list(values)))
        async def acb(values):
            await asyncio.sleep(r.choice([0, 0, .1]))
            log.append((tag, list(values)))
        return r.choice([cb, acb]), timedelta(seconds=10)
    srv.add_handler("on_register_report", on_register_report)
    vens = [gen.uid(r, "pnmu") for _ in range(r.choice([1, 2, 3]))]
    reqs = []
    for v in vens:
        for _ in range(r.choice([1, 2])):        # a VEN can offer the same reports again: new requests, same ids
            ids = [["a", "b", "7", "07", gen.uid(r, "nmu")][:r.choice([1, 2, 5])] for _ in range(r.choice([1, 2]))]
            offers = [oadr.report_offer(f"s{k}", "METADATA_TELEMETRY_USAGE", [dict(r_id=x, source=[("resource_id", f"{len(reqs) + k}/{x}")], measurement=dict(name="voltage", description="Voltage", unit="V"), min=timedelta(seconds=1), max=timedelta(seconds=100)) for x in xs]) for k, xs in enumerate(ids)]
            a = await world.post(srv, "EiReport", oadr.register_report("r", v, offers))
            got = wire.report_requests(a.el)
            if not c.check(len(got) == len(ids), "not-requested", lambda: f"{a} {a.body}"): return
            reqs += [(v, q["id"], q["specifier"], {x: (v, f"{len(reqs) + k}/{x}") for x in xs}) for k, (q, xs) in enumerate(zip(got, ids))]
    async def send(v, mine):
        reports, want = [], {}
        n = r.choice([1, 1, 2, 3])
        if n > 1: c.count("several_reports_in_message")
        for _ in range(n):
            v_, q, s, ids = r.choice(mine)
            groups = []
            unknown = r.random() < .15
            several = r.random() < .4
            start = r.choice([None, gen.when(r)])
            if unknown: c.count("unknown_request")
            for _ in range(r.choice([0, 1, 2, 5, 12])):
                t = gen.when(r) if start is None or r.random() < .7 else None
                if t is None: c.count("interval_without_time")
                ps = []
                for _ in range(r.choice([1, 2, 3, 5]) if several else 1):
                    x = r.choice(list(ids))
                    if r.random() < .1:
                        c.count("unknown_r_id"); x = "zz" + x
                    if r.random() < .12:
                        c.count("resource_status")
                        st = dict(online=r.choice(["true", "false", "1", "0"]), manual=r.choice(["true", "false", "1", "0"]))
                        if r.random() < .6: st["state"] = {k: {n: str(round(r.uniform(-9, 9), 2)) for n in ("Min", "Max", "Current", "Normal") if n == "Current" or r.random() < .5} for k in ("Capacity", "LevelOffset", "PercentOffset", "SetPoint") if r.random() < .5}
                        ps.append((x, st)); got = ("status", st["online"] in ("true", "1"), st["manual"] in ("true", "1"))
                    else:
                        val = value(r)
                        ps.append((x, r.choice([repr(val), str(float(val))]))); got = float(val)
                    if x in ids and not unknown: want.setdefault(ids[x], []).append((t or start, got))
                if len(ps) > 1: c.count("several_values_in_interval")
                groups.append((t, r.choice([None, gen.dur(r)]), ps))
            qq = q if not unknown else r.choice(["0", "none-such", q + "x", q[:-1], "12345"])
            el = oadr.report_groups(qq, r.choice([s, "other"]) if not unknown else s, groups, start=start)
            bad = wire.invalid(oadr.msg(oadr.update_report("u", v, [copy.deepcopy(el)])))
            if bad is not None: c.fail("harness", bad); continue
            reports.append(el)
            vals = groups
            shape.append(("raw", len(vals), unknown))
        return oadr.update_report("u", v, reports), want
    for _ in range(r.choice([3, 8])):
        vs = r.sample(vens, r.randrange(1, len(vens) + 1))
        pre = len(log)
        batch = [await send(v, [q for q in reqs if q[0] == v]) for v in vs]
        answers = await asyncio.gather(*[world.post(srv, "EiReport", el) for el, _ in batch])
        for (el, want), a in zip(batch, answers):
            c.check(a.status == 200 and a.type == "oadrUpdatedReport" and a.code == 200, "not-acknowledged", lambda: f"{a} {a.body} to {oadr.msg(el)}")
        got = {}
        for tag, vals in log[pre:]: got.setdefault(tag, []).extend((t, plain(x)) for t, x in vals)
        want = {}
        for _, w in batch: want.update(w)
        c.count("values_delivered", sum(map(len, got.values())))
        c.check(got == want, "values-differ", lambda: f"got {got} want {want} from {[oadr.msg(el)[:3000] for el, _ in batch]}")
        c.check(not fall, "values-differ", lambda: f"{fall}")

def case(c):
    r = c.rng
    shape = []
    async def body(loop):
        if r.random() < .6:
            c.count("end_to_end"); await end_to_end(c, r, shape)
        else:
            c.count("raw"); await raw(c, r, shape)
    c.run(body)
    c.sig(shape)
    c.sample({"reports": [repr(x) for x in shape[:6]]})
