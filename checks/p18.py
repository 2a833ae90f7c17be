"""P18: the VTN asks for exactly the reports its operator chose."""
import asyncio
from datetime import datetime, timedelta, timezone
import gen, oadr, wire, world
ID = "P18"
CASES = {"quick": 4000, "thorough": 50000}
RULE = ("each case is a VTN with a report handler in the compact or full form (plain, async, mixed, slow) that answers each data point with nothing, a valid request or one of many invalid results, and several VENs that offer "
        "random collections of reports (usage, status, history, undefined names; with and without data points, limits, measurements, resources; ids shared between reports), one after another or together; the handler calls and the answer are "
        "compared with the offers and decisions, and a value is sent for every data point of every request to see that exactly its own callback is registered; signature = (form, per report: name, per data point decision)")
ASSUME = ["a report has one sampling interval: when the handler chose several for one report, the shortest applies (documented behaviour)"]
REQUIRED = ["compact", "full", "requested", "declined", "invalid_results", "invalid_next_to_valid", "history", "unknown_names", "status_reports", "no_data_points", "concurrent", "unoffered_ids", "mixed_intervals", "four_tuples", "values_delivered"]
UTC = timezone.utc
tup = lambda xs: tuple(sorted(xs))
NAMES = ["METADATA_TELEMETRY_USAGE"] * 5 + ["METADATA_TELEMETRY_STATUS"] * 2 + ["METADATA_HISTORY_USAGE", "METADATA_HISTORY_GREENBUTTON", "x-METADATA_CUSTOM"]
MEAS = [None] + [dict(name=n, description=d, unit=u, scale=s, power=p) for n, d, u, s, p in [
    ("voltage", "Voltage", "V", "k", None), ("powerReal", "RealPower", "W", "none", (50, 230, True)), ("energyReal", "RealEnergy", "Wh", "M", None),
    ("temperature", "temperature", "celsius", "none", None), ("customUnit", "flow & more", "m3/h", "c", None), ("powerApparent", "ApparentPower", "VA", "G", (60.0, 110.5, False))]]

def case(c):
    r = c.rng
    shape = []
    async def body(loop):
        srv = world.server()
        form = r.choice(["compact", "full"])
        c.count(form)
        style = r.choice(["plain", "async", "mixed", "slow"])
        rate = r.choice([0, .3, .7])
        calls, delivered = [], []
        decide = {}
        def mkcb(tag):
            if r.random() < .5:
                def cb(values): delivered.append((tag, list(values)))
            else:
                async def cb(values): delivered.append((tag, list(values)))
            return cb
        def valid(tag, base):
            s = base if r.random() < .8 else gen.dur(r, 1, 7200)
            return (mkcb(tag), s) if r.random() < .5 else (mkcb(tag), s, gen.dur(r, 1, 86400))
        def pick(tag, base):
            """(decision kind, what the compact handler returns)"""
            x = r.random()
            if x < rate:
                cb, s = mkcb(tag), base
                bad = r.choice([(cb,), (cb, s, s, s), ("cb", s), (cb, 10), (cb, "PT10S"), (cb, s, 60), (cb, s, None), (None, s), (), "x", 5, True, [cb, s], {"a": 1}, (cb, s, "x")])
                return "bad", bad
            if x < rate + (1 - rate) * .35: return "none", None
            return "ok", valid(tag, base)
        async def wait(x):
            await asyncio.sleep(r.choice([0, 0, .01, .5]) if style == "slow" else 0)
            return x
        def how(x):
            if style == "plain" or style == "mixed" and r.random() < .5: return x
            return wait(x)
        if form == "compact":
            def on_register_report(ven_id, resource_id, measurement, unit, scale, min_sampling_interval, max_sampling_interval):
                k = (ven_id, resource_id, measurement, unit, scale, min_sampling_interval, max_sampling_interval)
                calls.append(k)
                return how(decide[k].pop(0)[1])
            if style in ("async", "slow"):
                async def on_register_report(ven_id, resource_id, measurement, unit, scale, min_sampling_interval, max_sampling_interval):
                    k = (ven_id, resource_id, measurement, unit, scale, min_sampling_interval, max_sampling_interval)
                    calls.append(k)
                    return await wait(decide[k].pop(0)[1])
        else:
            def full(report):
                calls.append((report["report_specifier_id"], report["report_name"], tuple(d["r_id"] for d in report.get("report_descriptions") or [])))
                return decide[report["report_specifier_id"]]
            if style in ("async", "slow"):
                async def on_register_report(report): return await wait(full(report))
            else:
                def on_register_report(report): return how(full(report))
        srv.add_handler("on_register_report", on_register_report)
        vens = [gen.uid(r, "pnmu") for _ in range(2)]
        all_req = {}
        k = [0]
        answers = []
        async def one():
            v = r.choice(vens)
            reports, expect = [], []
            shared = gen.uid(r, "pn")
            for _ in range(r.choice([0, 1, 1, 2, 3, 5])):
                k[0] += 1
                name = r.choice(NAMES)
                spec = gen.uid(r, "pnmu")
                n = r.choice([0, 1, 1, 2, 3, 4, 6])
                if not n: c.count("no_data_points")
                base = gen.dur(r, 1, 7200)
                descs = []
                for j in range(n):
                    m = r.choice(MEAS) if name != "METADATA_TELEMETRY_STATUS" else None
                    d = dict(r_id=gen.uid(r, "pnmu") if r.random() < .8 or j else shared, source=r.choice([None, [("resource_id", f"{gen.txt(r, 'pnmu').strip()} r{k[0]}.{j}")], [("ven_id", "x"), ("resource_id", f"r{k[0]}.{j}")], [("group_id", "g")]]), measurement=m,
                             reading=r.choice(["Direct Read", "Net", "x-custom", "Mean", "Peak"]), type=r.choice(["reading", "usage", "x-resourceStatus", "demand"]), market_context=r.choice([None, "http://mc"]))
                    if r.random() < .8: d["min"], d["max"], d["on_change"] = gen.dur(r, 1, 3600), gen.dur(r, 3600, 86400), r.random() < .5
                    descs.append(d)
                offered = list(descs)
                supported = name in ("METADATA_TELEMETRY_USAGE", "METADATA_TELEMETRY_STATUS")
                c.count("history" if "HISTORY" in name else "unknown_names" if not supported else "status_reports" if "STATUS" in name else "usage_reports")
                pts = []
                tags = [(v, spec, d["r_id"]) for d in descs]
                dk = [pick(t, base) for t in tags]
                whole = None
                if form == "compact":
                    for d, (q, ret) in zip(descs, dk):
                        res = dict(d["source"] or []).get("resource_id")
                        m = d["measurement"] or {}
                        key = (v, res, "Status", None, None, d.get("min"), d.get("max")) if "STATUS" in name else (v, res, m.get("description"), m.get("unit"), m.get("scale"), d.get("min"), d.get("max"))
                        if supported and key in decide:       # tell the data points apart by their limits
                            k[0] += 1
                            d["min"], d["max"], d["on_change"] = timedelta(days=100, seconds=k[0]), timedelta(days=200), False
                            key = key[:5] + (d["min"], d["max"])
                        if supported: decide.setdefault(key, []).append((q, ret)); d["key"] = key
                else:
                    items = []
                    order = list(zip(descs, dk))
                    if r.random() < .3: r.shuffle(order)
                    for d, (q, ret) in order:
                        if q == "none":
                            if r.random() < .3: items.append(None)
                        elif q == "bad": items.append((d["r_id"], *ret) if isinstance(ret, tuple) else ret)
                        else: items.append((d["r_id"], *ret))
                    if r.random() < .15:
                        c.count("unoffered_ids"); items.insert(r.randrange(len(items) + 1), ("no-such-id " + gen.txt(r, "pm"), mkcb("unoffered"), base))
                    whole = items
                    x = r.random()
                    if x < .08: whole = None
                    elif x < .16:
                        whole = r.choice([tuple(items), {}, "x", 5, {d["r_id"]: 1 for d in descs}])
                        c.count("invalid_results")
                    decide[spec] = whole
                    if not isinstance(whole, list): dk = [("none", None)] * n
                    else: descs_o = [d for d, _ in order]; dk = [q for _, q in order]; descs = descs_o
                want = [(d, ret) for d, (q, ret) in zip(descs, dk) if q == "ok"] if supported else []
                if form == "compact" and supported or isinstance(whole, list) and supported:
                    nb = sum(q == "bad" for q, _ in dk)
                    if nb: c.count("invalid_results", nb); c.count("invalid_next_to_valid", bool(want))
                    c.count("declined", sum(q == "none" for q, _ in dk))
                reports.append(oadr.report_offer(spec, name, offered))
                shape.append((form, name, tuple(q for q, _ in dk)))
                expect.append((spec, name, descs, want, supported, whole))
            el = oadr.register_report("rid" + str(k[0]), v, reports)
            a = await world.post(srv, "EiReport", el)
            answers.append((v, expect, a))
        def judge(v, expect, a):
            what = lambda: f"{form}/{style} from {v!r} offers {[(s, n, [d['r_id'] for d in ds], [(d['r_id'], x[1:]) for d, x in w], wh) for s, n, ds, w, _, wh in expect]}: {a} {a.body[-2500:]}"
            if not c.check(a.status == 200 and a.bad is None and a.type == "oadrRegisteredReport" and a.code == 200, "offer-not-answered", what): return
            got = wire.report_requests(a.el)
            exp = [(s, w) for s, n, ds, w, _, _ in expect if w]
            if not c.check([q["specifier"] for q in got] == [s for s, _ in exp], "wrong-reports-requested", what): return
            for q, (s, w) in zip(got, exp):
                c.count("requested", len(w))
                c.check(q["payloads"] == [(d["r_id"], d["reading"]) for d, _ in w], "wrong-data-points-requested", lambda: f"{q} {what()}")
                c.check(q["id"] and q["id"] not in all_req, "request-id-not-unique", what)
                ss = {x[1] for _, x in w}
                if len(ss) > 1: c.count("mixed_intervals")
                bs = {x[2] if len(x) == 3 else x[1] for _, x in w}
                if any(len(x) == 3 for _, x in w): c.count("four_tuples")
                c.check(q["granularity"] == min(ss), "wrong-sampling-interval", lambda: f"{q} {what()}")
                c.check(q["back"] in bs or len(ss) > 1 and q["back"] == min(ss), "wrong-reporting-interval", lambda: f"{q} {what()}")
                all_req[q["id"]] = (v, s, [d["r_id"] for d, _ in w])
        for _ in range(r.choice([1, 2, 4])):
            m = r.choice([1, 1, 3])
            if m > 1: c.count("concurrent", m)
            n0 = len(answers); c0 = len(calls)
            await asyncio.gather(*[one() for _ in range(m)])
            exp = [e for _, ex, _ in answers[n0:] for e in ex]
            if form == "compact": want = [d["key"] for e in exp if e[4] for d in e[2]]
            else: want = [(e[0], e[1], e[2]) for e in exp if e[4]]; want = [(s, n, tup(d["r_id"] for d in ds)) for s, n, ds in want]
            got = calls[c0:] if form == "compact" else [(s, n, tup(x)) for s, n, x in calls[c0:]]
            c.check(sorted(map(str, got)) == sorted(map(str, want)), "handler-not-consulted-once", lambda: f"{form} got {got} want {want}")
            for x in answers[n0:]: judge(*x)
        t = datetime.now(UTC)
        for q, (v, s, ids) in all_req.items():
            others = [x for o in all_req.values() for x in o[2] if x not in ids]
            for x in ids:
                n0 = len(delivered)
                val = round(r.uniform(-100, 100), 3)
                a = await world.post(srv, "EiReport", oadr.update_report("u", v, [oadr.report_data(q, s, [(x, t, val)])]))
                c.count("values_delivered")
                c.check(delivered[n0:] == [((v, s, x), [(t, val)])], "wrong-callback", lambda: f"value for {(v, s, x)} of request {q} went to {delivered[n0:]}")
            if others:
                n0 = len(delivered)
                await world.post(srv, "EiReport", oadr.update_report("u", v, [oadr.report_data(q, s, [(r.choice(others), t, 1.0)])]))
                c.check(not delivered[n0:], "wrong-callback", lambda: f"{delivered[n0:]}")
    c.run(body)
    c.sig(shape)
    c.sample({"reports": [repr(x) for x in shape[:8]]})
