"""P20: reports are sampled and sent on schedule until cancelled."""
import asyncio
from datetime import datetime, timedelta, timezone
import fabric, gen, oadr, script, wire, world
ID = "P20"
CASES = {"quick": 2400, "thorough": 24000}
RULE = ("each case is a real VEN with several reports (incremental and full collection, various sampling limits) and a scripted VTN that requests them at registration and later, with valid and invalid data points, units, specifiers and sampling "
        "rates, periodic and one-off (immediate, future, past), overlapping requests for the same data points, and cancels them one by one or together, in poll answers and in answers to reports; the times of all samples and the content and times of all reports "
        "are checked against the requested intervals in virtual time; signature = (collection mode, intervals, validity, way of cancellation)")
ASSUME = ["the requests use distinct request ids", "at a cancellation the VEN may take one last sample (two if a report is to follow) before it acknowledges (existing behaviour)", "no message is lost"]
REQUIRED = ["periodic", "one_off", "one_off_future", "one_off_past", "full_mode", "combined", "invalid_requests", "partly_invalid", "cancelled_by_poll", "cancelled_by_answer", "cancelled_together", "cancelled_unknown", "to_follow", "reports", "samples", "overlapping", "days"]
UTC = timezone.utc
TOL = .05
S = lambda x: timedelta(seconds=x)

def case(c):
    r = c.rng
    shape = []
    async def body(loop):
        net = fabric.Net()
        lat = r.choice([0, 0, .01, .02])
        net.delayer = lambda ex, ph: lat
        base = r.choice([1, 2, 5, 7, 10, 13, 30, 45, 60, 300, 600, 3600, 43200, 86400, 90000])
        if base > 43200: c.count("days")
        vtn = script.ScriptVTN(net, freq=S(r.choice([1, 3, 10]) * max(1, base // 4)), ven_id=gen.uid(r, "pnmu"))
        cl = world.client()
        cl.event_status_log_period = cl.events_clean_up_period = max(10, base)     # (speed: nothing here depends on them)
        errs = []
        script.job_errors(cl, errs)
        cl.add_handler("on_event", lambda e: "optIn")
        calls = {}         # (spec, r_id) -> [(time, values, args)]
        val = [0]
        offers = {}        # spec -> dict(mode, points {r_id: (min, max, measurement)})
        for j in range(r.choice([1, 2, 3])):
            spec = gen.uid(r, "pnmu")
            mode = r.choice(["incremental", "incremental", "full"])
            if mode == "full": c.count("full_mode")
            pts = {}
            name = r.choice(["TELEMETRY_USAGE", "TELEMETRY_USAGE", "TELEMETRY_STATUS", "HISTORY_USAGE"])
            for p in range(r.choice([1, 2, 3])):
                rid = gen.uid(r, "pnmu")
                key = (spec, rid)
                calls[key] = []
                def make(key=key, mode=mode):
                    if mode == "incremental":
                        def cb():
                            val[0] += 1
                            calls[key].append((datetime.now(UTC), [val[0]], None)); return val[0]
                    else:
                        def cb(date_from, date_to, sampling_interval):
                            vs = []
                            for i in range(r.choice([0, 1, 3])):
                                val[0] += 1
                                vs.append((date_from + S(i), val[0]))
                            calls[key].append((datetime.now(UTC), [v for _, v in vs], (date_from, date_to, sampling_interval))); return vs
                    async def acb(**kw): return cb(**kw)
                    if mode == "full":
                        async def acb(date_from, date_to, sampling_interval): return cb(date_from, date_to, sampling_interval)
                    return r.choice([cb, acb])
                lo, hi = r.choice([(base, base), (base, base * 4), (base * 2, base * 3), (1, 10 ** 6)])
                m = r.choice([("voltage", "Voltage", "V"), ("temperature", "temperature", "celsius")]) if name != "TELEMETRY_STATUS" else None
                from openleadr import objects
                cl.add_report(make(), resource_id=f"res{j}{p}", report_specifier_id=spec, r_id=rid, report_name=name, data_collection_mode=mode,
                              sampling_rate=objects.SamplingRate(min_period=S(lo), max_period=S(hi), on_change=False), **({"measurement": m[0], "unit": m[2]} if m else {}))
                pts[rid] = (lo, hi, m)
            offers[spec] = dict(mode=mode, points=pts, name=name)
        reqs = {}
        n = [0]
        def request():
            n[0] += 1
            rrid = r.choice([f"rr{n[0]}", gen.uid(r, "pnmu")])
            spec = r.choice(list(offers)) if r.random() < .9 else "no such report"
            off = offers.get(spec, dict(mode=None, points={}, name=None))
            g = base * r.choice([1, 1, 2, 3])
            if r.random() < .12: g = r.choice([g + 86400, g + 864000, base * 4, base * 4 + 1, max(1, base - 1), g * 2 + 86400])
            rb = r.choice([g, g, 2 * g, 3 * g, int(2.5 * g), 4 * g, max(1, g // 2)])
            one = r.random() < .25
            start = None
            if one:
                c.count("one_off")
                g, rb = r.choice([(0, 0), (0, 0), (0, g), (g, 0)])
                x = r.random()
                if x < .35: start = datetime.now(UTC) + S(r.choice([base * 2, base * 3 + .25])); c.count("one_off_future")
                elif x < .6: start = datetime.now(UTC) - S(r.choice([5, 86400])); c.count("one_off_past")
            pay, good = [], []
            ids = r.sample(list(off["points"]), r.randrange(1, len(off["points"]) + 1)) if off["points"] else ["whatever"]
            for rid in ids:
                lo, hi, m = off["points"].get(rid, (1, 1, None))
                req_m = None
                ok = rid in off["points"] and (g == 0 or lo <= g <= hi)
                x = r.random()
                if x < .12:
                    near = [y for y in (rid.swapcase(), rid.upper(), rid.lower(), rid.title(), rid[:-1], rid + "0", "0" + rid, rid[1:], rid[::-1]) if y and y not in off["points"] and y == y.strip()]
                    rid = r.choice(near + [rid + "x"]); ok = False
                    if rid in [y for y, _, _ in pay] or any(rid == y for y in ids): rid += "xx"
                elif x < .3 and m: req_m = dict(name=m[0], description=m[1], unit=m[2])
                elif x < .36: req_m = dict(name="temperature", description="temperature", unit="fahrenheit"); ok = False
                elif x < .42: req_m = dict(name="current", description="Current", unit="A"); ok = False
                pay.append((rid, "Direct Read", req_m))
                if ok: good.append(rid)
            if not good: c.count("invalid_requests")
            elif len(good) < len(pay): c.count("partly_invalid")
            if len(good) > 1: c.count("combined")
            q = dict(id=rrid, spec=spec, g=g, rb=rb, ids=good, mode=off["mode"], one=one, start=start, T=None, C=None, ack=None, last=0, name=off["name"])
            if good and not one: c.count("periodic")
            reqs[rrid] = q
            shape.append((off["mode"], g // base, round(rb / g, 1) if g else 0, len(good), len(pay), start is not None))
            return q, oadr.report_request(rrid, spec, S(g), S(rb), pay, start, S(0) if start else None)
        expect_created = []
        def some():
            qs = [request() for _ in range(r.choice([1, 1, 2, 3]))]
            return [q for q, _ in qs], [e for _, e in qs]
        if r.random() < .7:
            def registered(rec):
                qs, els = some()
                expect_created.append(([q["id"] for q in qs], rec.rid))
                for q in qs: q["T"] = datetime.now(UTC)
                return oadr.registered_report(rec.rid, els, vtn.ven_id)
            vtn.override["oadrRegisterReport"] = registered
        answers = []        # cancellations to put into the next answer to a report
        crid = [0]
        def mark(ids, follow, rid):
            for i in ids:
                q = reqs.get(i)
                if q and q["C"] is None:
                    q["C"], q["last"] = datetime.now(UTC), 2 if follow else 1
                    q["crid"] = rid
        def updated(rec):
            if answers:
                ids, follow = answers.pop(0)
                crid[0] += 1
                rid = f"cancel{crid[0]}"
                mark(ids, follow, rid)
                return oadr.updated_report(rec.rid, vtn.ven_id, (rid, ids, follow, r.choice([None, vtn.ven_id])))
            return None
        vtn.override["oadrUpdateReport"] = updated
        await cl.run()
        for _ in range(r.choice([1, 2, 4])):
            await asyncio.sleep(base * r.choice([.4, 2, 3.3, 7]))
            op = r.choice(["create", "create", "cancel_poll", "cancel_answer", "unknown"])
            live = [q for q in reqs.values() if q["C"] is None and q["T"] and not q.get("sched")]
            if op == "create":
                def create(rec):
                    qs, els = some()
                    for q in qs: q["T"] = datetime.now(UTC)
                    rid = gen.uid(r, "pn")
                    expect_created.append(([q["id"] for q in qs], rid))
                    return oadr.create_report(rid, vtn.ven_id, els)
                vtn.queue.append(create)
            elif op == "unknown":
                c.count("cancelled_unknown")
                vtn.queue.append(oadr.cancel_report("cu", ["not-a-report"], r.random() < .5, vtn.ven_id))
            elif live:
                qs = r.sample(live, min(len(live), r.choice([1, 1, 2, 3])))
                ids = [q["id"] for q in qs]
                for q in qs: q["sched"] = True
                if len(ids) > 1: c.count("cancelled_together")
                if r.random() < .2: ids.insert(r.randrange(len(ids) + 1), "unknown-id")
                follow = r.random() < .25
                if follow: c.count("to_follow")
                shape.append((op, len(ids), follow))
                if op == "cancel_answer": c.count("cancelled_by_answer"); answers.append((ids, follow))
                else:
                    c.count("cancelled_by_poll")
                    def cancel(rec, ids=ids, follow=follow):
                        crid[0] += 1
                        rid = f"cancel{crid[0]}"
                        mark(ids, follow, rid)
                        return oadr.cancel_report(rid, ids, follow, vtn.ven_id)
                    vtn.queue.append(cancel)
        await asyncio.sleep(base * r.choice([5, 13]) + 20)
        vtn.queue.clear(); answers.clear()
        end = datetime.now(UTC)
        await asyncio.sleep(min(base, 12) + 15)
        await cl.stop()
        fin = datetime.now(UTC)
        c.check(not errs, "job-error", lambda: f"{errs[:2]}")
        c.check(not vtn.invalid, "invalid-message", lambda: f"{vtn.invalid[:2]}")
        # acknowledgements
        created = vtn.of("oadrCreatedReport")
        got = [([wire.text(x) for x in p.el.iter("{*}reportRequestID")], wire.response(p.el)["request_id"]) for p in created]
        c.check(sorted(map(str, got)) == sorted(map(str, expect_created)), "requests-not-acknowledged", lambda: f"{got} instead of {expect_created}")
        canceled = vtn.of("oadrCanceledReport")
        for q in reqs.values():
            if q["C"]:
                rids = [x for x in canceled if wire.response(x.el)["request_id"] == q["crid"]]
                q["acks"] = rids
        by = {}
        for q in reqs.values():
            if q["C"]: by.setdefault(q["crid"], []).append(q)
        for crid_, qs in by.items():
            acks = [x for x in canceled if wire.response(x.el)["request_id"] == crid_]
            late = fin - qs[0]["C"] < S(3 * len(qs) + 2)
            c.check(len(acks) == len(qs) or late and len(acks) < len(qs), "cancellation-not-acknowledged", lambda: f"{crid_}: {[q['id'] for q in qs]} cancelled at {qs[0]['C']}, acknowledged by {[oadr.msg(a.el) if 0 else a.body[-900:] for a in acks]}")
            t = max([a.at for a in acks], default=fin)
            for q in qs: q["ack"] = t if len(acks) == len(qs) else fin
        # every report belongs to a request; its content follows the rule
        per = {}
        for m in vtn.of("oadrUpdateReport"):
            for rep in wire.reports(m.el):
                c.count("reports")
                per.setdefault(rep["request"], []).append((m, rep))
        known = {}
        for key, l in calls.items():
            for t, vs, args in l:
                c.count("samples")
                for v in vs: known[v] = (key, t)
        used = {}
        for rr, l in per.items():
            q = reqs.get(rr)
            if not c.check(q is not None and q["ids"], "report-not-requested", lambda: f"{rr}: {reqs.get(rr)} {[x.body[-1500:] for x, _ in l[:1]]}"): continue
            for m, rep in l:
                c.check(rep["specifier"] == q["spec"] and rep["name"] == q["name"], "wrong-report", lambda: f"{rep} for {q}")
                for i in rep["intervals"]:
                    k = known.get(i["value"])
                    if c.check(k is not None and k[0] == (q["spec"], i["r_id"]) and i["r_id"] in q["ids"], "wrong-value", lambda: f"{i} for {q}, produced {k}"):
                        c.check(i["value"] not in used, "value-sent-twice", lambda: f"{i} in {rr} and {used.get(i['value'])}")
                        used[i["value"]] = rr
        def gaps(ts, step, q, what):
            for a, b in zip(ts, ts[1:]):
                c.check(abs((b - a).total_seconds() - step) < TOL, "wrong-interval", lambda: f"{what} {b - a} after the one at {a} instead of {step} s; {q} {ts}")
        expected_calls = {k: [0, 0] for k in calls}
        single_of = {}
        for q in reqs.values():
            for i in q["ids"]: single_of.setdefault((q["spec"], i), []).append(q)
        for q in reqs.values():
            l = per.get(q["id"], [])
            if not q["ids"]: continue
            stop = q["C"] or end
            if any(len(single_of[(q["spec"], i)]) > 1 for i in q["ids"]): c.count("overlapping")
            if q["T"] is None: continue
            if q["one"]:
                # one report, at once or at its start
                at = q["T"] if q["start"] is None else max(q["T"], q["start"])
                n_ = sum(1 for m, rep in l if q["C"] is None or m.at < q["C"])
                due = at + S(2) < stop
                late_ok = q["C"] and at > q["C"] - S(2)
                c.check(n_ == 1 if due else n_ <= 1 + q["last"], "one-off-report-missing" if n_ == 0 else "one-off-report-repeated", lambda: f"{q}: {len(l)} reports at {[str(m.at) for m, _ in l]}, end {end}")
                if l and not q["C"]:
                    c.check(abs((l[0][0].at - at).total_seconds()) < 1 + 10 * lat + (12 if answers or by else 0), "one-off-report-at-wrong-time", lambda: f"{q}: sent {l[0][0].at}, due {at}")
                    c.check({i["r_id"] for i in l[0][1]["intervals"]} <= set(q["ids"]) and (q["mode"] == "full" or [i["r_id"] for i in l[0][1]["intervals"]] == q["ids"]), "wrong-values-in-report", lambda: f"{q} {l[0][1]}")
                for i in q["ids"]:
                    e = expected_calls[(q["spec"], i)]
                    e[0] += 1 if due else 0
                    e[1] += 1 + q["last"] + (0 if due else 0)
                continue
            g, rb = q["g"], q["rb"]
            step = max(g, rb) if q["mode"] == "full" else g
            n_min = int((stop - q["T"]).total_seconds() / step - 1 - TOL / step) if stop > q["T"] else 0
            n_max = int((((q["ack"] or fin) - q["T"]).total_seconds() + TOL + 2 * lat) / step) + 1 + q["last"]
            for i in q["ids"]:
                e = expected_calls[(q["spec"], i)]
                e[0] += max(0, n_min); e[1] += n_max
            if q["mode"] == "incremental":
                N = int(rb / g) if rb > g else 1
                ts = []
                for m, rep in l:
                    ids = [i["r_id"] for i in rep["intervals"]]
                    c.check(ids == q["ids"] * N, "wrong-values-in-report", lambda: f"{q}: report with {ids}, should have {N} of each")
                    mine = [i["start"] for i in rep["intervals"] if i["r_id"] == q["ids"][0]]
                    c.check(rep["start"] == min(i["start"] for i in rep["intervals"]), "wrong-report-start", lambda: f"{rep}")
                    lim = 3 + 2 * lat + 2.5 * sum(1 for x in reqs.values() if x["C"])
                    c.check(not mine or S(-TOL) <= m.at - max(mine) < S(lim), "report-sent-late", lambda: f"{q}: last sample {max(mine)}, sent {m.at}")
                    ts += mine
                reg = [t for t in ts if q["C"] is None or t < q["C"]]
                gaps(reg, g, q, "sample")
                c.check(not reg or S(-TOL) <= reg[0] - q["T"] <= S(g + 1 + 4 * lat), "first-sample-late", lambda: f"{q} first {reg[:1]}")
                full = max(0, n_min - 1) // N
                lost = 1 if q["C"] or lat else 0
                c.check(len(l) >= full - (1 if fin - stop < S(4 + 2.5 * len(by)) else 0), "reports-missing", lambda: f"{q}: {len(l)} reports, at least {n_min} samples were due until {stop} ({N} per report); sent at {[str(m.at) for m, _ in l]}")
            else:
                c.check(len(l) >= n_min - 1, "reports-missing", lambda: f"{q}: {len(l)} reports, {n_min} due until {stop}")
        for key, l in calls.items():
            lo, hi = expected_calls[key]
            qs = single_of.get(key, [])
            c.check(lo <= len(l) <= hi, "wrong-number-of-samples", lambda: f"{key}: {len(l)} samples at {[str(t) for t, _, _ in l][:40]}, expected {lo} to {hi}; requests {qs}; end {end} {fin}")
            if qs and all(q["ack"] and q["C"] for q in qs):
                t = max(q["ack"] for q in qs)
                c.check(all(x[0] <= t for x in l), "sampled-after-cancellation", lambda: f"{key}: {[str(x[0]) for x in l if x[0] > t]} after {t}; {qs}")
            if len(qs) == 1 and qs[0]["mode"] == "full" and not qs[0]["one"]:
                q = qs[0]
                step = max(q["g"], q["rb"])
                gaps([t for t, _, _ in l if q["C"] is None or t < q["C"]], step, q, "collection")
                for t, vs, (a, b, s) in l:
                    c.check(s == S(q["g"]) and abs((b - t).total_seconds()) < TOL and (b - a) == S(step), "wrong-period-asked", lambda: f"{q}: called at {t} for {a} to {b} interval {s}")
    c.run(body)
    c.sig(shape)
    c.sample({"steps": [repr(x) for x in shape[:8]]})
