"""P30: VTN hooks observe the traffic and cannot disturb it."""
import asyncio, copy
from datetime import timedelta
import gen, msgs, oadr, wire, world
ID = "P30"
CASES = {"quick": 1000, "thorough": 30000}
RULE = ("each case posts the same random requests (all message types, right and wrong endpoints, other VTN ids, unknown VENs, malformed and invalid bodies, wrong content types, failing handlers; one at a time or many at once) to two identical "
        "VTNs, one after the other: without hooks, and with a random set of hooks (plain, asynchronous, slow, failing, registered along the way) at the four hook points; the recorded hook calls are compared with a model of "
        "what passed each point for each request, in order, and the answers, their timing and the handler runs of the two with each other; signature = hook set and sequence of (request kind, answer)")
ASSUME = ["hooks do not alter the payload they are given", "a hook that is a coroutine may run after the point it observes"]
REQUIRED = ["hook_calls", "failing_hook_calls", "slow_hook_calls", "refused_bodies", "refused_types", "wrong_endpoint", "other_vtn", "unknown_ven", "empty_answers", "handler_failures", "protocol_errors", "concurrent", "sequential",
            "registered_late", "bad_points", "both_servers"]
POINTS = ["before_parse", "before_handle", "after_handle", "before_respond"]
S = lambda x: timedelta(seconds=x)

def setup():
    global hooks, errors, messaging
    from openleadr import hooks, errors, messaging

def build(c, r):
    """[(kind, endpoint, body, headers, plan, server)]; kind tells which points are passed."""
    reqs = []
    for i in range(r.choice([4, 10, 20])):
        ven = f"{gen.uid(r, 'pm')}-{i}"
        k, el = msgs.ven_msg(r, ven)
        body = oadr.msg(el)
        body = body if isinstance(body, bytes) else body.encode()
        body = body.rstrip() + f"<!-- {i} -->".encode()
        ep, headers = msgs.VEN_SERVICE[k], None
        plan = r.choice(["ok"] * 5 + ["raise", "protocol"]); slow = r.choice([0, 0, 0, .5, 3])
        how = r.choice(["good"] * 6 + ["type", "garbled", "invalid", "endpoint", "vtn", "unknown"])
        if how == "type": headers = {"Content-Type": r.choice(["text/plain", "", "application/json", "text/xml"]), "Host": "vtn"}
        elif how == "garbled": body = r.choice([body[:r.randrange(1, len(body) // 2)], b"", b"no xml", b"<a><b></a>", b"\xff\xfe" + body])
        elif how == "invalid": body = body.replace(b"<oadr:oadrSignedObject", b"<oadr:oadrSignedThing", 1).replace(b"oadrSignedObject", b"oadrSignedThing") if b"oadrSignedObject" in body else b"<x>%d</x>" % i
        elif how == "endpoint":
            ep = r.choice([e for e in ("EiEvent", "OadrPoll", "EiRegisterParty", "EiReport") if e != ep])
        elif how == "vtn":
            if k == "created_event" or b"vtnID" in body:
                pass
            how = "good"
        reqs.append(dict(i=i, kind=k, how=how, ep=ep, body=body, headers=headers, plan=plan, slow=slow, ven=ven, srv=r.randrange(2)))
    return reqs

def case(c):
    r = c.rng
    reqs = build(c, r)
    # requests that name another VTN: the reports a VEN registers do not carry one, so a hand-made message does
    for q in reqs:
        if q["how"] == "good" and r.random() < .1:
            q["how"] = "vtn"; q["kind"] = "created_event_vtn"; q["ep"] = "EiEvent"
            t = oadr.msg(oadr.distribute_event(f"d{q['i']}", [], vtn="another VTN")); q["body"] = (t if isinstance(t, bytes) else t.encode()).rstrip() + f"<!-- {q['i']} -->".encode()
    conc = r.random() < .5
    hs = [(r.choice(POINTS), r.choice(["sync", "fail", "async", "slow", "afail"]), r.choice([-1, -1, -1, len(reqs) // 2])) for _ in range(r.choice([1, 2, 4, 8]))]
    if conc: hs = [(p, k, -1) for p, k, _ in hs]
    lookup = r.random() < .4
    gaps = [r.choice([0, 0, .1, 5]) for _ in reqs]
    def world_run(on):
        log = []; runs = []; res = {}
        async def body(loop):
            for p in POINTS: hooks.HOOKS[p].clear()
            try:
                srvs = []
                byven = {q["ven"]: q for q in reqs}
                regs = {}
                async def act(who, ven):
                    q = byven.get(ven)
                    runs.append((who, ven))
                    if q is None: return "ok"
                    if q["slow"]: await asyncio.sleep(q["slow"])
                    if q["plan"] == "raise": raise ValueError("handler failed")
                    if q["plan"] == "protocol": raise errors.NotAllowedError("not now")
                    return "ok"
                for n in range(2):
                    kw = {}
                    if lookup:
                        async def ven_lookup(ven_id):
                            q = byven.get(ven_id)
                            return None if q is not None and q["how"] == "unknown" else dict(ven_id=ven_id, ven_name="x", fingerprint="AA", registration_id="r")
                        kw["ven_lookup"] = ven_lookup
                    s = world.server(vtn_id=f"VTN_{n}", **kw)
                    async def on_register(info):
                        await act("register", info.get("ven_id")); return "assigned", "reg"
                    async def on_cancel(info):
                        await act("cancel", info.get("ven_id")); return "oadrCanceledPartyRegistration", {"registration_id": info["registration_id"]}
                    async def on_poll(ven_id):
                        await act("poll", ven_id)
                    async def on_report(report):
                        runs.append(("offered", report["report_specifier_id"]))
                    async def on_created_report(payload):
                        await act("created_report", payload.get("ven_id"))
                    s.add_handler("on_create_party_registration", on_register); s.add_handler("on_cancel_party_registration", on_cancel)
                    s.add_handler("on_poll", on_poll); s.add_handler("on_created_report", on_created_report)
                    srvs.append(s)
                def mk(h, point, kind):
                    def rec(a, kw):
                        log.append((point, h, copy.deepcopy(a) if kind in ("sync", "fail") else a, kw, loop.time())); c.count("hook_calls")
                    def sync(*a, **kw):
                        rec(a, kw)
                        if kind == "fail":
                            c.count("failing_hook_calls")
                            raise [ValueError, KeyError, errors.InvalidIdError, errors.SendEmptyHTTPResponse, TypeError, asyncio.TimeoutError][h % 6](*(["hook failed"] if h % 6 != 3 else []))
                        return [None, 7, "x"][h % 3]
                    async def asy(*a, **kw):
                        rec(a, kw)
                        if kind == "slow":
                            c.count("slow_hook_calls"); await asyncio.sleep(1 + h)
                        if kind == "afail":
                            await asyncio.sleep(.1); c.count("failing_hook_calls")
                            raise [ValueError, KeyError, errors.InvalidIdError][h % 3]("hook failed")
                        log.append(("done", h))
                    return sync if kind in ("sync", "fail") else asy
                def register(when):
                    if not on: return
                    for h, (point, kind, at) in enumerate(hs):
                        if at == when:
                            if at >= 0: c.count("registered_late")
                            hooks.register(point, mk(h, point, kind))
                    if when == -1 and r.random() < .3:
                        c.count("bad_points"); before = {p: len(v) for p, v in hooks.HOOKS.items()}
                        try: hooks.register(r.choice(["", "before", "after_respond", "BEFORE_PARSE"]), mk(99, "bad", "sync"))
                        except ValueError: pass
                        else: c.fail("unknown-point-accepted", "a hook for a point that does not exist was accepted")
                        c.check({p: len(v) for p, v in hooks.HOOKS.items()} == before, "unknown-point-registered", lambda: f"{hooks.HOOKS}")
                register(-1)
                async def one(q):
                    t0, n0 = loop.time(), len(log)
                    a = await world.post(srvs[q["srv"]], q["ep"], q["body"], headers=q["headers"])
                    res[q["i"]] = (a, t0, loop.time(), n0, len(log))
                if conc:
                    c.count("concurrent")
                    await asyncio.gather(*[one(q) for q in reqs])
                else:
                    c.count("sequential")
                    for q, g in zip(reqs, gaps):
                        register(q["i"])
                        await one(q)
                        if g: await asyncio.sleep(g)
                await asyncio.sleep(40)
            finally:
                for p in POINTS: hooks.HOOKS[p].clear()
            return loop
        c.run(body, problems=False)
        return res, log, runs
    base, _, runs0 = world_run(False)
    res, log, runs1 = world_run(True)
    if len({q["srv"] for q in reqs}) == 2: c.count("both_servers")
    # ---- the hooks change nothing
    def view(a):
        d = None
        if a.el is not None:
            d = (a.type, a.code, (a.response or {}).get("request_id"), (a.response or {}).get("description"), a.el.findtext(".//{%s}venID" % oadr.NS["ei"]), a.el.findtext(".//{%s}vtnID" % oadr.NS["ei"]))
        return (a.status, d if d else a.body, a.headers.get("Content-Type"), a.bad)
    shape = []
    for q in reqs:
        a, t0, t1, n0, n1 = res[q["i"]]; b, u0, u1, _, _ = base[q["i"]]
        c.check(view(a) == view(b), "hook-changes-answer", lambda: f"{q['kind']} {q['how']}: with hooks {hs} answered {view(a)}, without {view(b)}")
        c.check(abs((t1 - t0) - (u1 - u0)) < 1e-6, "hook-delays-answer", lambda: f"{q['kind']}: answered after {t1 - t0} s with hooks {hs}, {u1 - u0} s without")
        shape.append((q["kind"], q["how"], a.status, a.type, a.code))
    c.check(runs0 == runs1, "hook-changes-handlers", lambda: f"handlers ran {runs1[:20]} with hooks {hs}, {runs0[:20]} without")
    # ---- the hooks see what passed
    def model(q):
        """The calls of one request: [(point, args)], with args None where only part is known."""
        a = res[q["i"]][0]; out = []
        text = a.body.decode("utf-8") if isinstance(a.body, bytes) else a.body
        last = ("before_respond", (text,))
        if q["how"] == "type": c.count("refused_types"); return [last]
        out.append(("before_parse", (q["body"],)))
        if q["how"] in ("garbled", "invalid"): c.count("refused_bodies"); return out + [last]
        if q["kind"] == "response": c.count("empty_answers"); return out + [last]
        if q["how"] == "vtn": c.count("other_vtn"); return out + [last]
        if q["how"] == "unknown" and lookup and q["kind"] not in ("register", "query"): c.count("unknown_ven"); return out + [last]
        mt, mp = messaging.parse_message(q["body"])
        out.append(("before_handle", (mt, mp)))
        if q["how"] == "endpoint": c.count("wrong_endpoint")
        ran = q["how"] != "endpoint" and any(v == q["ven"] for _, v in runs1)
        if ran and q["plan"] == "raise": c.count("handler_failures"); return out + [last]
        if ran and q["plan"] == "protocol": c.count("protocol_errors"); return out + [last]
        out.append(("after_handle", (a.type, a)))
        return out + [last]
    def same(point, got, want, sync):
        if point in ("before_parse", "before_respond"):
            return len(got) == 1 and (got[0] == want[0] or (want[0] == "" and got[0] is None)) and type(got[0]) in (type(want[0]), type(None))
        if len(got) != 2 or got[0] != want[0]: return False
        if point == "before_handle":
            return got[1] == want[1] if sync else all(got[1].get(k) == want[1].get(k) for k in ("request_id", "ven_id"))
        a = want[1]; rp = got[1].get("response") or {}
        rid = (a.response or {}).get("request_id")
        return (a.response is None or (str(rp.get("response_code")) == str(a.code) and str(rp.get("request_id") or "") == str(rid or "")))
    models = {q["i"]: model(q) for q in reqs}
    for h, (point, kind, at) in enumerate(hs):
        sync = kind in ("sync", "fail")
        got = [e for e in log if len(e) == 5 and e[1] == h]
        want = [(q["i"], p, a) for q in reqs if q["i"] >= at for p, a in models[q["i"]] if p == point]
        c.check(all(e[3] == {} for e in got), "hook-arguments", lambda: f"{point} was called with {[e[3] for e in got]}")
        left = list(got)
        for i, p, a in want:
            m = next((e for e in left if same(point, e[2], a, sync)), None)
            if m is None:
                q = reqs[i]
                c.fail("hook-not-called" if len(got) < len(want) else "hook-sees-something-else", f"hook {h} ({kind}) at {point} was not called with {str(a)[:300]} for request {i} ({q['kind']}, {q['how']}, answered {res[i][0]}); calls were {[str(e[2])[:120] for e in got][:10]}")
            else: left.remove(m)
        c.check(not left, "hook-called-too-often", lambda: f"hook {h} ({kind}) at {point} was also called with {[str(e[2])[:200] for e in left][:4]}")
        if kind in ("async", "slow"):
            c.check(sum(1 for e in log if e == ("done", h)) == len(got), "hook-not-finished", lambda: f"hook {h} ({kind}) at {point} ran {len(got)} times and finished {sum(1 for e in log if e == ('done', h))} times")
    # ---- in order (one request at a time: plain hooks run between the request and its answer, point by point, in the order of registration)
    if not conc:
        for q in reqs:
            a, t0, t1, n0, n1 = res[q["i"]]
            seq = [(e[0], e[1]) for e in log[n0:n1] if len(e) == 5 and hs[e[1]][1] in ("sync", "fail")]
            # hooks registered along the way come after the earlier ones
            idx = sorted((h for h, x in enumerate(hs) if x[1] in ("sync", "fail") and x[2] <= q["i"]), key=lambda h: (hs[h][2], h))
            exp = [(p, h) for p, _ in models[q["i"]] for h in idx if hs[h][0] == p]
            c.check(seq == exp, "hook-order", lambda: f"request {q['i']} ({q['kind']}, {q['how']}): plain hooks ran as {seq}, expected {exp} (hooks {hs})")
    c.sig(tuple(hs), tuple(shape), conc)
    c.sample({"hooks": hs, "requests": shape[:8], "concurrent": conc})
