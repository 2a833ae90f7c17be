"""P28: client hooks observe the traffic and cannot disturb it."""
import asyncio
from datetime import datetime, timedelta, timezone
import fabric, gen, oadr, script, wire, world
ID = "P28"
CASES = {"quick": 800, "thorough": 24000}
RULE = ("each case runs the same random session of a real VEN (registration, polls with events, opts, cancellation; good, erroneous, empty, garbled and lost answers) twice: without hooks, and with a random set of hooks "
        "(plain, asynchronous, slow, failing) at the five hook points; the recorded hook calls are compared with the exchanges on the wire and the two sessions with each other; "
        "signature = hook set and the sequence of (message, answer kind)")
ASSUME = ["hooks do not alter the parsed payload they are given", "answers are UTF-8"]
REQUIRED = ["hook_calls", "failing_hook_calls", "slow_hook_calls", "refused_contents", "parsed", "faults", "exchanges", "events_handled", "concurrent_sessions", "unsigned_refused"]
POINTS = ["before_send_xml", "after_receive_xml", "before_schema_validation", "before_parse_xml", "after_parse_xml"]

def setup():
    global messaging, objects
    from openleadr import messaging, objects

def session(c, ops, hooks, conc, fingerprint):
    """Runs the session; returns (net, calls, results, handled)."""
    out = {}
    async def body(loop):
        net = fabric.Net()
        vtn = script.ScriptVTN(net, ven_id="ven-é&1")
        cl = world.client(**({"vtn_fingerprint": fingerprint} if fingerprint else {}))
        calls, handled, results = [], [], []
        for h, (point, kind) in enumerate(hooks):
            def add(h=h, point=point, kind=kind):
                def rec(a, kw):
                    calls.append((point, h, a, kw, len(net.log), loop.time()))
                    c.count("hook_calls")
                def sync(*a, **kw):
                    rec(a, kw)
                    if kind == "fail":
                        c.count("failing_hook_calls")
                        raise [ValueError, KeyError, ConnectionError, TypeError, asyncio.TimeoutError, StopAsyncIteration][h % 6]("hook failed")
                    return None
                async def asy(*a, **kw):
                    rec(a, kw)
                    if kind == "slow":
                        c.count("slow_hook_calls")
                        await asyncio.sleep(1 + h)
                    elif kind == "afail":
                        await asyncio.sleep(.1)
                        c.count("failing_hook_calls")
                        raise [ValueError, KeyError, ConnectionError, asyncio.TimeoutError][h % 4]("hook failed")
                    return "ignored"
                cl.add_hook(point, sync if kind in ("sync", "fail") else asy)
            add()
        def on_event(e):
            handled.append((e["event_descriptor"]["event_id"], e["event_descriptor"]["modification_number"]))
            return "optIn"
        cl.add_handler("on_event", on_event)
        cl.add_handler("on_update_event", on_event)
        kinds = iter(ops)
        plan = {}
        async def faulter(ex):
            return plan["fault"]
        net.faulter = faulter
        def wrap(rec):
            k = plan["kind"]
            a = plan.get("answer") if rec.type == "oadrPoll" else None
            a = a or vtn.default(rec)
            raw = oadr.msg(a)
            if k == "http": return 500, raw
            if k == "http-empty": return 503, b""
            if k == "empty": return 200, b""
            if k == "garbage": return 200, raw[:len(raw) * 2 // 3]
            if k == "unschema": return 200, raw.replace(b"schemaVersion", b"schemaVersoin")
            if k == "text": return 200, "no XML: é".encode()
            if k == "code": return oadr.oadr_response(463, rec.rid or "0", vtn.ven_id, "refused & <bad>")
            return a
        for t in ("oadrQueryRegistration", "oadrCreatePartyRegistration", "oadrPoll", "oadrRequestEvent", "oadrCreateOpt", "oadrCancelPartyRegistration"):
            vtn.override[t] = wrap
        async def one(op, k, ev):
            plan.update(kind=k, fault=(k,) if k in ("refuse", "disconnect", "read_error", "drop_response") else None, answer=None)
            if op == "poll" and ev:
                plan["answer"] = oadr.distribute_event("q&1", ev, vtn.vtn_id)
            if op == "query": return await cl.query_registration()
            if op == "register": return await cl.create_party_registration()
            if op == "poll": return await cl.poll()
            if op == "request": return await cl.request_event()
            if op == "deliver":
                plan["answer"] = oadr.distribute_event("q", ev, vtn.vtn_id)
                return await cl._poll()
            if op == "opt": return await cl.create_opt(opt_type="optIn", opt_reason="economic", targets=[objects.Target(ven_id="a<b")], event_id="e&1", opt_id="o1", request_id="r1")
            if op == "cancel": return await cl.cancel_party_registration()
        cl.ven_id = "ven-é&1"
        if conc:
            plan.update(kind="ok", fault=None, answer=None)
            await cl.create_party_registration()
            results = await asyncio.gather(*[one("poll" if i % 2 else "query", "ok", None) for i in range(conc)])
        else:
            for op, k, ev in ops:
                n = len(net.log)
                results.append((op, k, await one(op, k, ev), n))
        await cl._close_client_session() if hasattr(cl, "_close_client_session") else None
        out.update(net=net, calls=calls, results=results, handled=handled, invalid=vtn.invalid)
    c.run(body)
    return out

def case(c):
    r = c.rng
    hooks = []
    for p in POINTS:
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            hooks.append((p, r.choice(["sync", "async", "slow", "fail", "afail"])))
    r.shuffle(hooks)
    fp = r.choice([None, None, None, "AA:BB:CC:DD:EE:FF:00:11:22:33"])
    conc = r.choice([0, 0, 0, 3, 6])
    ops, n = [], 0
    for _ in range(r.choice([3, 5, 8])):
        op = r.choice(["query", "register", "poll", "poll", "request", "deliver", "deliver", "opt", "cancel"])
        k = r.choice(["ok"] * 6 + ["http", "http-empty", "empty", "garbage", "unschema", "text", "code", "refuse", "disconnect", "read_error", "drop_response"])
        ev = None
        if op in ("poll", "deliver"):
            ev = [dict(event_id=f"e&{r.randrange(3)}", mod=r.randrange(2), start=datetime(2027, 3, 10, 8, tzinfo=timezone.utc), duration=timedelta(hours=1), comment=gen.txt(r, "pmun"))] if op == "deliver" or r.random() < .5 else None
        ops.append((op, k, ev))
    a = session(c, ops, hooks, conc, fp)
    b = session(c, ops, [], conc, fp)
    by = {p: [h for h, (q, _) in enumerate(hooks) if q == p] for p in POINTS}
    # what each exchange should have shown to each hook point
    def expected(ex):
        seq = [("before_send_xml", (ex.req.decode(),))]
        if ex.res is None or ex.fault in ("refuse", "disconnect", "read_error", "drop_response"):
            c.count("faults")
            return seq, None
        txt = ex.res.decode()
        seq.append(("after_receive_xml", (txt,)))
        if ex.status != 200 or not txt:
            return seq, None
        seq.append(("before_schema_validation", (txt,)))
        if wire.invalid(ex.res) is not None:
            c.count("refused_contents")
            return seq, None
        if fp:
            c.count("unsigned_refused")
            return seq, None
        seq.append(("before_parse_xml", (txt,)))
        parsed = messaging.parse_message(ex.res)
        c.check(parsed[0] == wire.message(ex.res)[0], "wrong-type", lambda: f"{parsed[0]}")
        seq.append(("after_parse_xml", parsed))
        c.count("parsed")
        return seq, parsed
    want = []
    per = []
    for ex in a["net"].log:
        c.count("exchanges")
        seq, parsed = expected(ex)
        per.append((ex, parsed))
        want.append([(p, h, args) for p, args in seq for h in by[p]])
    got = [(p, h, args) for p, h, args, kw, n, t in a["calls"]]
    c.check(not any(kw for *_, kw, n, t in a["calls"]), "keyword-arguments", "")
    if not conc:
        flat = [x for w in want for x in w]
        i = next((i for i, (x, y) in enumerate(zip(got, flat)) if x != y), min(len(got), len(flat)))
        c.check(got == flat, "hook-calls-differ", lambda: f"{len(got)} calls, {len(flat)} expected; first difference at {i}: called {got[i:i+1]}, expected {flat[i:i+1]}; hooks {hooks}")
        k = 0
        for j, w in enumerate(want):          # before_send before the request is on the wire, the others after
            for p, *_ in w:
                if k < len(a["calls"]):
                    n = a["calls"][k][4]
                    c.check(n == (j if p == "before_send_xml" else j + 1), "hook-at-wrong-moment", lambda: f"{p} of exchange {j} ran after {n} requests")
                k += 1
        # what was returned to the caller is what the hooks saw
        for op, k, res, n in a["results"]:
            if op in ("query", "poll") and n < len(per):
                c.check(tuple(res) == (per[n][1] or (None, {})), "result-differs-from-hook", lambda: f"{op} {k}: {res} {per[n][1]}")
        def outcome(s):
            return [(op, k, rr[0] if isinstance(rr, tuple) else rr) for op, k, rr, n in s["results"]]
        c.check(outcome(a) == outcome(b), "results-changed-by-hooks", lambda: f"{outcome(a)} without hooks {outcome(b)}")
        types = lambda s: [(e.service, wire.message(e.req)[0]) for e in s["net"].log]
        c.check(types(a) == types(b), "traffic-changed-by-hooks", lambda: f"{types(a)} without hooks {types(b)}")
        c.check(a["handled"] == b["handled"], "handling-changed-by-hooks", lambda: f"{a['handled']} without hooks {b['handled']}")
        c.count("events_handled", len(a["handled"]))
    else:
        c.count("concurrent_sessions")
        f = lambda l: sorted(map(repr, l))
        flat = [x for w in want for x in w]
        c.check(f(got) == f(flat), "hook-calls-differ", lambda: f"{len(got)} calls, {len(flat)} expected: missing {[x for x in flat if x not in got][:2]} extra {[x for x in got if x not in flat][:2]}; hooks {hooks}")
        c.check([x[0] for x in a["results"]] == [x[0] for x in b["results"]], "results-changed-by-hooks", lambda: f"{a['results']} / {b['results']}")
    for w in a["invalid"] + b["invalid"]:
        c.fail("invalid-message-sent", w)
    c.sig(sorted(hooks), conc, bool(fp), [(o, k) for o, k, _ in ops])
    c.sample({"hooks": hooks, "session": [(o, k) for o, k, _ in ops]})
