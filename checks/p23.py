"""P23: a signed message is accepted once and only while fresh."""
import asyncio, copy
from datetime import datetime, timedelta, timezone
from lxml import etree
import fabric, gen, msgs, oadr, sign, vloop, wire, world
ID = "P23"
CASES = {"quick": 900, "thorough": 24000}
RULE = ("histories of signed messages of every type to a real VTN (several VENs and connections) or answers to a real VEN in virtual time: fresh ones, late ones, repeated ones at any delay and after any number of other messages, repeated at other endpoints or with other unsigned parts "
        "(rewrapped certificate, extra objects, white space, comments, headers), simultaneous copies with slow handlers, equal timestamps, equal nonces, early clocks, every timestamp notation, missing or malformed replay protection; signature = (direction, history shape)")
ASSUME = ["all parties' clocks agree unless the case says otherwise; the VTN's clock does not run backwards", "ages within 20 ms of the five second limit are not judged", "two signers do not choose the same timestamp and nonce"]
REQUIRED = ["library_signed", "fresh_accepted", "replay_refused", "replay_immediate", "replay_late", "replay_after_others", "replay_changed", "concurrent_copies", "too_old_refused", "nearly_old_accepted", "equal_timestamp", "equal_nonce", "missing_nonce", "missing_timestamp", "malformed", "future", "burst", "to_ven", "to_vtn", "notations"]
UTC = timezone.utc
S = lambda x: timedelta(seconds=x)

def notation(r, t):
    """The same instant in any notation OpenADR allows (always UTC)."""
    u = t.astimezone(UTC)
    f = f".{u.microsecond:06d}" if u.microsecond or r.random() < .3 else ""
    if f and r.random() < .4: f = f.rstrip("0") if f.rstrip("0") != "." else ".0"
    elif f and r.random() < .3: f += r.choice(["0", "000"])
    return u.strftime("%Y-%m-%dT%H:%M:%S") + f + "Z"

def reshape(r, b, el):
    """Other unsigned parts, same signature."""
    for _ in range(r.choice([1, 2])): b = r.choice(SHAPES)(r, b)
    return b
def s_space(r, b): t = parse(b); t.text = "\n" * r.randrange(1, 5); t[0].tail = " "; return out(t)
def s_wrap(r, b):
    t = parse(b)
    for e in t.iter(sign.DS + "X509Certificate"): e.text = "".join(e.text.split()) + r.choice(["", "\n"])
    return out(t)
def s_comment(r, b): t = parse(b); t.insert(r.choice([0, 1]), etree.Comment(str(r.random()))); return out(t)
def s_decl(r, b): return b.split(b"?>", 1)[1].lstrip() if b.startswith(b"<?xml") else b
def s_object(r, b): t = parse(b); o = etree.SubElement(t.find(sign.DS + "Signature"), sign.DS + "Object"); o.text = str(r.random()); return out(t)
def s_protect(r, b):
    """an unsigned second ReplayProtect, fresh, before or after the signed one"""
    t = parse(b); sig = t.find(sign.DS + "Signature"); ob = sig.find(sign.DS + "Object")
    n = copy.deepcopy(ob); n.set("Id", "other")
    for e in n.iter(sign.DSP + "nonce"): e.text = str(r.random())
    for e in n.iter(sign.DSP + "timestamp"): e.text = oadr.fmt_dt(datetime.now(UTC))
    (ob.addprevious if r.random() < .6 else ob.addnext)(n)
    return out(t)
def s_keyname(r, b): t = parse(b); e = etree.SubElement(t.find(f"{sign.DS}Signature/{sign.DS}KeyInfo"), sign.DS + "KeyName"); e.text = str(r.random()); return out(t)
SHAPES = [s_space, s_wrap, s_comment, s_decl, s_object, s_protect, s_protect, s_keyname]
parse = lambda b: etree.fromstring(b)
out = lambda t: etree.tostring(t, xml_declaration=True, encoding="utf-8")

class Msg: pass

def case(c):
    r = c.rng
    to_vtn = r.random() < .7
    async def body(loop):
        n = [0]
        seen = []          # what the handlers received: one mark per accepted message
        slow = r.choice([0, 0, .05, 1])
        if to_vtn:
            vens = {f"ven {k} {gen.txt(r, 'pm')}": f"v{k}" for k in range(r.choice([1, 2, 3]))}
            style = r.choice(["ven", "fp"])
            def vl(ven_id): return {"ven_id": ven_id, "registration_id": "r", "fingerprint": sign.fp(vens[ven_id])} if ven_id in vens else None
            def fl(ven_id): return sign.fp(vens[ven_id]) if ven_id in vens else None
            async def avl(ven_id): await asyncio.sleep(r.choice([0, .01])); return vl(ven_id)
            srv = world.server(None, **(dict(ven_lookup=r.choice([vl, avl])) if style == "ven" else dict(fingerprint_lookup=fl)))
            async def reg(p): seen.append(p["request_id"]); await asyncio.sleep(slow); return "v", "r"
            async def canc(p): seen.append(p["request_id"] if isinstance(p, dict) else p); await asyncio.sleep(slow)
            async def created(ven_id, event_id, opt_type): seen.append(event_id); await asyncio.sleep(slow)
            async def rep(report): seen.append(report["report_request_id"]); await asyncio.sleep(slow)
            async def poll(ven_id): await asyncio.sleep(slow); return None
            for h, f in (("on_create_party_registration", reg), ("on_cancel_party_registration", canc), ("on_created_event", created), ("on_update_report", rep), ("on_poll", poll)): srv.add_handler(h, f)
            c.count("to_vtn")
        else:
            net = fabric.Net(); queue = []
            async def answer(svc, b, ex):
                await asyncio.sleep(0); return 200, queue.pop(0)
            net.add_fn("vtn", answer)
            cl = world.client(vtn_fingerprint=sign.fp("vtn"))
            c.count("to_ven")
        def make(ts=None, nonce=None, **kw):
            n[0] += 1
            m = Msg(); m.mark = f"m{n[0]}-{c.index}"; m.t = ts or datetime.now(UTC)
            m.nonce = nonce if nonce is not None else f"{c.seed}.{c.index}.{n[0]}"
            if to_vtn:
                m.ven = r.choice(list(vens)); m.cert = vens[m.ven]
                k = r.choice(["register", "cancel", "created", "update", "poll"])
                m.service = msgs.VEN_SERVICE[{"cancel": "cancel_registration", "created": "created_event", "update": "update_report"}.get(k, k)]
                m.el = {"register": lambda: oadr.create_party_registration(m.mark, ven_id=m.ven), "cancel": lambda: oadr.cancel_party_registration(m.mark, "r", m.ven),
                        "created": lambda: oadr.created_event(m.ven, [(m.mark, 0, "optIn")]), "update": lambda: oadr.update_report("x", m.ven, [oadr.report_data(m.mark, "s", [("r", datetime.now(UTC), 1)])]), "poll": lambda: oadr.poll(m.ven)}[k]()
                m.handler = k != "poll"
            else:
                m.cert = "vtn"; m.handler = False; m.service = None
                m.el = oadr.oadr_response(200, m.mark, "v")
            m.stamp = notation(r, m.t) if r.random() < .6 else oadr.fmt_dt(m.t)
            if m.stamp != oadr.fmt_dt(m.t): c.count("notations")
            m.body = sign.signed(m.el, m.cert, kw.pop("stamp", m.stamp), nonce=m.nonce, b64wrap=r.random() < .5, **kw)
            m.accepted = 0
            return m
        async def send(m, b=None, wrong_place=False):
            b = b or m.body
            if to_vtn:
                svc = m.service if not wrong_place else r.choice(["OadrPoll", "EiEvent", "EiReport", "EiRegisterParty"])
                a = await world.post(srv, svc, b, peer=sign.der(m.cert), headers=r.choice([None, {"Content-Type": "application/xml", "Host": "other", "X-Trace": str(r.random())}, {"Content-Type": "application/xml; charset=utf-8"}]) if wrong_place or b is not m.body else None)
                ok = a.status == 200 and a.bad is None and str(a.code) == "200"
                if ok: m.accepted += 1
                return ok, a
            queue.append(b)
            t, p = await cl.poll()
            ok = t is not None
            if ok: m.accepted += 1
            return ok, t
        sent, shape, where = [], [], {}
        async def fresh(m, why):
            if datetime.now(UTC) - m.t > S(4.975): return       # slow handlers have used up the time
            ok, a = await send(m)
            c.check(ok, "fresh-message-refused", lambda: f"{why}: signed at {m.stamp} nonce {m.nonce!r}, now {datetime.now(UTC)}: {a}")
            if ok: c.count("fresh_accepted")
            sent.append(m); where[m] = len(sent)
        for step in range(r.choice([5, 8, 14])):
            k = r.choice(["fresh", "fresh", "replay", "replay", "replay", "old", "nearly", "sameT", "sameN", "copies", "burst", "missing", "future", "wait", "second_chance"] + ["library"] * (r.random() < .15))
            shape.append(k)
            if k == "fresh": await fresh(make(), "a fresh message")
            elif k == "library":
                # what the library signs itself is fresh however many messages are signed at one instant
                from openleadr.messaging import create_message
                ms = []
                for _ in range(r.choice([3, 40])):
                    m = Msg(); m.ven = r.choice(list(vens)) if to_vtn else None; m.cert = vens[m.ven] if to_vtn else "vtn"
                    m.mark = None; m.t = datetime.now(UTC); m.stamp = "(by the library)"; m.nonce = "(by the library)"; m.service = "OadrPoll"; m.el = None; m.handler = False; m.accepted = 0
                    kw = dict(cert=sign.pem(m.cert), key=open(sign.path(m.cert, "key"), "rb").read(), passphrase=sign.paths(m.cert).get("passphrase"))
                    m.body = (create_message("oadrPoll", ven_id=m.ven, **kw) if to_vtn else create_message("oadrResponse", response={"response_code": 200, "response_description": "OK", "request_id": "x"}, ven_id="v", **kw)).encode()
                    ms.append(m)
                for m in ms:
                    if datetime.now(UTC) - m.t > S(4.975): break
                    ok, a = await send(m)
                    c.check(ok, "fresh-message-refused", lambda: f"one of {len(ms)} messages signed by the library at {m.t}: {a}")
                    ok, a = await send(m)
                    c.check(not ok, "replay-accepted", lambda: f"a repeated message signed by the library: {a}")
                c.count("library_signed")
            elif k == "replay" and sent:
                m = r.choice(sent[-3:] if r.random() < .6 else sent)
                d = r.choice([0, 0, .001, 1, 4.9, 4.99, 5, 5.01, 6, 20, 3600])
                if d: await asyncio.sleep(d)
                if r.random() < .4:
                    for _ in range(r.choice([1, 5, 30] * 3 + [130])): await fresh(make(), "between a message and its repetition")
                    c.count("replay_after_others")
                b, what = m.body, "unchanged"
                if r.random() < .5: b, what = reshape(r, m.body, m.el), "unsigned parts changed"; c.count("replay_changed")
                elsewhere = to_vtn and r.random() < .25
                marks = seen.count(m.mark)
                ok, a = await send(m, b, wrong_place=elsewhere)
                c.count("replay_immediate" if datetime.now(UTC) - m.t < S(1) else "replay_late")
                if c.check(not ok and m.accepted <= 1 and seen.count(m.mark) == marks, "replay-accepted", lambda: f"{what}, {datetime.now(UTC) - m.t} after signing at {m.stamp}, {len(sent) - where[m]} other messages since: {a}; message {b[:2500]!r}"): c.count("replay_refused")
            elif k == "old":
                age = r.choice([5.02, 5.1, 6, 10, 60, 86400, 40 * 86400])
                m = make(datetime.now(UTC) - S(age))
                ok, a = await send(m, reshape(r, m.body, m.el) if r.random() < .3 else None)
                if c.check(not ok and not seen.count(m.mark), "stale-message-accepted", lambda: f"signed {age} s ago at {m.stamp}: {a}"): c.count("too_old_refused")
            elif k == "nearly":
                age = r.choice([.1, 1, 3, 4.5, 4.97])
                m = make()
                if r.random() < .5: await asyncio.sleep(age)
                else: m = make(datetime.now(UTC) - S(age))
                await fresh(m, f"a message signed {age} s ago"); c.count("nearly_old_accepted")
            elif k == "sameT":
                t = datetime.now(UTC) - S(r.choice([0, 0, 1, 2]))
                for m in [make(t) for _ in range(r.choice([2, 3, 6]))]: await fresh(m, "equal timestamps, different nonces")
                c.count("equal_timestamp")
            elif k == "sameN":
                nn = f"n{c.seed}.{c.index}.{step}"
                t = datetime.now(UTC)
                for m in [make(t - S(d), nonce=nn) for d in r.sample([0, .5, 1, 2, 3], 3)]: await fresh(m, "equal nonces, different timestamps")
                c.count("equal_nonce")
            elif k == "copies":
                m = make(); num = r.choice([2, 3, 8])
                res = await asyncio.gather(*[send(m, m.body if i == 0 or r.random() < .5 else reshape(r, m.body, m.el)) for i in range(num)])
                c.check(sum(ok for ok, _ in res) == 1 and (not m.handler or seen.count(m.mark) == 1), "replay-accepted", lambda: f"{num} simultaneous copies: {res}, handler calls {seen.count(m.mark)}")
                c.count("concurrent_copies"); sent.append(m); where[m] = len(sent)
            elif k == "burst":
                ms = [make() for _ in range(r.choice([5, 20, 60, 150]))]
                res = await asyncio.gather(*[send(m) for m in ms]) if to_vtn else [await send(m) for m in ms]
                c.check(all(ok for ok, _ in res), "fresh-message-refused", lambda: f"{len(ms)} messages at once: {[a for ok, a in res if not ok][:3]}")
                for m in ms: sent.append(m); where[m] = len(sent)
                c.count("burst")
            elif k == "missing":
                w = r.choice(["nonce", "ts", "both", "empty_ts", "bad_ts", "protect"])
                kw = {"nonce": dict(with_nonce=False), "ts": dict(with_ts=False), "both": dict(with_ts=False, with_nonce=False), "empty_ts": dict(stamp=""), "bad_ts": dict(stamp=r.choice(["yesterday", "2027-13-45T99:00:00Z", "1900", "-1"])), "protect": dict(protect=False)}[w]
                m = make(**kw)
                ok, a = await send(m, reshape(r, m.body, m.el) if w != "protect" and r.random() < .4 else None)
                c.check(not ok and not seen.count(m.mark), "unprotected-message-accepted", lambda: f"{w}: {a}")
                c.count({"nonce": "missing_nonce", "ts": "missing_timestamp", "both": "missing_nonce"}.get(w, "malformed"))
            elif k == "future":
                ahead = r.choice([.5, 2, 4, 30, 600])
                m = make(datetime.now(UTC) + S(ahead))
                for d in [0, r.choice([0, 1]), r.choice([4, 6, 30]), ahead, 4]:
                    if d: await asyncio.sleep(d)
                    await send(m, m.body if r.random() < .5 else reshape(r, m.body, m.el))
                    if r.random() < .3: await fresh(make(), "between repetitions")
                c.check(m.accepted <= 1 and seen.count(m.mark) <= 1, "replay-accepted", f"a message of {ahead} s ahead was accepted {m.accepted} times")
                c.count("future")
            elif k == "wait": await asyncio.sleep(r.choice([.5, 3, 5, 8, 100]))
            elif k == "second_chance":
                # a forgery that reuses the timestamp and nonce does not spoil the genuine message
                m = make()
                forged = sign.signed(m.el, "self", m.stamp, nonce=m.nonce, embed=r.choice([None, m.cert]))
                ok, a = await send(m, forged)
                c.check(not ok, "replay-accepted", lambda: f"forgery accepted: {a}")
                await fresh(m, "after a forgery with its timestamp and nonce")
        for m in sent:
            c.check(m.accepted <= 1 and (not m.handler or seen.count(m.mark) <= 1), "replay-accepted", f"signed at {m.stamp}: accepted {m.accepted} times, handler ran {seen.count(m.mark)} times")
            if m.handler: c.check(seen.count(m.mark) == 1, "fresh-message-refused", f"handler ran {seen.count(m.mark)} times for {m.mark}")
        c.sig(to_vtn, tuple(shape))
        c.sample({"to_vtn": to_vtn, "history": shape, "messages": len(sent)})
    c.run(body, start=vloop.EPOCH + timedelta(hours=3 * c.index))
