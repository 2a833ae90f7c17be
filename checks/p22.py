"""P22: a signature covers exactly the content that is acted on."""
import asyncio, base64, copy, hashlib, hmac, re
from datetime import datetime, timedelta, timezone
from lxml import etree
import fabric, gen, msgs, oadr, sign, vloop, wire, world
ID = "P22"
CASES = {"quick": 640, "thorough": 16000}
RULE = ("a random message of any type is signed (independent signer) and then attacked: any part of the signed content, the replay protection, the signature or the certificates altered, removed, duplicated, relocated, wrapped, substituted from another message or signed again "
        "(RSA with another key, HMAC with public material), plus rewritings that leave the content unchanged; posted to a real VTN and answered to a real VEN, what the handlers received is compared with what an unprotected twin received for the original; every 16th case runs "
        "library peers end to end and verifies every message with an independent verifier; signature = (direction, message type, attack)")
ASSUME = ["RSA-SHA256 cannot be forged (no collisions or factoring are attempted)", "a rewriting that keeps the content may be accepted or refused, but must be acted on as signed"]
UTC = timezone.utc
S = lambda x: timedelta(seconds=x)
DS, DSP, O = sign.DS, sign.DSP, sign.O
parse = lambda b: etree.fromstring(b, etree.XMLParser(resolve_entities=False, strip_cdata=False))
out = lambda t: etree.tostring(t, xml_declaration=True, encoding="utf-8")
SIGNED = lambda t: t.find(O + "oadrSignedObject")

def rebuild(t, b64sig):
    t.find(f"{DS}Signature/{DS}SignatureValue").text = b64sig
    return t

# ---- attacks: fn(r, ctx) -> bytes; ctx.body signed by ctx.cert; other() another message signed by the same holder
def a_text(r, x):
    t = parse(x.body)
    els = [e for e in SIGNED(t).iter() if isinstance(e.tag, str) and len(e) == 0 and (e.text or "").strip()]
    e = r.choice(els); s = e.text
    e.text = r.choice([s + "1", s[:-1] + chr(ord(s[-1]) ^ 1) if s[-1].isalnum() else s + "x", s + s, " " + s, s.swapcase() if s.swapcase() != s else s + "0", "optOut" if s == "optIn" else s + "2", s.replace("e", "\u0435") + ("" if "e" in s else "3")])
    return out(t)
def a_ven(r, x):
    t = parse(x.body)
    for e in SIGNED(t).iter("{%s}venID" % oadr.NS["ei"]): e.text = "other ven"
    return None if parse(x.body).findtext(".//{%s}venID" % oadr.NS["ei"]) is None else out(t)
def a_attr(r, x):
    t = parse(x.body)
    e = SIGNED(t)[0]
    r.choice([lambda: e.set(oadr.q("ei:schemaVersion"), "2.0a"), lambda: e.attrib.pop(oadr.q("ei:schemaVersion"))])()
    return out(t)
def a_drop(r, x):
    t = parse(x.body)
    els = [e for e in SIGNED(t)[0].iter() if isinstance(e.tag, str) and e is not SIGNED(t)[0]]
    if not els: return None
    e = r.choice(els); e.getparent().remove(e)
    return out(t)
def a_dup(r, x):
    t = parse(x.body)
    els = [e for e in SIGNED(t)[0].iter() if isinstance(e.tag, str) and e is not SIGNED(t)[0]]
    if not els: return None
    e = r.choice(els); e.addnext(copy.deepcopy(e))
    return out(t)
def a_reorder(r, x):
    t = parse(x.body)
    c = [(e, k) for e in SIGNED(t)[0].iter() if isinstance(e.tag, str) for k in e if k.getnext() is not None and k.getnext().tag == k.tag and sign.c14n(k) != sign.c14n(k.getnext())]
    if not c: return a_text(r, x)
    e, k = r.choice(c); n = k.getnext(); e.remove(k); n.addnext(k)
    return out(t)
def a_object_swap(r, x):
    t, t2 = parse(x.body), parse(x.other())
    t.replace(SIGNED(t), SIGNED(t2))
    return out(t)
def a_sig_swap(r, x):
    t, t2 = parse(x.body), parse(x.other())
    s = t2.find(DS + "Signature")
    k = r.choice(["SignatureValue", "SignedInfo", "KeyInfo", None])
    if k is None or k == "KeyInfo": t.replace(t.find(DS + "Signature"), s)
    else: t.find(DS + "Signature").replace(t.find(f"{DS}Signature/{DS}{k}"), s.find(DS + k))
    return out(t)
def a_wrap(r, x):
    """the signed object moves into the signature; another one takes its place"""
    t = parse(x.body); orig = SIGNED(t)
    evil = SIGNED(parse(oadr.msg(x.evil())))
    idv = r.choice(["same", "none", "other", "noNs"])
    if idv in ("none", "other", "noNs"): del evil.attrib[O + "Id"]
    if idv == "other": evil.set(O + "Id", "x")
    t.replace(orig, evil)
    sig = t.find(DS + "Signature")
    ob = etree.Element(DS + "Object"); ob.append(orig)
    if r.random() < .3: del orig.attrib[O + "Id"]; ob.set("Id", "oadrSignedObject")
    if r.random() < .5: sig.append(ob)
    else: sig.find(DS + "Object").addprevious(ob)
    return out(t)
def a_wrap_prop(r, x):
    """a fresh unsigned ReplayProtect in front; content altered as well"""
    t = parse(a_text(r, x))
    sig = t.find(DS + "Signature"); ob = sig.find(DS + "Object")
    new = copy.deepcopy(ob); new.find(f".//{DSP}nonce").text = "fresh"
    if r.random() < .5: ob.set("Id", "old")
    ob.addprevious(new) if r.random() < .5 else ob.addnext(new)
    return out(t)
def a_nonce(r, x):
    t = parse(x.body)
    t.find(f".//{DSP}nonce").text += "x"
    return out(t)
def a_ts(r, x):
    t = parse(x.body)
    e = t.find(f".//{DSP}timestamp"); e.text = oadr.fmt_dt(datetime.now(UTC) + S(r.choice([1, 30, 86400])))
    return out(t)
def a_prop_replace(r, x):
    """the signed replay protection is hidden, a fresh one with its id is used"""
    t = parse(x.body)
    sig = t.find(DS + "Signature"); ob = sig.find(DS + "Object")
    new = copy.deepcopy(ob); new.find(f".//{DSP}nonce").text = "fresh"; new.find(f".//{DSP}timestamp").text = oadr.fmt_dt(datetime.now(UTC))
    m = r.choice(["only", "inner", "before"])
    if m == "only": sig.replace(ob, new)
    elif m == "inner": sig.replace(ob, new); new.append(ob.find(DS + "SignatureProperties"))
    else: new.attrib.pop("Id"); inner = copy.deepcopy(ob); inner.set("Id", "prop2"); sig.replace(ob, new); sig.append(inner)
    return out(t)
def a_unsigned(r, x):
    t = parse(x.body); t.remove(t.find(DS + "Signature")); return out(t)
def a_resign(r, x):
    """signed again by somebody else, presenting the certificate of the holder in some way"""
    who = r.choice(["self", "v2", "foreign"])
    return sign.signed(x.el, who, datetime.now(UTC), nonce=x.nonce(), embed=r.choice([None, x.cert, [x.cert, who], [who, x.cert], [x.cert, x.cert]]))
def a_keyvalue(r, x):
    t = parse(sign.signed(x.el, "self", datetime.now(UTC), nonce=x.nonce(), embed=x.cert))
    n = sign.key("self").public_key().public_numbers()
    i2b = lambda i: sign.b64(i.to_bytes((i.bit_length() + 7) // 8, "big"))
    kv = etree.Element(DS + "KeyValue"); rk = etree.SubElement(kv, DS + "RSAKeyValue")
    etree.SubElement(rk, DS + "Modulus").text = i2b(n.n); etree.SubElement(rk, DS + "Exponent").text = i2b(n.e)
    ki = t.find(f"{DS}Signature/{DS}KeyInfo")
    ki.insert(0, kv) if r.random() < .5 else ki.append(kv)
    return out(t)
def a_second_keyinfo(r, x):
    t = parse(sign.signed(x.el, "self", datetime.now(UTC), nonce=x.nonce()))
    ki = t.find(f"{DS}Signature/{DS}KeyInfo")
    xd = etree.Element(DS + "X509Data"); etree.SubElement(xd, DS + "X509Certificate").text = sign.b64(sign.der(x.cert))
    ki.insert(0, xd) if r.random() < .6 else ki.append(xd)
    return out(t)
def a_cert_elsewhere(r, x):
    """signed by another key; the holder's certificate sits in an Object of the signature"""
    t = parse(sign.signed(x.el, "self", datetime.now(UTC), nonce=x.nonce()))
    sig = t.find(DS + "Signature")
    ob = etree.Element(DS + "Object"); etree.SubElement(etree.SubElement(ob, DS + "X509Data"), DS + "X509Certificate").text = sign.b64(sign.der(x.cert)) + "\n"
    sig.append(ob)
    return out(t)
def a_hmac(r, x):
    """HMAC keyed with public material"""
    t = parse(sign.signed(x.el, x.cert, datetime.now(UTC), nonce=x.nonce()))
    alg, h = r.choice([("http://www.w3.org/2000/09/xmldsig#hmac-sha1", "sha1"), ("http://www.w3.org/2001/04/xmldsig-more#hmac-sha256", "sha256")])
    si = t.find(f"{DS}Signature/{DS}SignedInfo"); si.find(DS + "SignatureMethod").set("Algorithm", alg)
    from cryptography.hazmat.primitives import serialization as sz
    pub = sign.key(x.cert).public_key().public_bytes(sz.Encoding.PEM, sz.PublicFormat.SubjectPublicKeyInfo)
    text = t.findtext(f".//{DS}X509Certificate")
    k = r.choice([sign.pem(x.cert), sign.der(x.cert), pub, b"", text.encode(), ("-----BEGIN CERTIFICATE-----\n" + text + "-----END CERTIFICATE-----\n").encode()])
    return out(rebuild(t, sign.b64(hmac.new(k, sign.c14n(sign.detached(si)), h).digest())))
def a_badvalue(r, x):
    t = parse(x.body)
    v = t.find(f".//{DS}SignatureValue"); b = bytearray(base64.b64decode(v.text)); b[r.randrange(len(b))] ^= 1 << r.randrange(8)
    v.text = r.choice([sign.b64(bytes(b)), sign.b64(bytes(len(b))), "AA==", sign.b64(bytes(b[:-1]))])
    return out(t)
def a_digest(r, x):
    """content and digest altered together, signature value kept"""
    t = parse(a_text(r, x))
    t.find(f".//{DS}Reference/{DS}DigestValue").text = sign.b64(hashlib.sha256(sign.c14n(sign.detached(SIGNED(t)))).digest())
    return out(t)
def a_refs(r, x):
    """the holder's own signature covers less than the content and the replay protection"""
    return sign.signed(x.el, x.cert, datetime.now(UTC), nonce=x.nonce(), refs=r.choice([[0], [1], [0, 0], [1, 1], []]))
def a_noprotect(r, x):
    return sign.signed(x.el, x.cert, datetime.now(UTC), protect=False, refs=r.choice([[0], [0, 0]]))
def a_refdrop(r, x):
    t = parse(x.body)
    refs = t.findall(f".//{DS}Reference"); e = r.choice(refs); e.getparent().remove(e)
    return out(t)
def a_refuri(r, x):
    t = parse(x.body)
    e = r.choice(t.findall(f".//{DS}Reference")); e.set("URI", r.choice(["", "#myid", "#nothing", "#prop", "file:///etc/hostname"]))
    return a_text(r, x) if out(t) == out(parse(x.body)) else out(t)
def a_transform(r, x):
    t = parse(a_text(r, x) if r.random() < .5 else x.body)
    tr = r.choice(t.findall(f".//{DS}Transforms"))
    el = etree.Element(DS + "Transform", Algorithm=r.choice(["http://www.w3.org/2000/09/xmldsig#enveloped-signature", "http://www.w3.org/2000/09/xmldsig#base64", "http://www.w3.org/TR/1999/REC-xpath-19991116", "http://www.w3.org/2001/10/xml-exc-c14n#"]))
    if el.get("Algorithm").endswith("19991116"): etree.SubElement(el, DS + "XPath").text = "not(self::*)"
    tr.insert(0, el)
    return out(t)
def a_keyinfo(r, x):
    t = parse(x.body)
    sig = t.find(DS + "Signature"); m = r.choice(["drop", "empty", "text", "nosignature"])
    ki = sig.find(DS + "KeyInfo")
    if m == "drop": sig.remove(ki)
    elif m == "empty": ki.find(f".//{DS}X509Certificate").text = ""
    elif m == "text": ki.find(f".//{DS}X509Certificate").text = "QUJD\n"
    else: sig.remove(sig.find(DS + "SignatureValue"))
    return out(t)
def a_space(r, x):
    """white space inside the signed content"""
    t = parse(x.body); so = SIGNED(t)
    els = [e for e in so.iter() if isinstance(e.tag, str) and len(e)]
    e = r.choice(els); e.text = "\n  " + (e.text or "")
    return out(t)
def a_two_objects(r, x):
    t = parse(x.body)
    evil = SIGNED(parse(oadr.msg(x.evil())))
    (SIGNED(t).addnext if r.random() < .5 else SIGNED(t).addprevious)(evil)
    return out(t)
def a_two_messages(r, x):
    t = parse(x.body)
    evil = SIGNED(parse(oadr.msg(x.evil())))[0]
    SIGNED(t).append(evil) if r.random() < .5 else SIGNED(t).insert(0, evil)
    return out(t)
def a_two_signatures(r, x):
    """a second signature, by somebody else over other content"""
    evil = parse(sign.signed(x.evil(), "self", datetime.now(UTC), nonce=x.nonce()))
    t = parse(x.body)
    m = r.choice(["first", "object"])
    if m == "first": evil.insert(0, t.find(DS + "Signature"))
    else:
        ob = etree.SubElement(evil.find(DS + "Signature"), DS + "Object"); ob.append(t.find(DS + "Signature")); ob.append(SIGNED(t))
    return out(evil)
ATTACKS = {n[2:]: f for n, f in list(globals().items()) if n.startswith("a_")}

# ---- rewritings that keep the content
def n_same(r, x): return x.body
def n_payload_space(r, x):
    t = parse(x.body); t.text = "\n\n"; t[0].tail = " \n"; return out(t)
def n_cert_wrap(r, x):
    t = parse(x.body); e = t.find(f".//{DS}X509Certificate"); s = re.sub(r"\s", "", e.text)
    e.text = r.choice([s, s + "\n", "\n".join(s[i:i + 64] for i in range(0, len(s), 64)) + "\n", "\n".join(s[i:i + 76] for i in range(0, len(s), 76)) + "\n"])
    return out(t)
def n_comment_outside(r, x):
    t = parse(x.body); t.insert(r.choice([0, 1]), etree.Comment("x")); return out(t)
def n_comment_inside(r, x):
    t = parse(x.body)
    els = [e for e in SIGNED(t).iter() if isinstance(e.tag, str) and len(e) == 0 and len((e.text or "").strip()) > 1]
    if not els: return None
    e = r.choice(els); s = e.text; k = r.randrange(1, len(s))
    c = etree.Comment("c"); c.tail = s[k:]; e.text = s[:k]; e.append(c)
    return out(t)
def n_pi_inside(r, x):
    t = parse(x.body)
    els = [e for e in SIGNED(t).iter() if isinstance(e.tag, str) and len(e) == 0 and len((e.text or "").strip()) > 1]
    if not els: return None
    e = r.choice(els); s = e.text; k = r.randrange(1, len(s))
    c = etree.ProcessingInstruction("p", "q"); c.tail = s[k:]; e.text = s[:k]; e.append(c)
    return out(t)
def n_cdata(r, x):
    t = parse(x.body)
    els = [e for e in SIGNED(t).iter() if isinstance(e.tag, str) and len(e) == 0 and (e.text or "").strip() and "]]>" not in e.text and "\r" not in e.text]
    if not els: return None
    e = r.choice(els); e.text = etree.CDATA(e.text)
    return out(t)
def n_no_declaration(r, x): return re.sub(rb"^<\?xml[^>]*\?>\s*", b"", x.body)
def n_charref(r, x): return x.body.decode().encode("ascii", "xmlcharrefreplace")
def n_extra_object(r, x):
    t = parse(x.body); sig = t.find(DS + "Signature"); ob = etree.SubElement(sig, DS + "Object"); ob.append(SIGNED(parse(oadr.msg(x.evil())))); ob[0].attrib.clear()
    return out(t)
NEUTRAL = {n[2:]: f for n, f in list(globals().items()) if n.startswith("n_")}
REQUIRED = ["accepted_pristine", "refused", "neutral_accepted", "to_vtn", "to_ven", "end_to_end", "library_messages_verified"] + [f"attack_{a}" for a in ATTACKS] + [f"neutral_{n}" for n in NEUTRAL]

class X: pass

def unnamed(b):
    try: m = SIGNED(parse(b))[-1]
    except Exception: return False
    return wire.local(m) == "oadrCreatePartyRegistration" and wire.first(m, "venID") is None

def scrub(v):
    """Comparable copy of handler arguments."""
    if isinstance(v, dict): return {k: scrub(x) for k, x in sorted(v.items()) if k != "fingerprint"}
    if isinstance(v, (list, tuple)): return [scrub(x) for x in v]
    return v if isinstance(v, (str, int, float, bool, type(None), datetime, timedelta)) else repr(v)

def vtn(log, **kw):
    srv = world.server(None, **kw)
    def h(kind, ret=None):
        async def f(*a, **k):
            log.append((kind, scrub(copy.deepcopy(list(a))), scrub(copy.deepcopy(k)))); return ret
        return f
    async def poll(ven_id): log.append(("poll", ven_id))
    async def req(ven_id): log.append(("request", ven_id))
    async def crt(ven_id, event_id, opt_type): log.append(("created", ven_id, event_id, opt_type))
    async def rep(report): log.append(("offer", scrub(copy.deepcopy(report)))); return []
    srv.add_handler("on_poll", poll); srv.add_handler("on_request_event", req); srv.add_handler("on_created_event", crt); srv.add_handler("on_register_report", rep)
    srv.add_handler("on_update_report", h("update")); srv.add_handler("on_create_party_registration", h("register", ("v", "r"))); srv.add_handler("on_cancel_party_registration", h("cancel"))
    srv.add_handler("on_created_report", h("created_report"))
    return srv

def case(c):
    r = c.rng
    if c.index % 16 == 5: return end_to_end(c)
    to_vtn = r.random() < .6
    async def body(loop):
        n = [0]
        def nonce():
            n[0] += 1; return f"{c.seed}-{c.index}-{n[0]}"
        x = X(); x.nonce = nonce
        x.cert = r.choice(["v0", "v1", "v3"]) if to_vtn else "vtn"
        ven = gen.uid(r, "pmun")
        if to_vtn:
            kinds = [k for k in msgs.VEN_KINDS if k not in ("query", "response", "canceled_report")]
            kind = r.choice(kinds); build = lambda k=None: msgs.ven_msg(r, ven, k or r.choice(kinds))[1]
            log, ref = [], []
            style = r.choice(["ven_lookup", "fingerprint_lookup"])
            look = (lambda ven_id: {"ven_id": ven_id, "registration_id": "r", "fingerprint": sign.fp(x.cert)}) if style == "ven_lookup" else (lambda ven_id: sign.fp(x.cert))
            srv, twin = vtn(log, **{style: look}), vtn(ref)
            async def act(b, service):
                k = len(log)
                a = await world.post(srv, service, b, peer=sign.der(x.cert))
                acted = log[k:]
                ok = a.status == 200 and a.type != "oadrRequestReregistration" and (a.bad is None) and str(a.code) == "200"
                return ok or bool(acted), acted, a
            async def reference(b, service):
                k = len(ref)
                a = await world.post(twin, service, b)
                return ref[k:], a
            service = msgs.VEN_SERVICE[kind]
            c.count("to_vtn")
        else:
            kind = r.choice(msgs.VTN_KINDS); build = lambda k=None: msgs.vtn_msg(r, ven, k)[1]
            net = fabric.Net(); cur = [b""]
            net.add_fn("vtn", lambda svc, b, ex: (200, cur[0]))
            cl = world.client(vtn_fingerprint=sign.fp("vtn")); tw = world.client()
            cl.ven_id = tw.ven_id = ven
            how = r.choice(["query_registration", "poll", "request_event"])
            async def get(client, b):
                cur[0] = b
                return await getattr(client, how)()
            async def act(b, service):
                t, p = await get(cl, b)
                return t is not None, ([(t, scrub(p))] if t is not None else []), t
            async def reference(b, service):
                t, p = await get(tw, b)
                return [(t, scrub(p))], t
            service = None
            c.count("to_ven")
        x.el = build(kind)
        x.evil = lambda: build(kind if r.random() < .5 else None)
        x.other = lambda: sign.signed(build(kind if r.random() < .5 else None), x.cert, datetime.now(UTC), nonce=nonce())
        base, info = await reference(oadr.msg(x.el), service)
        fresh = lambda: sign.signed(x.el, x.cert, datetime.now(UTC), nonce=nonce(), b64wrap=r.random() < .5)
        done = []
        for step in range(r.choice([6, 10, 14])):
            x.body = fresh()
            if r.random() < .75:
                name = r.choice(list(ATTACKS)); f, harmful = ATTACKS[name], True
            else:
                name = r.choice(list(NEUTRAL)); f, harmful = NEUTRAL[name], False
            b = f(r, x)
            if b is None: continue
            if harmful and name in ("sig_swap", "object_swap") and sign.verify(b, x.cert) is None: continue
            if kind == "register" and harmful and unnamed(b): continue       # a new registration: nobody vouches for it
            c.count(("attack_" if harmful else "neutral_") + name)
            ok, acted, a = await act(b, service)
            tag = lambda: f"{name} on {kind} ({'to VTN' if to_vtn else 'to VEN'}): {a} acted on {acted}; original content {base}; message {b[:3000]!r}"
            c.note(name, kind, ok)
            if harmful:
                if not c.check(not ok, "forged-message-accepted", tag): continue
                c.count("refused")
            elif ok:
                c.count("neutral_accepted")
                c.check(acted == base, "acted-on-other-content", tag)
            if name in ("same", "no_declaration", "payload_space"):
                c.check(ok, "genuine-message-refused", tag)
            done.append(name)
            # the untouched message still counts (and only then)
            if r.random() < .4:
                ok, acted, a = await act(fresh(), service)
                c.check(ok and acted == base, "genuine-message-refused", lambda: f"after {name}: {kind} {a} acted on {acted}, expected {base}")
                c.count("accepted_pristine")
            if r.random() < .3: await asyncio.sleep(r.choice([.1, 2, 7]))
        for d in done: c.sig(to_vtn, kind, d)
        c.sample({"to_vtn": to_vtn, "kind": kind, "attacks": done})
    c.run(body, start=vloop.EPOCH + timedelta(minutes=5 * c.index))

def end_to_end(c):
    """Library client and library VTN with signing certificates; every message must verify."""
    r = c.rng
    async def body(loop):
        net = fabric.Net()
        cn = r.choice(["v0", "v3"])
        vid = gen.uid(r, "pmun")
        reg = gen.uid(r, "pmu")
        srv = world.server(net, ven_lookup=lambda ven_id: {"ven_id": ven_id, "registration_id": reg, "fingerprint": sign.fp(cn)}, requested_poll_freq=S(r.choice([10, 30])), **sign.paths("vtn"))
        net.hosts["vtn"].serve = serve(srv, cn)
        got = {"events": [], "values": [], "answers": []}
        async def register(p): return vid, reg
        async def offered(ven_id, resource_id, measurement, unit, scale, min_sampling_interval, max_sampling_interval):
            async def cb(values): got["values"] += [v for _, v in values]
            return cb, min_sampling_interval
        srv.add_handler("on_create_party_registration", register); srv.add_handler("on_register_report", offered)
        eid = gen.uid(r, "pmun")
        async def answered(ven_id, event_id, opt_type): got["answers"].append((ven_id, event_id, opt_type))
        srv.add_event(ven_id=vid, signal_name="simple", signal_type="level", event_id=eid, callback=answered, market_context=f"http://mc/{r.randrange(99)}?a=1&b=<x>",
                      intervals=[{"dtstart": gen.when(r) + timedelta(days=r.choice([20, 400])), "duration": gen.dur(r), "signal_payload": r.choice([0, 1, 2])}])
        cl = world.client(name=gen.txt(r, "pmul"), vtn_fingerprint=sign.fp("vtn"), ca_file=sign.path("ca", "crt"), **sign.paths(cn))
        cl.add_handler("on_event", lambda e: (got["events"].append(e["event_descriptor"]["event_id"]), "optIn")[1])
        val = round(r.uniform(-1e4, 1e4), 3)
        cl.add_report(callback=lambda: val, report_specifier_id=gen.uid(r, "pmu"), resource_id=gen.txt(r, "mu"), measurement="voltage", sampling_rate=S(20), unit="V")
        await cl.run()
        await asyncio.sleep(75)
        # stop the jobs before the loop ends
        await cl.stop()
        for i, ex in enumerate(net.log):
            for b, who in ((ex.req, cn), (ex.res, "vtn")):
                if not b: continue
                v = sign.verify(b, who)
                c.check(v is None, "library-signature-wrong", lambda: f"exchange {i} {ex.service}: {v}: {b[:1500]!r}")
                c.check(wire.invalid(b) is None, "library-signature-wrong", lambda: f"exchange {i} {ex.service}: {wire.invalid(b)}: {b[:1500]!r}")
                c.count("library_messages_verified")
        c.check(got["events"] == [eid] and got["answers"] == [(vid, eid, "optIn")] and got["values"][:2] == [val, val], "genuine-message-refused", lambda: f"ven {vid!r} event {eid!r} value {val}: {got} {[e for e in net.log]}")
        c.count("end_to_end")
        c.sig("e2e", cn, len(net.log))
    c.run(body, start=vloop.EPOCH + timedelta(minutes=5 * c.index))

def serve(srv, cn):
    async def f(ex, peer):
        st, b, h = await fabric.post_app(srv.app, f"{srv.http_path_prefix}/{ex.service}", ex.req, headers=ex.headers, tls=True, peer_der=sign.der(cn))
        return st, b
    return f
