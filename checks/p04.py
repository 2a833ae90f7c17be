"""P04: hostile requests cannot crash, mislead or stall the VTN."""
import asyncio, ctypes, copy, gzip, logging, os, re, socket, struct, tempfile, time
from datetime import datetime, timedelta, timezone
from lxml import etree
import fabric, gen, msgs, oadr, sign, wire, world
ID = "P04"
CASES = {"quick": 1600, "thorough": 12000}
RULE = ("two identical real VTNs serve the same legitimate traffic of two VENs; one of them is also sent hostile requests (random bytes, damaged, truncated and spliced messages, structurally changed messages of every type, wrong endpoints, methods, paths and content types, entities and document types naming a canary file and a "
        "canary server, deep, wide and oversized content, extreme numbers and dates, bad signatures), one at a time or many at once; every answer must be a 4xx or a schema-valid message, handler runs need schema-valid content, the canaries (watched by inotify and a listening socket) stay untouched, every request is answered within "
        "seconds of processor time, and both VTNs must answer the legitimate traffic alike; signature = (configuration, kinds of hostile requests)")
ASSUME = ["the operator's handlers do not fail"]
KINDS = ["bytes", "damaged", "truncated", "spliced", "structure", "structure", "structure", "structure", "text", "text", "text", "wrong_endpoint", "vtn_message", "content_type", "entity", "doctype", "deep", "wide", "oversized", "encoding", "signature", "path", "valid", "valid", "not_ours", "compressed"]
REQUIRED = sorted(set(KINDS)) + ["answers_4xx", "answers_message", "answers_empty", "valid_content", "invalid_content", "handler_runs", "legit_requests", "secure", "lookup", "no_handlers", "concurrent"]
WATCHDOG = 120
UTC = timezone.utc
S = lambda x: timedelta(seconds=x)
GOOD = ["good 1", "good-2"]
LIMIT = 8.0          # seconds of processor time for one request

class Canary:
    """A file and a server that nobody may touch."""
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="p04-")
        self.path = os.path.join(self.dir, "canary.txt")
        with open(self.path, "w") as f: f.write("CANARY-CONTENT")
        with open(os.path.join(self.dir, "x.dtd"), "w") as f: f.write('<!ENTITY e "CANARY-CONTENT">')
        self.libc = ctypes.CDLL(None, use_errno=True)
        self.fd = self.libc.inotify_init1(os.O_NONBLOCK)
        self.libc.inotify_add_watch(self.fd, self.dir.encode(), 0x20 | 0x1)    # IN_OPEN | IN_ACCESS
        self.sock = socket.socket(); self.sock.bind(("127.0.0.1", 0)); self.sock.listen(8); self.sock.setblocking(False)
        self.url = f"http://127.0.0.1:{self.sock.getsockname()[1]}/x"
    def touched(self):
        out = []
        try:
            if os.read(self.fd, 4096): out.append("file")
        except BlockingIOError: pass
        try:
            s, _ = self.sock.accept(); s.close(); out.append("network")
        except BlockingIOError: pass
        return out

def setup():
    global canary, errors
    canary = Canary()
    assert open(canary.path).read() and canary.touched() == ["file"], "the file canary does not work"
    s = socket.create_connection(("127.0.0.1", canary.sock.getsockname()[1])); s.close()
    assert "network" in canary.touched(), "the network canary does not work"

def weird_text(r):
    return r.choice(["", " ", "0", "-1", "None", "true", "nan", "1e400", "-1e400", "INF", "9" * 30, "9" * 5000, "1" * 400 + ".5", "٣", "x" * 3000, "\u202e", "\U0001f4a9", "a\tb\nc", "{{ 7*7 }}", "{% raw %}", "%s%n", "${x}", "../../etc/passwd", "&lt;x&gt;", "]]>", "'\"<>&", "PT1H", "P" + "9" * 20 + "D",
                     "P99999999999999Y", "PT", "P", "-PT1H", "+PT5M", "P1Y2M", "PT0S", "2027-03-10T06:00:00Z", "0001-01-01T00:00:00Z", "9999-12-31T23:59:59Z", "9999-12-31T23:59:59.999999999999Z", "2027-02-30T00:00:00Z", "2027-03-10T24:00:00Z", "2027-03-10T06:00:60Z", "99999-01-01T00:00:00Z", "-0044-03-15T00:00:00Z", "2027-03-10T06:00:00+02:00", "2027-03-10T06:00:00",
                     "optIn", "optOut", "always", "2.0a", "2.0b", "simpleHttp", "xmpp", "200", "459", "METADATA_TELEMETRY_USAGE", "TELEMETRY_USAGE", "METADATA_TELEMETRY_STATUS", "x-y", "Direct Read", "voltage", "good 1", "0" * 400, "+5", "٠", "1_000", " 5 ", "0x10", "1,5", "4294967296", "9223372036854775808", "INVALID", "VTN_1", "VTN_2"])

def els(root): return [e for e in root.iter() if isinstance(e.tag, str)]

def restructure(r, root):
    """Change the element tree of a message, in place."""
    for _ in range(r.choice([1, 1, 1, 2, 3, 6])):
        all_ = els(root)
        e = r.choice(all_[2:] or all_)
        p = e.getparent()
        k = r.choice(["drop", "drop", "drop", "double", "swap", "rename", "empty", "attr", "noattr", "nil", "type", "comment", "pi", "cdata", "move", "ns", "wrap", "unwrap", "text", "schema"])
        if k == "drop" and p is not None: p.remove(e)
        elif k == "double" and p is not None:
            for _ in range(r.choice([1, 1, 2, 30])): p.insert(p.index(e), copy.deepcopy(e))
        elif k == "swap" and p is not None and len(p) > 1:
            cs = list(p); r.shuffle(cs)
            for x in cs: p.append(x)
        elif k == "rename": e.tag = r.choice([r.choice(all_).tag, "x", "{http://openadr.org/oadr-2.0b/2012/07}oadrPoll", "{http://docs.oasis-open.org/ns/energyinterop/201110}venID", "{http://openadr.org/oadr-2.0b/2012/07}oadrCancelOpt"])
        elif k == "empty":
            for x in list(e): e.remove(x)
            e.text = None
        elif k == "attr": e.set(r.choice(["x", "{http://www.w3.org/XML/1998/namespace}lang", "{http://docs.oasis-open.org/ns/energyinterop/201110}schemaVersion", "Id", "{http://openadr.org/oadr-2.0b/2012/07}Id"]), r.choice(["", "2.0b", "2.0a", "en", "x" * 100]))
        elif k == "noattr":
            for a in list(e.attrib): del e.attrib[a]
        elif k == "nil": e.set("{http://www.w3.org/2001/XMLSchema-instance}nil", r.choice(["true", "false"]))
        elif k == "type": e.set("{http://www.w3.org/2001/XMLSchema-instance}type", r.choice(["xs:string", "oadr:oadrPollType", "x"]))
        elif k == "schema": root.set("{http://www.w3.org/2001/XMLSchema-instance}schemaLocation", f"http://openadr.org/oadr-2.0b/2012/07 {r.choice([canary.path, canary.url])}")
        elif k == "comment": e.insert(0, etree.Comment("x"))
        elif k == "pi": e.insert(0, etree.ProcessingInstruction("xml-stylesheet", f'href="{canary.url}" type="text/xsl"'))
        elif k == "cdata" and not len(e): e.text = etree.CDATA(r.choice(["a<b", "", (e.text or "x").replace("]]>", "")]))
        elif k == "move" and p is not None:
            q = r.choice(all_)
            if e not in q.iterancestors() and q is not e: q.append(e)
        elif k == "ns": e.tag = "{urn:x}" + wire.local(e)
        elif k == "wrap" and p is not None:
            i = p.index(e); w = etree.Element(r.choice(all_).tag); p.insert(i, w); w.append(e)
        elif k == "unwrap" and p is not None:
            i = p.index(e)
            for x in list(e): p.insert(i, x)
            p.remove(e)
        elif k == "text": e.tail = weird_xml(r)

def weird_xml(r):
    t = weird_text(r)
    return "".join(ch for ch in t if ch in "\t\n\r" or ord(ch) >= 32)

def retext(r, root):
    leaves = [e for e in els(root) if not len(e)]
    for e in r.sample(leaves, min(len(leaves), r.choice([1, 1, 1, 2, 4, 50]))): e.text = weird_xml(r)
    if r.random() < .1:
        e = r.choice(els(root)); e.text = weird_xml(r)

def raw(r, evil, gids):
    """A message to start from: (service, payload element)."""
    if r.random() < .12:
        k, el = "opt", r.choice([lambda: oadr.create_opt("q", evil, "o"), lambda: oadr.cancel_opt("q", evil, "o")])()
        return r.choice(["EiOpt", "EiEvent"]), oadr.payload(el)
    k, el = msgs.ven_msg(r, evil)
    return msgs.VEN_SERVICE[k], oadr.payload(el)

def ser(p, **kw): return etree.tostring(p, xml_declaration=True, encoding=kw.get("encoding", "utf-8"))

def hostile(r, kind, evil, gids):
    """(path suffix or whole path, headers, body)"""
    svc, p = raw(r, evil, gids)
    hdr = {"Content-Type": "application/xml", "Host": "vtn"}
    body = None
    if kind == "bytes":
        body = r.choice([b"", b" ", b"\n\n", b"\x00", b"<", b"<?xml", b"<a/>", b"{}", b"null", b"\xff\xfe<\x00a\x00/\x00>\x00", b"\xef\xbb\xbf", r.randbytes(r.choice([1, 10, 1000])), b"<oadrPayload/>", b'<oadrPayload xmlns="http://openadr.org/oadr-2.0b/2012/07"/>', b'<oadrPayload xmlns="http://openadr.org/oadr-2.0b/2012/07"><oadrSignedObject/></oadrPayload>', b"a=b&c=d",
                         b'<oadrSignedObject xmlns="http://openadr.org/oadr-2.0b/2012/07"/>', b'<venID xmlns="http://docs.oasis-open.org/ns/energyinterop/201110">x</venID>', b'<oadrPoll xmlns="http://openadr.org/oadr-2.0b/2012/07"><venID xmlns="http://docs.oasis-open.org/ns/energyinterop/201110">x</venID></oadrPoll>'])
    elif kind == "damaged":
        b = bytearray(ser(p))
        for _ in range(r.choice([1, 1, 2, 5, 40])):
            i = r.randrange(len(b))
            k = r.choice(["flip", "del", "ins", "dup"])
            if k == "flip": b[i] = r.randrange(256)
            elif k == "del": del b[i:i + r.choice([1, 5, 50])]
            elif k == "ins": b[i:i] = r.choice([b"<", b">", b"&", b"\x00", b"&#0;", b"&#x110000;", b"&x;", b"]]>", b"<!--", b"-->", b"<![CDATA[", b"\xc3", b"/", b'"'])
            else: b[i:i] = b[i:i + r.choice([5, 60])]
            if not b: b = bytearray(b"<")
        body = bytes(b)
    elif kind == "truncated": b = ser(p); body = b[:r.randrange(len(b))]
    elif kind == "spliced":
        a, b = ser(p), ser(raw(r, evil, gids)[1]); body = r.choice([lambda: a[:r.randrange(len(a))] + b[r.randrange(len(b)):], lambda: a + b, lambda: a + b"\n" + b"x", lambda: b"\n" + a])()
    elif kind == "structure": restructure(r, p); body = ser(p)
    elif kind == "text":
        retext(r, p); body = ser(p)
        if r.random() < .15: restructure(r, p); body = ser(p)
    elif kind == "wrong_endpoint": svc = r.choice(["EiEvent", "OadrPoll", "EiRegisterParty", "EiReport", "EiOpt", "x"]); body = ser(p)
    elif kind == "vtn_message":
        k, el = msgs.vtn_msg(r, evil); p = oadr.payload(el); svc = r.choice(["EiEvent", "OadrPoll", "EiRegisterParty", "EiReport"])
        if r.random() < .3: restructure(r, p)
        body = ser(p)
    elif kind == "content_type":
        body = ser(p); ct = r.choice([None, "", "text/xml", "application/json", "text/plain", "application/x-www-form-urlencoded", "multipart/form-data; boundary=x", "multipart/form-data", "application/xmlx", "APPLICATION/XML", "application/xml; charset=utf-8", "application/xml; charset=bogus", "application/xml; charset=utf-16", "application/xml;" + "x" * 3000, "; ;", "application/xml\u00e9"])
        if ct is None: del hdr["Content-Type"]
        else: hdr["Content-Type"] = ct
    elif kind in ("entity", "doctype"):
        b = ser(p).decode().split("?>", 1)[1]
        root = "oadr:oadrPayload"
        f, u = canary.path, canary.url
        dt = r.choice([f'<!DOCTYPE {root} [<!ENTITY e SYSTEM "file://{f}">]>', f'<!DOCTYPE {root} [<!ENTITY e SYSTEM "{f}">]>', f'<!DOCTYPE {root} [<!ENTITY e SYSTEM "{u}">]>', f'<!DOCTYPE {root} SYSTEM "{canary.dir}/x.dtd">', f'<!DOCTYPE {root} PUBLIC "x" "{u}">', f'<!DOCTYPE {root} [<!ENTITY % p SYSTEM "file://{canary.dir}/x.dtd"> %p;]>',
                       f'<!DOCTYPE {root} [<!ENTITY e "text">]>', f'<!DOCTYPE {root}>', f'<!DOCTYPE x [<!ATTLIST venID x CDATA "y">]>', f'<!DOCTYPE {root} [<!NOTATION n SYSTEM "{u}"><!ENTITY e SYSTEM "{f}" NDATA n>]>',
                       f'<!DOCTYPE {root} [' + '<!ENTITY a0 "lol">' + "".join(f'<!ENTITY a{i} "{("&a%d;" % (i - 1)) * 10}">' for i in range(1, 12)) + '<!ENTITY e "&a11;">]>', f'<!DOCTYPE {root} [<!ENTITY e "&f;"><!ENTITY f "&e;">]>', f'<!DOCTYPE {root} [<!ENTITY e "' + "A" * 50000 + '">]>'])
        if kind == "entity":
            i = b.find(evil)
            t = r.choice(["&e;", "&e;" * 300, "%p;", "x&e;y", "&undefined;"])
            b = b.replace(f">{oadr_escape(evil)}<", f">{t}<") if r.random() < .7 else b.replace("schemaVersion=\"2.0b\"", f"schemaVersion=\"{t}\"")
            if r.random() < .2: b = b.replace(">" + oadr_escape(evil) + "<", f'><xi:include xmlns:xi="http://www.w3.org/2001/XInclude" href="{f}" parse="text"/><')
        body = ('<?xml version="1.0"?>' + dt + b).encode()
    elif kind == "deep":
        n = r.choice([10, 300, 5000, 50000]); body = r.choice([b"<a>" * n, b"<a>" * n + b"</a>" * n, ser(p).replace(b"</oadr:oadrSignedObject>", b"<a>" * n + b"</a>" * n + b"</oadr:oadrSignedObject>")])
    elif kind == "wide":
        n = r.choice([100, 800])
        body = r.choice([lambda: oadr.msg(oadr.created_event(evil, [(f"e{i}", 0, "optIn", "q", 200) for i in range(n)])), lambda: oadr.msg(oadr.created_report("q", evil, [f"r{i}" for i in range(n)])),
                         lambda: oadr.msg(oadr.update_report("q", evil, [oadr.report_data("q", "s", [(f"r{i}", datetime.now(UTC), 1.0) for i in range(n)])])), lambda: ser(p).replace(b"<oadr:oadrSignedObject", b"<oadr:oadrSignedObject " + b" ".join(b'a%d="1"' % i for i in range(n)))])()
        svc = r.choice([svc, "EiEvent", "EiReport"])
    elif kind == "oversized":
        n = r.choice([900_000, 1_100_000, 3_000_000]); body = r.choice([lambda: b" " * n + ser(p), lambda: ser(p) + b" " * n, lambda: b"x" * n, lambda: ser(p).replace(b"</oadr:oadrSignedObject>", b"<!--" + b"x" * n + b"--></oadr:oadrSignedObject>"), lambda: oadr.msg(oadr.poll("x" * n))])()
    elif kind == "encoding":
        enc = r.choice(["utf-16", "utf-16le", "latin-1", "ascii", "utf-32", "cp037", "utf-7", "bogus", "UTF-8", "euc-jp"])
        x = ser(p).decode().split("?>", 1)[1]
        decl = r.choice([enc, enc, "utf-8", "utf-16"])
        try: body = (f'<?xml version="{r.choice(["1.0", "1.0", "1.1", "2.0"])}" encoding="{decl}"?>' + x).encode(enc if enc != "bogus" else "utf-8", "xmlcharrefreplace")
        except Exception: body = x.encode()
        if r.random() < .2: body = b"\xef\xbb\xbf" + body
    elif kind == "signature":
        c = r.choice(["v0", "v1", "self", "foreign"])
        body = sign.signed(p[0][0], c, datetime.now(UTC), nonce=str(r.random()))
        if r.random() < .7:
            q = etree.fromstring(body); sg = q[0]
            if r.random() < .5: retext(r, sg)
            else: restructure(r, sg)
            body = ser(q)
    elif kind == "path": svc = r.choice(["", "/", "EiEvent/", "EiEvent/../OadrPoll", "eievent", "EiEvent%00", "%2e%2e/EiEvent", "EiEvent?x=y", "//EiEvent", "OadrPoll;x", "é"]); body = ser(p)
    elif kind == "not_ours":
        # names what belongs to others
        body = oadr.msg(r.choice([lambda: oadr.created_event(evil, [(r.choice(gids), 0, r.choice(["optIn", "optOut"]), "q", r.choice([200, 452])) for _ in range(r.choice([1, 3]))]), lambda: oadr.canceled_report("q", evil, gids), lambda: oadr.created_report("q", evil, gids),
                                  lambda: oadr.cancel_party_registration("q", r.choice(GOOD), evil), lambda: oadr.create_party_registration("q", ven_name=GOOD[0], registration_id="x")])())
        svc = r.choice(["EiEvent", "EiReport", "EiRegisterParty"])
    elif kind == "compressed":
        hdr["Content-Encoding"] = r.choice(["gzip", "deflate", "br", "bogus"]); body = gzip.compress(ser(p)) if r.random() < .7 else ser(p)
    else: body = ser(p)
    return svc, hdr, body

def oadr_escape(t): return t.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")

class Errors(logging.Handler):
    """The last error lines of the library (for reports only)."""
    def __init__(self): super().__init__(logging.ERROR); self.lines = []
    def emit(self, rec): self.lines.append(rec.getMessage()[-1500:])

def why_failed(lines):
    x = next((l for l in lines if "encountered an error" in l), "")
    m = re.search(r"encountered an error: (\w+)", x)
    loc = re.findall(r'openleadr/([\w/]+\.py)", line \d+, in (\w+)', "".join(lines))
    return (m.group(1) if m else "?") + (":" + ".".join(loc[-1]) if loc else "")

class Twin:
    """One of the two equal VTNs."""
    def __init__(self, cfg, tag):
        self.cfg, self.calls = cfg, []
        kw = {}
        known = cfg["known"]
        def lookup(ven_id):
            self.calls.append(("lookup", ven_id))
            if ven_id in GOOD: return {"ven_id": ven_id, "registration_id": "r", "fingerprint": sign.fp("v" + str(GOOD.index(ven_id)))}
            return {"ven_id": ven_id, "registration_id": "r", "fingerprint": sign.fp("v2")} if known else None
        if cfg["lookup"]: kw["ven_lookup"] = lookup
        self.srv = world.server(vtn_id="VTN_1", verify_message_signatures=cfg["verify"], **kw)
        self.runs = []
        def h(name, result=None):
            def f(*a, **k):
                self.runs.append((name, k.get("ven_id") or (a[0].get("ven_id") if a and isinstance(a[0], dict) else (a[0] if a else None)), sorted(k) if k else None)); return result(*a, **k) if result else None
            return f
        if cfg["handlers"]:
            s = self.srv
            s.add_handler("on_create_party_registration", h("register", lambda p: ("ven-" + str(p.get("ven_name"))[:20], "reg")))
            s.add_handler("on_cancel_party_registration", h("cancel"))
            s.add_handler("on_query_registration", h("query")) if cfg["query"] else None
            def offer(ven_id, resource_id, measurement, unit, scale, min_sampling_interval, max_sampling_interval):
                self.runs.append(("offer", ven_id, resource_id)); return (lambda values: self.runs.append(("values", ven_id, len(values)))), min_sampling_interval
            def offer_full(report):
                self.runs.append(("offer", "?", len(report["report_descriptions"])))
                return [((lambda values: self.runs.append(("values", "?", len(values)))), S(10)) for _ in report["report_descriptions"]]
            if cfg["offer"] == "each": s.add_handler("on_register_report", offer)
            elif cfg["offer"] == "full": s.add_handler("on_register_report", offer_full)
            s.add_handler("on_update_report", h("update"))
            s.add_handler("on_created_report", h("created_report"))
        self.n = 0
    def add(self, v, eid, start, prio):
        def cb(ven_id, event_id, opt_type): self.runs.append(("opt", ven_id, event_id, opt_type))
        def dl(event): self.runs.append(("delivered", v, eid))
        self.srv.add_event(ven_id=v, signal_name="simple", signal_type="level", event_id=eid, intervals=[{"dtstart": start, "duration": S(3600), "signal_payload": 1}], callback=cb)
    def nonce(self):
        self.n += 1; return f"{id(self)}-{self.n}-{self.cfg['salt']}"
    async def legit(self, v, kind, arg):
        cfg = self.cfg
        peer = sign.der("v" + str(GOOD.index(v))) if cfg["tls"] else None
        if kind == "poll": svc, el = "OadrPoll", oadr.poll(v)
        elif kind == "request": svc, el = "EiEvent", oadr.request_event(v, "rq")
        elif kind == "created": svc, el = "EiEvent", oadr.created_event(v, arg, rid="rq")
        elif kind == "offer": svc, el = "EiReport", oadr.register_report("rq", v, [oadr.report_offer("spec " + v, "METADATA_TELEMETRY_USAGE", [dict(r_id=f"r{i}", source=[("resource_id", f"res{i} {v}")], measurement=msgs.MS[0], min=S(10), max=S(60)) for i in range(arg)])])
        elif kind == "query": svc, el = "EiRegisterParty", oadr.query_registration("rq")
        else: svc, el = "EiRegisterParty", oadr.create_party_registration("rq", ven_id=v, ven_name=v)
        a = await world.post(self.srv, svc, sign.signed(el, "v" + str(GOOD.index(v)), datetime.now(UTC), nonce=self.nonce()) if cfg["tls"] and cfg["verify"] else el, peer=peer, tls=cfg["tls"])
        x = [a.status, a.type, a.code, a.bad, wire.text(a.el, "venID") if a.el is not None else None]
        x.append([(e["event_id"], e["modification_number"], e["status"]) for e in a.events])
        if a.type == "oadrRegisteredReport":
            x.append([(wire.text(q, "reportSpecifier", "reportSpecifierID"), wire.text(q, "reportSpecifier", "granularity", "duration"), [wire.text(p, "rID") for p in wire.kids(wire.first(q, "reportSpecifier"), "specifierPayload")]) for q in wire.kids(a.el, "oadrReportRequest")])
        return x

def case(c):
    r = c.rng
    seen = set()
    async def body(loop):
        cfg = dict(salt=f"{c.seed}-{c.index}", lookup=r.random() < .5, known=r.random() < .5, tls=False, verify=r.random() < .7, handlers=r.random() < .8, query=r.random() < .3, offer=r.choice(["each", "full", None]))
        if cfg["lookup"] and r.random() < .35: cfg["tls"] = True
        c.count("secure" if cfg["tls"] else "plain"); c.count("lookup" if cfg["lookup"] else "no_lookup"); c.count("handlers" if cfg["handlers"] else "no_handlers")
        logs = Errors(); logging.getLogger("openleadr").addHandler(logs)
        A, B = Twin(cfg, "A"), Twin(cfg, "B")
        gids = []
        evil = r.choice(["evil", "evil & <co>", "good 1 ", "good", "Good 1"][:2] + ["évil", "007"])
        def legit_prepare():
            v = r.choice(GOOD)
            k = r.choice(["poll", "poll", "request", "created", "offer", "query", "register", "add"])
            if k == "add":
                eid = gen.uid(r, "pm") + str(len(gids)); gids.append(eid); st = datetime.now(UTC) + S(r.randrange(100, 100000))
                for t in (A, B): t.add(v, eid, st, 0)
                return None
            arg = None
            if k == "created": arg = [(r.choice(gids) if gids else "no", 0, r.choice(["optIn", "optOut"]), "q", 200) for _ in range(r.choice([1, 2]))]
            if k == "offer": arg = r.choice([1, 2])
            return v, k, arg
        legit_prepare()
        async def legit():
            q = legit_prepare()
            if q is None: return
            k0, k1 = len(A.runs), len(B.runs)
            a = await A.legit(*q); b = await B.legit(*q)
            c.count("legit_requests")
            c.check(a == b, "legit-answer-differs", lambda: f"{q}: {a} on the attacked VTN, {b} without the attacks; attacks {sorted(seen)}")
            c.check(A.runs[k0:] == B.runs[k1:], "legit-handlers-differ", lambda: f"{q}: {A.runs[k0:]} on the attacked VTN, {B.runs[k1:]} without")
        async def attack(alone=True):
            kind = r.choice(KINDS)
            svc, hdr, b = hostile(r, kind, evil, gids or ["none"])
            seen.add(kind); c.count(kind)
            try: b = b if isinstance(b, bytes) else b.encode()
            except UnicodeEncodeError: return
            if not cfg["tls"] and re.search(rb"venID[^<>]*>\s*good", b): return    # nothing tells the sender from the real VEN
            peer = r.choice([None, sign.der("v2"), sign.der("v2"), sign.der("foreign")]) if cfg["tls"] else None
            n0 = len(logs.lines)
            k0, t0 = len(A.runs), time.process_time()
            st, ans, h = await fabric.post_app(A.srv.app, f"{fabric.PATH}/{svc}", b, headers=hdr, tls=cfg["tls"], peer_der=peer)
            t = time.process_time() - t0
            runs = A.runs[k0:]
            bad = wire.invalid(b) if kind != "compressed" else wire.invalid(b)
            what = lambda: f"{kind} to {svc} {hdr.get('Content-Type')} ({cfg}): {b[:1500] + b" ... " + b[-200:] if len(b) > 1700 else b!r} answered {st} {ans[:300]!r}"
            c.count("valid_content" if bad is None else "invalid_content")
            if alone:
                # (libxml2 does not check the uniqueness of xs:ID values while parsing)
                c.check(t < LIMIT, "stalled", lambda: f"{t:.1f} s of processor time: {what()}")
                if runs: c.count("handler_runs", len(runs))
                c.check(bad is None or not runs or "atomic type 'xs:ID'" in bad, "handler-for-invalid-content", lambda: f"{runs} ran for content that is {bad}: {what()}")
                c.check(not any(x[1] in GOOD for x in runs) or b"good" in b, "handler-for-other-ven", lambda: f"{runs}: {what()}")
            if 400 <= st < 500: c.count("answers_4xx")
            elif st == 200 and ans:
                v = wire.invalid(ans)
                c.check(v is None, "invalid-answer", lambda: f"{v}: {what()}"); c.count("answers_message")
                if bad is None: c.check(wire.message(b)[0] != "oadrResponse", "response-answered", what)
            elif st == 200:
                c.count("answers_empty")
                try: mt = wire.message(b)[0]
                except Exception: mt = None
                c.check(mt == "oadrResponse", "empty-answer", what)
            else:
                why = why_failed(logs.lines[n0:])
                c.check(False, f"failed-request:{why}", what)
            c.check(b"CANARY" not in ans, "canary-in-answer", what)
            tc = canary.touched()
            c.check(not tc, "canary-touched", lambda: f"{tc}: {what()}")
        for _ in range(r.choice([5, 10, 20])):
            x = r.random()
            if x < .3: await legit()
            elif x < .38:
                c.count("concurrent")
                await asyncio.gather(*[attack(alone=False) for _ in range(r.choice([2, 5]))])
            else: await attack()
            if r.random() < .1: await asyncio.sleep(r.choice([1, 100]))
        for _ in range(3): await legit()
        for v in GOOD:
            for k in ("poll", "request"):
                q = (v, k, None); a, b = await A.legit(*q), await B.legit(*q)
                c.check(a == b, "legit-answer-differs", lambda: f"{q}: {a} on the attacked VTN, {b} without the attacks; attacks {sorted(seen)}")
    try: c.run(body)
    finally:
        for h in list(logging.getLogger("openleadr").handlers):
            if isinstance(h, Errors): logging.getLogger("openleadr").removeHandler(h)
    c.sig(tuple(sorted(seen)))
    c.sample({"attacks": sorted(seen)})
