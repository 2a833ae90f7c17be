"""P29: connections are served and verified as configured (real sockets, real TLS)."""
import asyncio, contextlib, io, os, socket, ssl
from datetime import datetime, timedelta, timezone
import fabric, gen, oadr, sign, vloop, wire, world
ID = "P29"
CASES = {"quick": 240, "thorough": 6000}
RULE = ("real sockets on the loopback interface: a real VTN (plain or TLS; certificates of either CA, for another host, expired, with an encrypted key; several path prefixes and addresses) is run, probed by raw TLS and plain connections with every kind of "
        "client certificate, addressed by real VENs in every TLS configuration, stopped, and replaced by another one on the same port; a recording TLS server of the harness takes its place in part of the cases; signature = (server configuration, VEN configurations)")
ASSUME = ["OpenSSL verifies certificate chains correctly (the oracle decides by the issuer, the validity and the names the harness gave each certificate)", "a free loopback port stays free for a moment"]
REQUIRED = ["served_tls", "served_plain", "refused_ca", "refused_host", "refused_expired", "refused_scheme", "client_refused_none", "client_refused_foreign", "client_refused_self", "probes_refused", "other_path_refused", "stopped_refused", "replaced", "own_server",
            "presented_certificate", "signed", "unsigned", "system_store", "encrypted_key", "concurrent", "vtn_fingerprint"]
WATCHDOG = 240
UTC = timezone.utc
# issuer, names the host, valid
CERT = {"vtn": ("ca", True, True), "vtn2": ("ca", True, True), "wronghost": ("ca", False, True), "expired": ("ca", True, False), "foreign": ("ca2", True, True), "v3": ("ca", True, True), "v0": ("ca", True, True), "v1": ("ca", True, True), "self": ("self", True, True)}

def port_of(host):
    s = socket.socket(); s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1); s.bind((host, 0)); p = s.getsockname()[1]; s.close()
    return p

def case(c):
    vloop.release_wall()
    fabric.uninstall()
    os.environ["SSL_CERT_FILE"] = sign.path("ca2", "crt")       # the "system's" CAs
    try: asyncio.run(asyncio.wait_for(body(c), 150))
    finally: fabric.install()

async def body(c):
    from aiohttp import web
    from openleadr import OpenADRServer, OpenADRClient
    r = c.rng
    host = r.choice(["127.0.0.1", "127.0.0.1", "127.0.0.9"])
    port = port_of(host)
    tls = r.random() < .85
    own = r.random() < .3
    scert = r.choice(["vtn", "vtn", "vtn2", "v3", "wronghost", "expired", "foreign", "foreign"])
    sca = r.choice(["ca", "ca", "ca", "ca2"])
    prefix = r.choice(["/OpenADR2/Simple/2.0b", "/OpenADR2/Simple/2.0b/", "/x", "/a/b/", ""])
    base = prefix.rstrip("/")
    signs = not own and r.random() < .4         # the VTN signs its messages
    got = []                       # (path, peer certificate, body) of every request that reached a server
    regs = []
    async def record(request):
        so = request.transport.get_extra_info("ssl_object")
        got.append((request.path, so.getpeercert(binary_form=True) if so else None, await request.read()))
    @web.middleware
    async def seen(request, handler):
        await record(request)
        return await handler(request)
    @contextlib.asynccontextmanager
    async def serving(vtn_id):
        if own:
            async def answer(request):
                await record(request)
                el = wire.parse(got[-1][2])
                return web.Response(body=oadr.msg(oadr.created_party_registration(wire.text(el, "requestID") or "q", "ven", "reg", vtn_id)), content_type="application/xml")
            app = web.Application(); app.router.add_post(base + "/{service}", answer)
            ctx = None
            if tls:
                ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER); ctx.load_cert_chain(sign.path(scert, "crt"), sign.path(scert, "key"), sign.PASS.get(scert))
                ctx.load_verify_locations(sign.path("ca", "crt")); ctx.load_verify_locations(sign.path("ca2", "crt")); ctx.verify_mode = ssl.CERT_OPTIONAL
            run = web.AppRunner(app); await run.setup()
            await web.TCPSite(run, host, port, ssl_context=ctx).start()
            try: yield
            finally: await run.cleanup()
        else:
            kw = dict(http_cert=sign.path(scert, "crt"), http_key=sign.path(scert, "key"), http_ca_file=sign.path(sca, "crt"), http_key_passphrase=sign.PASS.get(scert)) if tls else {}
            if signs: kw.update(sign.paths("vtn2"))
            srv = OpenADRServer(vtn_id=vtn_id, http_host=host, http_port=port, http_path_prefix=prefix, show_fingerprint=False, requested_poll_freq=timedelta(seconds=10), **kw)
            async def reg(p): regs.append(p["ven_name"]); return "ven", "reg"
            srv.add_handler("on_create_party_registration", reg)
            srv.app.middlewares.append(seen)
            with contextlib.redirect_stdout(io.StringIO()): await (srv.run() if r.random() < .7 else srv.run_async())
            try: yield
            finally: await srv.stop()
    def probe(scheme, conn, path, method="POST"):
        """One raw connection; the status of the answer, or None when there is no answer."""
        async def go():
            ctx = None
            if scheme == "https":
                ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT); ctx.check_hostname = False; ctx.verify_mode = ssl.CERT_NONE
                if conn: ctx.load_cert_chain(sign.path(conn, "crt"), sign.path(conn, "key"), sign.PASS.get(conn))
            w = None
            try:
                rd, w = await asyncio.wait_for(asyncio.open_connection(host, port, ssl=ctx), 20)
                b = oadr.msg(oadr.query_registration("q"))
                w.write(f"{method} {path} HTTP/1.1\r\nHost: {host}\r\nContent-Type: application/xml\r\nContent-Length: {len(b)}\r\nConnection: close\r\n\r\n".encode() + b)
                await w.drain()
                data = await asyncio.wait_for(rd.read(), 20)
                return int(data.split(b" ", 2)[1]) if data.startswith(b"HTTP/") else None
            except (OSError, ssl.SSLError, asyncio.IncompleteReadError): return None
            finally:
                if w is not None:
                    w.close()
                    with contextlib.suppress(Exception): await asyncio.wait_for(w.wait_closed(), 2)
        return go()
    issuer, names, valid = CERT[scert]
    if host == "127.0.0.9": names = False
    vens = []
    for k in range(r.choice([2, 3, 5])):
        v = dict(cert=r.choice([None, "v0", "v0", "v1", "v3", "foreign", "self"]), ca=r.choice(["ca", "ca", issuer, "ca2", None]), check=r.random() < .5, scheme=r.choice(["https"] * 4 + ["http"]) if tls else r.choice(["http"] * 4 + ["https"]),
                 sign=r.random() < .7, host=host if host != "127.0.0.1" or r.random() < .5 else "localhost", name=f"ven {k}")
        kw = sign.paths(v["cert"]) if v["cert"] else {}
        if v["ca"] is None and v["cert"] is None and issuer == "ca2": v["check"] = False       # (aiohttp may have read the system's CAs before)
        if v["ca"]: kw["ca_file"] = sign.path(v["ca"], "crt")
        if signs and r.random() < .6: kw["vtn_fingerprint"] = sign.fp("vtn2"); c.count("vtn_fingerprint")
        v["client"] = OpenADRClient(ven_name=v["name"], vtn_url=f"{v['scheme']}://{v['host']}:{port}{base}{r.choice(['', '/'])}", check_hostname=v["check"], disable_signature=not v["sign"], show_fingerprint=False, **kw)
        why = None
        if (v["scheme"] == "https") != tls: why = "refused_scheme"
        elif tls:
            if (v["ca"] or "ca2") != issuer: why = "refused_ca"
            elif not valid: why = "refused_expired"
            elif v["check"] and not names: why = "refused_host"
            elif not own:
                if v["cert"] is None: why = "client_refused_none"
                elif CERT[v["cert"]][0] != sca: why = "client_refused_self" if v["cert"] == "self" else "client_refused_foreign"
            elif v["cert"] == "self": why = "client_refused_self"       # our own server verifies what is presented
        v["why"] = why; vens.append(v)
    desc = lambda v: {k: x for k, x in v.items() if k != "client"} | dict(server=("own" if own else "VTN", "tls" if tls else "plain", scert if tls else None, sca, host, prefix))
    async def talk(v, up, vtn_id):
        n0 = len([1 for g in got if v["name"].encode() in g[2]])
        ans = []
        for what in r.sample(["register", "query", "register"], r.choice([1, 2, 3])):
            cl = v["client"]
            try: t, p = await asyncio.wait_for(cl.create_party_registration() if what == "register" else cl.query_registration(), 60) or (None, {})
            except Exception as e: c.fail("request-raised", f"{type(e).__name__}: {e}: {desc(v)}"); return
            ans.append((what, t, p))
            good = up and v["why"] is None
            c.check((t == "oadrCreatedPartyRegistration" and p.get("vtn_id") == vtn_id) if good else t is None, "not-served" if good else "unverified-connection-used", lambda: f"{what} was answered {t} {str(p)[:300]}: {desc(v)}")
        mine = [g for g in got if v["name"].encode() in g[2]][n0:]
        want = len([1 for w, *_ in ans if w == "register"]) if up and v["why"] is None else 0
        c.check(len(mine) == want, "not-served" if len(mine) < want else "unverified-connection-used", lambda: f"{len(mine)} registrations reached the server, {want} expected: {desc(v)}")
        if up and v["why"] is None:
            c.count("served_tls" if tls else "served_plain")
            if scert == "v3" and tls or v["cert"] == "v3": c.count("encrypted_key")
            if tls and v["ca"] is None: c.count("system_store")
            for path, peer, b in mine:
                c.check(path == f"{base}/EiRegisterParty", "wrong-path", lambda: f"{path}: {desc(v)}")
                if tls and v["cert"]:
                    if c.check(peer == sign.der(v["cert"]), "certificate-not-presented", lambda: f"{desc(v)}"): c.count("presented_certificate")
                if v["cert"] and v["sign"]:
                    bad = sign.verify(b, v["cert"])
                    if c.check(bad is None, "not-signed", lambda: f"{bad}: {desc(v)} {b[:1500]}"): c.count("signed")
                else:
                    if c.check(b"<ds:Signature" not in b and b"SignatureValue" not in b, "signed-anyway", lambda: f"{desc(v)}"): c.count("unsigned")
        elif up: c.count(v["why"])
        else: c.count("stopped_refused")
    async def probes():
        for _ in range(r.choice([2, 4])):
            scheme, conn = r.choice(["https", "https", "http"]), r.choice([None, "v0", "v3", "foreign", "self", "expired"])
            path, method = r.choice([(base + "/EiRegisterParty", "POST")] * 4 + [(base + "/EiRegisterParty/x", "POST"), (base + "/y/EiRegisterParty", "POST"), ("/other/EiRegisterParty", "POST"), (base + "/EiRegisterParty", "GET"), (base + "/EiRegisterparty", "POST")])
            st = await probe(scheme, conn, path, method)
            d = lambda: f"{method} {path} over {scheme} with certificate {conn}: {st}; server {scert, sca, host, prefix, tls}"
            if tls and scheme == "http": okay = st is None or st >= 400; c.count("probes_refused")
            elif not tls and scheme == "https": okay = st is None; c.count("probes_refused")
            elif tls and (conn is None or CERT[conn][0] != sca or not CERT[conn][2]): okay = st is None; c.count("probes_refused")
            elif path != base + "/EiRegisterParty": okay = st == 404; c.count("other_path_refused")
            elif method == "GET": okay = st == 405; c.count("other_path_refused")
            else: okay = st == 200
            c.check(okay, "wrong-connection-served" if st == 200 else "not-served", d)
    async def all_of(up, vtn_id):
        if r.random() < .5: await asyncio.gather(*[talk(v, up, vtn_id) for v in vens]); c.count("concurrent")
        else:
            for v in vens: await talk(v, up, vtn_id)
    try:
        for life in range(r.choice([1, 2])):
            async with serving(f"VTN_{life}"):
                if life: c.count("replaced")
                if own: c.count("own_server")
                jobs = [all_of(True, f"VTN_{life}")] + ([probes()] if not own else [])
                if r.random() < .3: await asyncio.gather(*jobs)
                else:
                    for j in jobs: await j
            if r.random() < .6:
                st = await probe("https" if tls else "http", "v0", base + "/EiRegisterParty")
                c.check(st is None, "served-after-stop", f"{st}")
                if r.random() < .6: await all_of(False, None)
    finally:
        for v in vens:
            try: await asyncio.wait_for(v["client"].stop(), 10)
            except Exception as e: c.fail("stop-raised", f"{type(e).__name__}: {e}: {desc(v)}")
    c.sig(tls, own, scert, sca, prefix, tuple((v["cert"], v["ca"], v["check"], v["scheme"], v["sign"]) for v in vens))
    c.sample({"server": desc(vens[0])["server"], "vens": [str(desc(v))[:200] for v in vens[:2]]})
