"""P32: one certificate has one fingerprint, wherever and however it is given."""
import asyncio, base64, contextlib, datetime as dtm, hashlib, io, os, re, ssl, subprocess, sys, tempfile
from datetime import datetime, timedelta, timezone
from unittest import mock
import fabric, gen, oadr, sign, vloop, wire, world
ID = "P32"
CASES = {"quick": 420, "thorough": 12000}
RULE = ("each case makes fresh certificates (RSA and EC keys, random serials and names, so every residue of the DER length and fingerprints with leading zeros), writes them down in random notations (line ends, line lengths, explanatory text, private key, chain, "
        "blank lines, text or bytes) that a TLS library loads, and asks the library for their fingerprint on every route: the function on text, bytes and DER, the command line, the VTN's and VEN's start-up notice, the registration handler, lookups over TLS, "
        "message signatures at the VTN and at the VEN; the oracle is SHA-256 over the DER bytes; wrong, near and forged fingerprints and certificates must not pass; signature = (notation, key, length residue, routes)")
ASSUME = ["a fingerprint is the last ten bytes of the SHA-256 of the certificate, as upper-case hex pairs with colons", "a certificate file names its own certificate first"]
REQUIRED = ["notation_plain", "notation_crlf", "notation_text", "notation_key", "notation_chain", "notation_trailing", "ec_keys", "rsa_keys", "residue_0", "residue_1", "residue_2", "leading_zero", "function", "command_line", "subprocess",
            "vtn_notice", "ven_notice", "no_notice", "domain_notice", "domain_file", "handler_fingerprint", "lookup_accepted", "lookup_refused", "near_fingerprints", "ven_accepts", "ven_refuses", "signature_accepted", "signature_refused", "forged_texts", "refused_files", "chain_signers"]
UTC = timezone.utc
KEYS = []

def setup():
    from cryptography.hazmat.primitives.asymmetric import ec, rsa
    KEYS.extend([("rsa", sign.key("v0")), ("rsa", sign.key("v1")), ("ec", ec.generate_private_key(ec.SECP256R1())), ("ec", ec.generate_private_key(ec.SECP384R1()))])

def fp_of(der):
    h = hashlib.sha256(der).hexdigest().upper()[-20:]
    return ":".join(h[i:i + 2] for i in range(0, 20, 2))

class Cert: pass

def make(c, want=None):
    """A fresh self-signed certificate."""
    from cryptography import x509
    from cryptography.hazmat.primitives import hashes, serialization as ser
    r = c.rng
    kind, key = r.choice([k for k in KEYS if want is None or k[0] == want])
    zero = r.random() < .12
    while True:
        cns = ["c" + "".join(r.choice("abcdefghij.-") for _ in range(r.randrange(0, 12)))] * r.choice([1, 1, 1, 2])
        name = x509.Name([x509.NameAttribute(x509.NameOID.ORGANIZATION_NAME, r.choice(["Org", "Ünïcode AG", "A & B"]))] + [x509.NameAttribute(x509.NameOID.COMMON_NAME, n) for n in cns])
        b = x509.CertificateBuilder().subject_name(name).issuer_name(name).public_key(key.public_key()).serial_number(r.getrandbits(r.choice([20, 64, 150])) + 1).not_valid_before(datetime(2020, 1, 1)).not_valid_after(datetime(2060, 1, 1))
        x = b.sign(key, hashes.SHA256())
        der = x.public_bytes(ser.Encoding.DER)
        if not zero or fp_of(der).startswith("0") or ":0" in fp_of(der): break
    k = Cert(); k.kind, k.der, k.fp, k.cns, k.x = kind, der, fp_of(der), cns, x
    k.pem = x.public_bytes(ser.Encoding.PEM).decode()
    k.key = key.private_bytes(ser.Encoding.PEM, ser.PrivateFormat.TraditionalOpenSSL if r.random() < .5 else ser.PrivateFormat.PKCS8, ser.NoEncryption()).decode()
    if ":0" in k.fp or k.fp.startswith("0"): c.count("leading_zero")
    c.count(f"{kind}_keys"); c.count(f"residue_{len(der) % 3}")
    return k

def notation(c, k, d, others):
    """The certificate in some notation, as bytes; only those that a TLS library reads."""
    r = c.rng
    from cryptography import x509
    while True:
        n = r.choice(["plain", "crlf", "text", "text", "key", "chain", "chain", "chain", "trailing", "wide", "one line", "mixed", "mixed"])
        s = k.pem
        if n in ("wide", "one line"):
            w = 76 if n == "wide" else 10 ** 6
            t = base64.b64encode(k.der).decode()
            s = "-----BEGIN CERTIFICATE-----\n" + "\n".join(t[i:i + w] for i in range(0, len(t), w)) + "\n-----END CERTIFICATE-----\n"
        pre, post = "", ""
        if n in ("text", "mixed"):
            pre = r.choice(["Certificate:\n    Data:\n        Version: 3 (0x2)\n", "subject=/CN=x\nissuer=/CN=y\n", "# the certificate of the VEN\n", "\n\n", "Müller & Söhne\n", "Bag Attributes\n    friendlyName: ven-----\n", "----- not BEGIN CERTIFICATE -----\n"])
        if n == "key" or n == "mixed" and r.random() < .3: pre += k.key
        if n in ("chain", "mixed"):
            post = "".join(r.choice(["", "\n", "the next one\n"]) + o.pem for o in r.sample(others, r.choice([1, 2])))
        if n == "trailing": post = r.choice(["\n\n", "   \n", "end of file", "# comment\n", k.key])
        if r.random() < .1: s = s.rstrip("\n") if not post else s
        t = (pre + s + post)
        if n == "crlf" or n == "mixed" and r.random() < .4: t = t.replace("\n", "\r\n")
        b = t.encode()
        p = os.path.join(d, f"n{c.counters.get('notations', 0)}"); c.count("notations")
        with open(p + ".crt", "wb") as f: f.write(b)
        with open(p + ".key", "w") as f: f.write(k.key)
        try:
            ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER).load_cert_chain(p + ".crt", p + ".key")
        except ssl.SSLError:
            c.count("unusable_notations"); continue
        c.count(f"notation_{n.replace(' ', '_')}")
        return n, b, p + ".crt", p + ".key"

def near(r, f):
    """Fingerprints that resemble f but are not it."""
    x = r.randrange(7)
    if x == 0: i = r.randrange(len(f)); return f[:i] + ("A" if f[i] != "A" else "B") + f[i + 1:]
    if x == 1: return f[3:]
    if x == 2: return f + ":00"
    if x == 3: return ":".join(reversed(f.split(":")))
    if x == 4: return f.replace(":", "")
    if x == 5: return f[:-1]
    return sign.fp("v2")

def case(c):
    r = c.rng
    from openleadr import utils, fingerprint as cli, OpenADRServer, OpenADRClient, errors
    from openleadr.messaging import create_message, validate_xml_signature
    routes = []
    async def body(loop):
      with tempfile.TemporaryDirectory(prefix="p32-") as d:
        k = make(c); others = [make(c) for _ in range(2)]
        n, b, crt, keyf = notation(c, k, d, others)
        what = lambda: f"certificate ({k.kind}, {len(k.der)} bytes, CN {k.cns}, fingerprint {k.fp}) in notation {n!r}: {b[:90]!r}..."
        def same(got, route):
            routes.append(route)
            return c.check(got == k.fp, "other-fingerprint", lambda: f"{route}: {got!r} for {what()}")
        # the functions
        for v, t in ((b, "bytes"), (b.decode(), "text")):
            same(utils.certificate_fingerprint(v), f"function on {t}"); c.count("function")
        same(utils.certificate_fingerprint_from_der(k.der), "function on DER")
        c.check(utils.certificate_domain(crt) == ", ".join(k.cns), "other-domain", lambda: f"{utils.certificate_domain(crt)} of file: {what()}"); c.count("domain_file")
        c.check(utils.certificate_domain(b) == ", ".join(k.cns), "other-domain", what)
        # the command line
        out = io.StringIO()
        with mock.patch.object(sys, "argv", ["fingerprint", crt]), contextlib.redirect_stdout(out): cli.show_fingerprint()
        same(out.getvalue().strip(), "command line"); c.count("command_line")
        if r.random() < .03:
            res = subprocess.run([sys.executable, "-m", "openleadr.fingerprint", crt], cwd=os.path.dirname(os.path.dirname(utils.__file__)), capture_output=True, text=True, timeout=60, env={**os.environ, "PYTHONDONTWRITEBYTECODE": "1"})
            same(res.stdout.strip() or res.stderr[-300:], "subprocess"); c.count("subprocess")
        # the start-up notices
        out = io.StringIO(); show = r.random() < .7; dom = r.random() < .5
        net = fabric.Net()
        ven_k = make(c, "rsa"); vn, vb, vcrt, vkey = notation(c, ven_k, d, others)
        vtn_k = make(c, "rsa"); sn, sb, scrt, skey = notation(c, vtn_k, d, others)
        what2 = lambda: f"VEN certificate {ven_k.fp} in notation {vn!r}, VTN certificate {vtn_k.fp} in notation {sn!r}"
        c.count("chain_signers", (vb.count(b"BEGIN CERT") > 1) + (sb.count(b"BEGIN CERT") > 1))
        record = {"fp": ven_k.fp}
        seen = []
        async def ven_lookup(ven_id): return {"ven_id": ven_id, "ven_name": "n", "registration_id": "reg", "fingerprint": record["fp"]}
        kw = {"fingerprint_lookup": lambda ven_id: record["fp"]} if r.random() < .3 else {"ven_lookup": ven_lookup}
        with contextlib.redirect_stdout(out):
            srv = OpenADRServer("VTN_1", cert=scrt, key=skey, show_fingerprint=show, show_server_cert_domain=dom, **kw)
        net.add_server("vtn", srv)
        found = re.findall(r"\b(?:[0-9A-Fa-f]{2}:)+[0-9A-Fa-f]{2}\b", out.getvalue())
        c.check(found == ([vtn_k.fp] if show else []), "other-notice", lambda: f"VTN notice {out.getvalue()!r}: {what2()}")
        c.check((", ".join(vtn_k.cns) in out.getvalue()) if show and dom else "domain" not in out.getvalue(), "other-notice", lambda: f"VTN notice with domain={dom} {out.getvalue()!r}: {vtn_k.cns}")
        c.count("vtn_notice" if show else "no_notice"); c.count("domain_notice", show and dom)
        good_vtn = r.random() < .6
        vtnfp = vtn_k.fp if good_vtn else r.choice([near(r, vtn_k.fp), k.fp, others[0].fp])
        out2 = io.StringIO()
        with contextlib.redirect_stdout(out2):
            cl = OpenADRClient("n", f"http://vtn{fabric.PATH}", cert=vcrt, key=vkey, vtn_fingerprint=vtnfp, show_fingerprint=show)
        found = re.findall(r"\b(?:[0-9A-Fa-f]{2}:)+[0-9A-Fa-f]{2}\b", out2.getvalue())
        c.check(found == ([ven_k.fp] if show else []), "other-notice", lambda: f"VEN notice {out2.getvalue()!r}: {what2()}")
        c.count("ven_notice", show)
        # a certificate file without any certificate is refused
        if r.random() < .2:
            p = os.path.join(d, "none.crt")
            with open(p, "wb") as f: f.write(r.choice([b"", b"no certificate", k.key.encode(), b"-----BEGIN CERTIFICATE-----\n", k.pem[:-30].encode(), k.der[:50]]))
            try:
                with open(p, "rb") as f: got = utils.certificate_fingerprint(f.read())
            except ValueError: got = None
            c.check(got is None, "fingerprint-of-nothing", lambda: f"{got} for {open(p, 'rb').read()[:80]!r}"); c.count("refused_files")
        # the registration handler learns the fingerprint of the connection
        async def on_reg(info): seen.append(info.get("fingerprint")); return "ven", "reg"
        srv.add_handler("on_create_party_registration", on_reg)
        now = lambda: datetime.now(UTC)
        # the VEN registers over TLS; the messages it signs and the answers it verifies
        good_conn = r.random() < .7; conn = ven_k if good_conn else others[0]
        good_rec = r.random() < .7
        if not good_rec: record["fp"] = r.choice([near(r, ven_k.fp), others[1].fp, ven_k.fp.lower() if ven_k.fp.lower() != ven_k.fp else others[1].fp]); c.count("near_fingerprints")
        el = oadr.create_party_registration("rq", ven_id="ven", ven_name="n")
        # what the VEN sends, with its own settings
        msg = cl._create_message("oadrPoll", ven_id="ven")
        a = await world.post(srv, "OadrPoll", msg.encode() if isinstance(msg, str) else msg, peer=conn.der, tls=True)
        ok = good_conn and good_rec
        took = a.status == 200 and str(a.code) == '200'
        c.check(took == ok and (ok or a.status == 403 or a.code is not None), "wrong-decision", lambda: f"poll over a connection with {conn.fp}, record {record['fp']}: {a}; {what2()}")
        c.count("lookup_accepted" if ok else "lookup_refused")
        msg = cl._create_message("oadrCreatePartyRegistration", request_id="rq", ven_id="ven", ven_name="n", profile_name="2.0b", transport_name="simpleHttp", transport_address=None, report_only=False, xml_signature=True, http_pull_model=True)
        a = await world.post(srv, "EiRegisterParty", msg.encode() if isinstance(msg, str) else msg, peer=conn.der, tls=True)
        if ok: c.check(seen == [conn.fp], "other-fingerprint", lambda: f"registration handler got {seen}, connection has {conn.fp}"); c.count("handler_fingerprint")
        else: c.check(not seen and (a.status == 403 or str(a.code) != '200'), "wrong-decision", lambda: f"registration over a connection with {conn.fp}, record {record['fp']}: {a} handler {seen}")
        # the VEN, against the VTN
        typ = None
        record["fp"] = ven_k.fp
        try:
            cl.ven_id = "ven"
            await cl._ensure_client_session(); cl.client_session.peer = ven_k.der
            res = await cl.poll()
            typ = res[0]
        except Exception as e:
            c.fail("wrong-decision", f"VEN with vtn_fingerprint {vtnfp}: {e!r}; {what2()}")
        c.check((typ == "oadrResponse") == (vtnfp == vtn_k.fp), "wrong-decision", lambda: f"VEN with vtn_fingerprint {vtnfp} took {typ!r} from the VTN; {what2()}; answer {net.log[-1].res[-600:] if net.log and net.log[-1].res else net.log}")
        c.count("ven_accepts" if typ else "ven_refuses")
        # signatures on their own, in either direction
        t = wire_tree(msg)
        for f, good in ((ven_k.fp, True), (near(r, ven_k.fp), False), (others[1].fp, False)):
            t = wire_tree(cl._create_message("oadrPoll", ven_id="ven"))
            try: validate_xml_signature(t, cert_fingerprint=f); got = True
            except Exception: got = False
            c.check(got == good, "wrong-decision", lambda: f"signature checked against {f}: accepted {got}; {what2()}")
            c.count("signature_accepted" if good else "signature_refused")
        # a message that shows the victim's certificate and is signed by another one
        text = lambda name: re.sub(r"-----.*?-----\n", "", sign.pem(name).decode())
        v, at = text("v0"), text("v1")
        B, E = "-----BEGIN CERTIFICATE-----\n", "-----END CERTIFICATE-----\n"
        i = r.choice([0, 10, 64, 65, len(v)])
        forged = r.choice([v, v + E + B + at, v[:i] + "!" + v[i:] + E + B + at, at + E + B + v, v + E + "text\n" + B + at, v + "\n\n" + E + B + at, v[:i] + " " + v[i:] + E + B + at, v[:i] + "\n\n" + v[i:] + E + B + at, at + v, v + at, v + "=" + at, v + "\u00e9" + E + B + at, "a: b\n\n" + v + E + B + at, ""])
        m = sign.signed(oadr.poll("ven"), "v1", now(), nonce=f"{c.seed}.{c.index}")
        m = re.sub(rb"(<ds:X509Certificate>).*?(</ds:X509Certificate>)", lambda g: g.group(1) + forged.encode() + g.group(2), m, flags=re.S)
        record["fp"] = sign.fp("v0")
        a = await world.post(srv, "OadrPoll", m, peer=sign.der("v0"), tls=True)
        c.check(a.status in (400, 403, 401) or a.status == 200 and str(a.code) not in ('200', 'None'), "forged-certificate-accepted", lambda: f"message signed by v1 and showing v0 as {forged[:70]!r}... ({len(forged)}): {a}"); c.count("forged_texts")
        await cl.stop()
        c.sig(n, vn, sn, k.kind, len(k.der) % 3, show, dom, good_conn, good_rec, good_vtn)
        c.sample({"fingerprint": k.fp, "notation": n, "routes": routes[:8]})
    c.run(body, start=vloop.EPOCH + timedelta(hours=3 * c.index))

def wire_tree(msg):
    from openleadr.messaging import validate_xml_schema
    return validate_xml_schema(msg)
