"""Test certificates, an independent signer/verifier of OpenADR XML signatures, independent fingerprints."""
import base64, functools, hashlib, os, re
from datetime import timezone
from lxml import etree
import oadr, wire
CERTS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "certs")
DS, DSP, O = "{%s}" % oadr.NS["ds"], "{%s}" % oadr.NS["dsp"], "{%s}" % oadr.NS["oadr"]
PASS = {"v3": "secret pass"}
NAMES = ["v0", "v1", "v2", "v3", "v0renewed", "self", "foreign", "vtn", "vtn2", "ca"]

def path(name, ext): return os.path.join(CERTS, f"{name}.{ext}")
def paths(name):
    """Constructor arguments of a library object that signs with this certificate."""
    d = dict(cert=path(name, "crt"), key=path(name, "key"))
    if name in PASS: d["passphrase"] = PASS[name]
    return d
@functools.lru_cache(None)
def pem(name): return open(path(name, "crt"), "rb").read()
@functools.lru_cache(None)
def der(name):
    return base64.b64decode(b"".join(l for l in pem(name).splitlines() if not l.startswith(b"-----")))
@functools.lru_cache(None)
def fp(name):
    h = hashlib.sha256(der(name)).hexdigest().upper()[-20:]
    return ":".join(h[i:i + 2] for i in range(0, 20, 2))
@functools.lru_cache(None)
def key(name):
    from cryptography.hazmat.primitives.serialization import load_pem_private_key
    pw = PASS.get(name)
    return load_pem_private_key(open(path(name, "key"), "rb").read(), pw.encode() if pw else None)

C14N = "http://www.w3.org/TR/2001/REC-xml-c14n-20010315"
def b64(b): return base64.b64encode(b).decode()
def c14n(el, alg=C14N):
    return etree.tostring(el, method="c14n", exclusive="exc-c14n" in alg, with_comments=alg.endswith("#WithComments"), with_tail=False)

def detached(el):
    """Copy of an element as a document of its own (its namespace context only)."""
    return etree.fromstring(etree.tostring(el, with_tail=False))

def signed(el, cert, ts, nonce="n", embed=None, with_ts=True, with_nonce=True, protect=True, refs=None, extra_ns=False, b64wrap=True, prop_id="prop", declare=True):
    """Bytes of a payload with the message element el signed with the named certificate. ts: datetime or str."""
    so = etree.Element(O + "oadrSignedObject", nsmap={"oadr": oadr.NS["oadr"]})
    so.set(O + "Id", "oadrSignedObject")
    so.append(detached(el))
    etree.cleanup_namespaces(so)
    pl = etree.Element(O + "oadrPayload", nsmap={"oadr": oadr.NS["oadr"]})
    sig = etree.SubElement(pl, DS + "Signature", nsmap={"ds": oadr.NS["ds"]})
    si = etree.SubElement(sig, DS + "SignedInfo")
    etree.SubElement(si, DS + "CanonicalizationMethod", Algorithm=C14N)
    etree.SubElement(si, DS + "SignatureMethod", Algorithm="http://www.w3.org/2001/04/xmldsig-more#rsa-sha256")
    val = etree.SubElement(sig, DS + "SignatureValue")
    xd = etree.SubElement(etree.SubElement(sig, DS + "KeyInfo"), DS + "X509Data")
    for n in ([embed or cert] if not isinstance(embed, (list, tuple)) else embed):
        s = b64(der(n))
        etree.SubElement(xd, DS + "X509Certificate").text = ("\n".join(s[i:i + 64] for i in range(0, len(s), 64)) + "\n") if b64wrap else s
    targets = [("#oadrSignedObject", so)]
    if protect:
        ob = etree.SubElement(sig, DS + "Object", Id=prop_id)
        sp = etree.SubElement(etree.SubElement(ob, DS + "SignatureProperties"), DS + "SignatureProperty", Id="myid", Target="#mytarget")
        rp = etree.SubElement(sp, DSP + "ReplayProtect", nsmap={"dsp": oadr.NS["dsp"]})
        if with_ts: etree.SubElement(rp, DSP + "timestamp").text = ts if isinstance(ts, str) else oadr.fmt_dt(ts)
        if with_nonce: etree.SubElement(rp, DSP + "nonce").text = nonce
        targets.append((f"#{prop_id}", ob))
    pl.append(so)
    if refs is not None:
        targets = [targets[i] for i in refs]
    for uri, t in targets:
        ref = etree.SubElement(si, DS + "Reference", URI=uri)
        etree.SubElement(etree.SubElement(ref, DS + "Transforms"), DS + "Transform", Algorithm=C14N)
        etree.SubElement(ref, DS + "DigestMethod", Algorithm="http://www.w3.org/2001/04/xmlenc#sha256")
        etree.SubElement(ref, DS + "DigestValue").text = b64(hashlib.sha256(c14n(t)).digest())
    val.text = b64(rsa_sign(cert, c14n(si)))
    return etree.tostring(pl, xml_declaration=declare, encoding="utf-8")

def rsa_sign(name, data):
    from cryptography.hazmat.primitives import hashes
    from cryptography.hazmat.primitives.asymmetric import padding
    return key(name).sign(data, padding.PKCS1v15(), hashes.SHA256())

def find_id(tree, uri):
    want = uri[1:]
    return [e for e in tree.iter() if isinstance(e.tag, str) and any(re.sub(r"^{.*}", "", k) in ("Id", "ID", "id") and v == want for k, v in e.attrib.items())]

def verify(body, name):
    """None if the payload carries a correct signature by the named certificate over exactly its
    oadrSignedObject and a ReplayProtect; otherwise the reason. Independent of the library and of signxml."""
    from cryptography import x509
    from cryptography.hazmat.primitives import hashes
    from cryptography.hazmat.primitives.asymmetric import padding
    from cryptography.exceptions import InvalidSignature
    t = wire.parse(body)
    sigs = t.findall(DS + "Signature")
    if len(sigs) != 1: return f"{len(sigs)} signatures"
    sig = sigs[0]
    so = t.find(O + "oadrSignedObject")
    si = sig.find(DS + "SignedInfo")
    covered = []
    for ref in si.findall(DS + "Reference"):
        els = find_id(t, ref.get("URI"))
        if len(els) != 1: return f"{len(els)} elements with id {ref.get('URI')}"
        algs = [x.get("Algorithm") for x in ref.iter(DS + "Transform")] or [C14N]
        if any("c14n" not in a for a in algs): return f"transforms {algs}"
        dm = ref.find(DS + "DigestMethod").get("Algorithm").rsplit("#", 1)[1]
        if b64(hashlib.new(dm, c14n(els[0], algs[-1])).digest()) != re.sub(r"\s", "", ref.findtext(DS + "DigestValue")):
            if b64(hashlib.new(dm, c14n(detached(els[0]), algs[-1])).digest()) != re.sub(r"\s", "", ref.findtext(DS + "DigestValue")):
                return f"digest of {ref.get('URI')} differs"
        covered.append(els[0])
    if so not in covered: return "signed object not covered"
    if not any(c.find(f".//{DSP}ReplayProtect") is not None or c.tag == DSP + "ReplayProtect" for c in covered): return "replay protection not covered"
    cert = sig.findtext(f".//{DS}X509Certificate")
    if base64.b64decode(cert) != der(name): return "other certificate"
    sm = sig.find(f".//{DS}SignatureMethod").get("Algorithm")
    if not sm.endswith("rsa-sha256"): return f"method {sm}"
    val = base64.b64decode(sig.findtext(DS + "SignatureValue"))
    ci = c14n(si, si.find(DS + "CanonicalizationMethod").get("Algorithm"))
    pub = x509.load_der_x509_certificate(der(name)).public_key()
    for data in (ci, c14n(detached(si))):
        try:
            pub.verify(val, data, padding.PKCS1v15(), hashes.SHA256())
            return None
        except InvalidSignature:
            pass
    return "signature value wrong"
