"""P02: parsing returns what the message says."""
import copy, random, re
from datetime import datetime, timedelta
from lxml import etree
import gen, oadr, pairs, wire
ID = "P02"
CASES = {"quick": 1600, "thorough": 40000}
RULE = ("every case parses messages of all 23 types with random contents (hostile and number-like text, one, several or no repeated items, optional parts present or absent), made by the library's writer and by an independent writer in varying notations (prefixes, default namespaces, white space, comments, CDATA, character references, encodings, duration and time notations), "
        "interleaved and repeated, after earlier results were overwritten; each result must equal the values drawn, by value and by type; signature = (type, shape of the message, notation)")
ASSUME = ["texts are compared apart from surrounding white space", "request ids that are plain numbers may come back as that number"]
REQUIRED = [f"type_{t}" for t in pairs.TYPES] + ["library_written", "independently_written", "repeated_parses", "as_bytes", "as_text", "note_prefix", "note_default", "note_space", "note_comment", "note_cdata", "note_ref", "note_encoding", "note_duration", "note_time", "note_number", "note_pi", "note_bool", "rich_reports"]

def setup():
    global create_message, parse_message, objects
    from openleadr.messaging import create_message, parse_message
    from openleadr import objects

def shape(el): return wire.local(el), tuple(shape(k) for k in el if isinstance(k.tag, str))
BO = {"oadrReportOnly", "oadrXmlSignature", "oadrHttpPullModel", "reportToFollow", "ac", "oadrOnChange", "oadrOnline", "oadrManualOverride"}

def other_duration(r, t):
    """Another text for the same duration."""
    s = int(t.total_seconds())
    k = r.choice(["s", "m", "full", "week", "plus", "zero"])
    if k == "s": return f"PT{s}S"
    if k == "m": return f"PT{s // 60}M{s % 60}S"
    if k == "full": return f"P{s // 86400}DT{s % 86400 // 3600}H{s % 3600 // 60}M{s % 60}S"
    if k == "week" and s % 604800 == 0: return f"{s // 604800}W"
    if k == "plus": return f"+PT{s}S"
    return f"P0Y0M0DT0H0M{s}S"

def notation(r, el, c):
    """Serialise the message in another notation of the same content. Returns bytes, set of notes."""
    el = copy.deepcopy(el); notes = set()
    want = lambda n, p=.4: r.random() < p and (notes.add(n) or True)
    if want("duration"):
        for e in el.iter():
            if isinstance(e.tag, str) and wire.local(e) in pairs.DU and not len(e) and r.random() < .5: e.text = other_duration(r, wire.dur(e.text))
    if want("time"):
        for e in el.iter():
            if isinstance(e.tag, str) and wire.local(e) in pairs.DT and not len(e) and r.random() < .6:
                t = wire.dt(e.text); b = t.strftime("%Y-%m-%dT%H:%M:%S")
                e.text = b + r.choice([f".{t.microsecond:06d}Z", f".{t.microsecond:06d}000Z", f".{t.microsecond:06d}7Z", (f".{t.microsecond:06d}".rstrip("0") if t.microsecond else "") + "Z"])
    if want("number"):
        for e in el.iter():
            if isinstance(e.tag, str) and wire.local(e) == "value" and r.random() < .6:
                v = float(e.text); e.text = r.choice([repr(v), f"{v:e}" if float(f"{v:e}") == v else repr(v), "+" + repr(v) if v >= 0 and repr(v)[0] != "-" else repr(v), repr(v).replace("e", "E"), str(int(v)) if v == int(v) and abs(v) < 1e15 else repr(v)])
    if want("bool"):
        for e in el.iter():
            if isinstance(e.tag, str) and wire.local(e) in BO and not len(e) and r.random() < .6: e.text = {"true": "1", "false": "0"}.get(e.text, e.text)
    leaves = [e for e in el.iter() if isinstance(e.tag, str) and not len(e)]
    enc = r.choice(["utf-8", "us-ascii", "iso-8859-1", "utf-16"]) if want("encoding", .25) else "utf-8"
    if enc in ("utf-8", "utf-16") and want("cdata"):
        for e in leaves:
            if e.text and "]]>" not in e.text and "\r" not in e.text and r.random() < .5: e.text = etree.CDATA(e.text)
    else:
        if want("comment"):
            for e in leaves:
                if e.text and r.random() < .4:
                    i = r.randrange(len(e.text) + 1); m = etree.Comment(r.choice([" c ", "x<y>", "", "&amp;"])); m.tail = e.text[i:]; e.text = e.text[:i]; e.append(m)
    if "comment" in notes or want("pi", .2):
        if "comment" not in notes or want("pi", .5): 
            for e in [e for e in el.iter() if isinstance(e.tag, str) and len(e) and r.random() < .3]: e.insert(r.randrange(len(e) + 1), etree.ProcessingInstruction("x", "y"))
        if "comment" in notes:
            for e in [e for e in el.iter() if isinstance(e.tag, str) and any(isinstance(k.tag, str) for k in e) and r.random() < .4]: e.insert(r.randrange(len(e) + 1), etree.Comment(" between "))
    if want("space"):
        for e in el.iter():
            if isinstance(e.tag, str) and any(isinstance(k.tag, str) for k in e):
                e.text = r.choice(["\n   ", " ", None, "\t"])
                for k in e: k.tail = r.choice(["\n", "  \n ", None])
    p = oadr.payload(el)
    if want("prefix"):
        m = {k: r.choice(["a", "b", "n", "ei", "oadr", "x.y", "_"]) + str(i) for i, k in enumerate(oadr.NS)}
        p = renamed(p, {v: m[k] for k, v in oadr.NS.items()})
    elif want("default"):
        d = r.choice(list(oadr.NS.values()))
        p = renamed(p, {v: (None if v == d else k) for k, v in oadr.NS.items()}, attr_safe=True)
    if r.random() < .5: etree.cleanup_namespaces(p)


    if want("ref", .3):
        s = etree.tostring(p, encoding="unicode", with_tail=False)
        s = re.sub(r"[^\x00-\x7f]", lambda m: r.choice([f"&#{ord(m.group())};", f"&#x{ord(m.group()):x};"]), s) if "cdata" not in notes and "comment" not in notes else s
        b = (f'<?xml version="1.0" encoding="{enc}"?>' + s).encode(enc, "xmlcharrefreplace")
    else: b = etree.tostring(p, xml_declaration=r.random() < .7 or enc not in ("utf-8", "us-ascii"), encoding=enc)
    for n in notes: c.count("note_" + n)
    return b, notes, enc

def renamed(p, prefixes, attr_safe=False):
    """The same tree with other prefixes; all declared on the root."""
    ns = {k: v for v, k in prefixes.items()}
    if attr_safe: ns.update({"q" + str(i): v for i, v in enumerate(prefixes)})    # attributes cannot use the default namespace
    def build(e, parent):
        if not isinstance(e.tag, str):
            n = copy.deepcopy(e); n.tail = e.tail; parent.append(n); return n
        n = etree.Element(e.tag, nsmap=ns) if parent is None else etree.SubElement(parent, e.tag)
        for k, v in e.attrib.items(): n.set(k, v)
        n.text = etree.CDATA(e.text) if e.text and e.tag.endswith("}x") else e.text; n.tail = e.tail if parent is not None else None
        for k in e: build(k, n)
        return n
    return build(p, None)

def same(a, b, path=""):
    """None or where the parsed value differs from the expected one."""
    if isinstance(b, dict):
        if not isinstance(a, dict): return f"{path}: {a!r} instead of {b!r}"
        for k in b:
            if k not in a:
                if b[k] is None or b[k] == []: continue
                return f"{path}.{k} is missing (expected {b[k]!r})"
            d = same(a[k], b[k], f"{path}.{k}")
            if d: return d
        for k in a:
            if k not in b and a[k] not in (None, [], {}): return f"{path}.{k} is {a[k]!r}, which the message does not say"
        return None
    if isinstance(b, list):
        if not isinstance(a, list): return f"{path}: {a!r} is not the list {b!r}"
        if len(a) != len(b): return f"{path}: {len(a)} instead of {len(b)} items: {a!r} instead of {b!r}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = same(x, y, f"{path}[{i}]")
            if d: return d
        return None
    if isinstance(b, bool): good = a is b or not isinstance(a, bool) and isinstance(a, int) and a == int(b)     # written 1 or 0
    elif b is None or isinstance(b, (str, datetime, timedelta)): good = a == b and type(a) == type(b)
    else: good = a == b and isinstance(a, (int, float)) and not isinstance(a, bool)
    return None if good else f"{path}: {a!r} instead of {b!r}"

def scribble(r, x):
    """Overwrite a result, as its receiver may."""
    if isinstance(x, dict):
        for k in list(x):
            scribble(r, x[k])
            if r.random() < .5: x[k] = "overwritten"
        x["extra"] = 1
    elif isinstance(x, list):
        for y in x: scribble(r, y)
        x.append("extra")

def case(c):
    r = c.rng
    done = []
    def check(what, b, t, want):
        try: mt, got = parse_message(b)
        except Exception as e:
            c.fail(f"not-parsed:{t}:{type(e).__name__}", f"{what}: {e!r}: {b!r}"); return None
        c.check(mt == t, f"type:{t}", lambda: f"{what}: {mt}")
        d = same(got, want)
        c.check(d is None, f"content:{t}:{re.sub(r'[^a-z_.]', '', (d or '').split(': ')[0].split(' ')[0])}", lambda: f"{what}: {d}; {b!r}")
        return got
    for _ in range(6):
        t = r.choice(list(pairs.TYPES)); c.count(f"type_{t}")
        if t == "oadrUpdateReport" and r.random() < .5:
            c.count("rich_reports"); pl = None; el, want = pairs.update_report_rich(r)
        else: pl, el, want = pairs.TYPES[t](r, objects if r.random() < .5 else None)
        notes = set()
        if pl is not None and r.random() < .35:
            c.count("library_written"); b = create_message(t, **pl)
            if r.random() < .5: b = b.encode("utf-8")
        else:
            c.count("independently_written"); b, notes, enc = notation(r, el, c)
            v = wire.invalid(b)
            if v is not None:
                c.fail("harness", f"{t}: {v}: {b!r}"); continue
            if enc == "utf-8" and r.random() < .3: b = b.decode("utf-8")
        c.count("as_text" if isinstance(b, str) else "as_bytes")
        got = check(f"{t}, {sorted(notes)}", b, t, want)
        if got is not None and r.random() < .6: scribble(r, got)
        done.append((b, t, want, notes))
        c.sig((t, shape(el), tuple(sorted(notes))))
        if r.random() < .4:
            b, t, want, notes = r.choice(done); c.count("repeated_parses")
            check(f"{t}, {sorted(notes)} (parsed again)", b, t, want)
    c.sample({"messages": [(x[1], sorted(x[3])) for x in done]})
