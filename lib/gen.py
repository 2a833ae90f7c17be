"""Random valid inputs."""
from datetime import datetime, timedelta, timezone
UTC = timezone.utc
PLAIN = ["alpha", "Building 4", "meter-7", "ven_12", "x", "Zone.A", "DR program 2027"]
MARK = ["a & b", "x < y", "p > q", "a]]>b", "<b>bold</b>", "say \"hi\"", "it's", "&amp;", "&lt;tag&gt;", "</ei:eventID>", "{{ 7*7 }}", "{% raw %}", "<!-- c -->", "100% & more", "a&b<c>d\"e'f"]
UNI = ["café", "Zürich Straße", "東京", "naïve – dash", "emoji 🙂 end", "ÅÄÖ", "\u0627\u0644", "tab\there", "two  spaces"]
NUMERIC = ["123", "007", "0", "-5", "3.14", "1.2.3", "1e5", "1.", ".5", "99999999999999999999", "true", "false", "True", "none", "None", "null", "10.0.0.1", "1.50", "-0"]
MULTI = ["first line\nsecond line", "a\n\n b", "x\n  indented\ny", "cr\r\nlf"]

def txt(r, kinds="pmun", n=None):
    pools = {"p": PLAIN, "m": MARK, "u": UNI, "n": NUMERIC, "l": MULTI}
    s = r.choice(pools[r.choice(kinds)])
    if r.random() < 0.3 and "n" not in kinds[-1:]:
        s = s + r.choice(["-", " ", "_"]) + str(r.randrange(1000))
    return s

_n = [0]
def uid(r, kinds="p"):
    """unique identifier text"""
    _n[0] += 1
    k = r.choice(kinds)
    if k == "n":
        return str(10 ** 6 + _n[0]) if r.random() < .7 else f"0{_n[0]}"
    if k == "m":
        return f"id&<{_n[0]}>'\""
    if k == "u":
        return f"id-é-{_n[0]}"
    return f"id-{r.randrange(16 ** 4):x}-{_n[0]}"

def family(r, n):
    """n distinct identifiers that are easily confused: differing in case, a prefix of one another, equal as numbers"""
    _n[0] += 1
    b = r.choice([f"ven{_n[0]}", f"x{_n[0]}a", f"a-b_{_n[0]}"])
    pool = r.choice([[b, b.upper(), b.capitalize(), b + "1", b + "10", b[:-1] or "z", "x" + b, b + "_", b + ".0"],
                     [b, *(b + s + k for s in r.sample("#/:.|-,;@=~", 3) for k in "12")],
                     [str(_n[0]), f"0{_n[0]}", f"{_n[0]}.0", f"+{_n[0]}", f"-{_n[0]}", f"{_n[0]}0", f"{_n[0]}e0", f"00{_n[0]}"],
                     ["true", "false", "True", "None", "none", "0", "null", "nan"]])
    r.shuffle(pool)
    return pool[:n]

def dur(r, lo=1, hi=7 * 86400):
    c = r.random()
    if c < .35:
        return timedelta(minutes=r.choice([1, 5, 10, 15, 30, 60, 90, 120, 1440, 2880]))
    if c < .5:
        return timedelta(seconds=r.choice([1, 10, 59, 60, 61, 3599, 3600, 3601, 86399, 86400, 86401, 90061, 604800]))
    return timedelta(seconds=r.randrange(lo, hi))

def when(r, base=None, span=5 * 86400):
    base = base or datetime(2027, 3, 10, 6, 0, tzinfo=UTC)
    d = base + timedelta(seconds=r.randrange(-span, span))
    if r.random() < .3:
        d += timedelta(microseconds=r.choice([1, 10, 999999, 500000, r.randrange(10 ** 6)]))
    if r.random() < .5:
        d = d.astimezone(timezone(timedelta(minutes=r.choice([0, 60, -300, 330, 345, 765, -720, 840, 1]))) if r.random() < .85 else timezone(timedelta(seconds=r.choice([4772, -1172, 30, -29, 1, 20700 + 17]))))
    return d

def num(r):
    c = r.random()
    if c < .3:
        return r.randrange(-1000, 1000)
    if c < .4:
        return r.choice([0, 0.0, 1e-7, 1.5e12, -0.5, 0.1 + 0.2, 3.0, 1e22, 123456789.123])
    return round(r.uniform(-1e4, 1e4), r.randrange(0, 6))
