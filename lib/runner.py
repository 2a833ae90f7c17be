"""Check runner: spawns workers, aggregates what the monitors observed, applies the known-findings
file, writes evidence and decides the exit code (0 held, 1 violated, 3 inconclusive/error)."""
import argparse, hashlib, importlib, json, os, random, re, shutil, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = os.environ.get("VERIF_PY", "/opt/venv/bin/python")
NWORK = int(os.environ.get("VERIF_WORKERS", "8"))
TIMEOUT = {"quick": 780, "thorough": 6 * 3600}

# ---------------------------------------------------------------- worker side

class Case:
    def __init__(self, mod, tier, seed, index):
        self.mod, self.tier, self.seed, self.index = mod, tier, seed, index
        self.rng = random.Random(f"{mod.ID}|{seed}|{index}")
        self.counters, self.sigs, self.samples, self.fails = {}, [], [], []
        self.trace = []
        self.nontrivial = False
    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n
    def sig(self, *parts):
        """Marks this case non-trivial and adds a signature of what it exercised."""
        self.nontrivial = True
        self.sigs.append(hashlib.sha1(repr(parts).encode("utf-8", "replace")).hexdigest()[:16])
    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(obj)
    def note(self, *a):
        if len(self.trace) < 400:
            self.trace.append(" ".join(str(x) for x in a)[:600])
    def fail(self, mechanism, detail):
        if len(self.fails) < 12:
            self.fails.append({"mechanism": mechanism, "detail": str(detail)[:2500]})
    def check(self, cond, mechanism, detail=""):
        self.count("assertions")
        if not cond:
            self.fail(mechanism, detail() if callable(detail) else detail)
        return bool(cond)
    def run(self, coro_fn, start=None, problems=True):
        import vloop
        res, probs = vloop.run(coro_fn, start or vloop.EPOCH)
        if problems:
            for p in probs:
                self.fail("unhandled-error-in-event-loop", p)
        return res

def repo_frames(tb):
    return [f for f in traceback.extract_tb(tb) if f.filename.startswith(os.path.join(REPO, "openleadr"))]

def run_case(mod, tier, seed, i):
    import vloop
    import gen
    gen._n[0] = 0
    c = Case(mod, tier, seed, i)
    err = None
    try:
        mod.case(c)
    except vloop.Deadlock as e:
        c.fail("stalled", f"the workload can make no further progress: {e}; trace tail {c.trace[-10:]}")
    except Exception as e:
        tb = e.__traceback__
        if repo_frames(tb):
            fr = repo_frames(tb)[-1]
            c.fail(f"unexpected-exception:{type(e).__name__}",
                   f"{type(e).__name__}: {e} at {os.path.relpath(fr.filename, REPO)}:{fr.name}\n{traceback.format_exc()[-1800:]}")
        else:
            err = f"case {i}: {traceback.format_exc()[-2500:]}"
    finally:
        vloop.release_wall()
    return c, err

def load_openleadr():
    sys.path.insert(0, REPO)
    import fabric
    fabric.install()
    import aiohttp.web, lxml.etree, signxml, xmltodict, jinja2, apscheduler.schedulers.asyncio, tzlocal, cryptography.x509  # noqa
    sys.pycache_prefix = "/nonexistent/verif-no-cache"
    sys.dont_write_bytecode = True
    import openleadr
    assert os.path.realpath(openleadr.__file__).startswith(os.path.realpath(REPO)), openleadr.__file__
    import logging
    logging.raiseExceptions = False
    root = logging.getLogger()
    root.handlers[:] = [logging.NullHandler()]
    lg = logging.getLogger("openleadr")
    lg.handlers[:] = [logging.NullHandler()]
    lg.propagate = False
    lg.setLevel(logging.INFO)
    logging.getLogger("apscheduler").setLevel(logging.CRITICAL)
    logging.getLogger("asyncio").setLevel(logging.CRITICAL)

def worker(a):
    import vloop, signal, faulthandler, warnings
    warnings.simplefilter("ignore")
    vloop.self_test()
    load_openleadr()
    mod = importlib.import_module(a.id.lower())
    if hasattr(mod, "setup"):
        mod.setup()
    out = {"counters": {}, "sigs": [], "samples": [], "violations": [], "errors": [], "cases": 0, "nontrivial": 0}
    sigs = set()
    def boom(*_):
        raise TimeoutError("watchdog")
    idx = [a.only] if a.only is not None else range(a.shard, mod.CASES[a.tier], a.nshards)
    for i in idx:
        with open(a.out + ".cur", "w") as f:
            f.write(str(i))
        faulthandler.dump_traceback_later(getattr(mod, "WATCHDOG", 120), exit=True, file=sys.stderr)
        c, err = run_case(mod, a.tier, a.seed, i)
        faulthandler.cancel_dump_traceback_later()
        out["cases"] += 1
        out["nontrivial"] += bool(c.nontrivial)
        for k, v in c.counters.items():
            out["counters"][k] = out["counters"].get(k, 0) + v
        sigs.update(c.sigs)
        if len(out["samples"]) < 2:
            out["samples"].extend(c.samples[:1])
        for f in c.fails:
            if len(out["violations"]) < 60:
                out["violations"].append(dict(f, case=i, trace=c.trace[-120:]))
        if err and len(out["errors"]) < 5:
            out["errors"].append(err)
        if len({v["case"] for v in out["violations"]}) >= 25 or len(out["errors"]) >= 5:
            break
    out["sigs"] = sorted(sigs)
    with open(a.out, "w") as f:
        json.dump(out, f, default=str)

# ---------------------------------------------------------------- parent side

def build_shim():
    so = os.path.join(VERIF, "build", "vt.so")
    src = os.path.join(VERIF, "lib", "vt.c")
    if not os.path.exists(so) or os.path.getmtime(so) < os.path.getmtime(src):
        os.makedirs(os.path.dirname(so), exist_ok=True)
        tmp = f"{so}.{os.getpid()}"
        subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-o", tmp, src], check=True)
        os.replace(tmp, so)
    return so

def known_findings():
    res = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            m = re.match(r"known: property=(\S+) mechanism=(\S+) (.*)", line.strip())
            if m:
                res.append(m.groups())
    return res

def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--only", type=int)
    ap.add_argument("--worker", action="store_true")
    ap.add_argument("--shard", type=int, default=0)
    ap.add_argument("--nshards", type=int, default=1)
    ap.add_argument("--out")
    a = ap.parse_args(argv)
    a.id = a.id.upper()
    if a.worker:
        return worker(a)
    if a.replay:
        r = json.load(open(a.replay))
        a.tier, a.seed, a.only = r["tier"], r["seed"], r["case"]
    t0 = time.time()
    so = build_shim()
    work = tempfile.mkdtemp(prefix=f"verif-{a.id}-")
    env = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "LANG", "LC_ALL", "VERIF_REPO", "VERIF_WORKERS")}
    env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", TZ="UTC", LD_PRELOAD=so, VT_LIB=so,
               PYTHONPATH=os.pathsep.join([os.path.join(VERIF, "lib"), os.path.join(VERIF, "checks")]),
               VERIF_WORK=work, PYTHONUNBUFFERED="1")
    sys.path[:0] = [os.path.join(VERIF, "lib"), os.path.join(VERIF, "checks")]
    meta = json.loads(subprocess.run(
        [PY, "-c", "import importlib,json,sys;sys.path.insert(0,%r);import runner;runner.load_openleadr();m=importlib.import_module(%r);"
         "print('\\n@@'+json.dumps({k:getattr(m,k,None) for k in ('CASES','RULE','ASSUME','REQUIRED','TITLE')}))" % (REPO, a.id.lower())],
        env=env, capture_output=True, text=True, cwd=work).stdout.rsplit("@@", 1)[-1] or "null")
    if meta is None:
        r = subprocess.run([PY, "-c", "import runner;runner.load_openleadr();import %s" % a.id.lower()], env=env, cwd=work)
        print(f"INCONCLUSIVE property={a.id}: the code under test or the check cannot be loaded")
        shutil.rmtree(work, ignore_errors=True)
        return 3
    n = 1 if a.only is not None else max(1, min(NWORK, meta["CASES"][a.tier]))
    procs = []
    for s in range(n):
        out = os.path.join(work, f"out{s}.json")
        log = open(os.path.join(work, f"log{s}"), "wb")
        cmd = [PY, os.path.join(VERIF, "lib", "runner.py"), a.id, "--worker", "--tier", a.tier, "--seed", str(a.seed),
               "--shard", str(s), "--nshards", str(n), "--out", out]
        if a.only is not None:
            cmd += ["--only", str(a.only)]
        wd = os.path.join(work, f"cwd{s}")
        os.mkdir(wd)
        procs.append((subprocess.Popen(cmd, env=env, stdout=log, stderr=log, cwd=wd), out, log.name))
    agg = {"counters": {}, "sigs": set(), "samples": [], "violations": [], "errors": [], "cases": 0, "nontrivial": 0}
    deadline = t0 + TIMEOUT[a.tier]
    for p, out, log in procs:
        try:
            p.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            agg["errors"].append(f"worker timed out ({log})")
        if not os.path.exists(out):
            tail = open(log, "rb").read()[-2500:].decode("utf-8", "replace")
            if "Timeout (" in tail and os.path.join(REPO, "openleadr") in tail and os.path.exists(out + ".cur"):
                # the case made no progress for minutes while executing the code under test
                agg["violations"].append({"mechanism": "no-progress", "detail": tail, "case": int(open(out + ".cur").read()), "trace": []})
                continue
            agg["errors"].append(f"worker ended with {p.returncode} without a result: {tail}")
            continue
        r = json.load(open(out))
        for k, v in r["counters"].items():
            agg["counters"][k] = agg["counters"].get(k, 0) + v
        agg["sigs"].update(r["sigs"])
        for k in ("samples", "violations", "errors"):
            agg[k] += r[k]
        agg["cases"] += r["cases"]
        agg["nontrivial"] += r["nontrivial"]
    shutil.rmtree(work, ignore_errors=True)
    known = {(p, m): w for p, m, w in known_findings()}
    new, seen_known = {}, {}
    for v in sorted(agg["violations"], key=lambda v: v["case"]):
        key = (a.id, v["mechanism"])
        if key in known:
            seen_known.setdefault(v["mechanism"], v)
        else:
            new.setdefault(v["mechanism"], v)
    missing = [] if a.only is not None else [k for k in (meta["REQUIRED"] or []) if agg["counters"].get(k, 0) == 0]
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    for m, v in seen_known.items():
        print(f"KNOWN-FINDING: property={a.id} {known[(a.id, m)]}")
    rc = 0
    for m, v in list(new.items())[:6]:
        path = os.path.join(rdir, f"{a.id}-{re.sub(r'[^A-Za-z0-9_.-]+', '_', m)[:60]}-{a.seed}-{v['case']}.json")
        with open(path, "w") as f:
            json.dump({"property": a.id, "tier": a.tier, "seed": a.seed, "case": v["case"], "mechanism": m,
                       "detail": v["detail"], "trace": v["trace"],
                       "replay_with": f"cd /verif && python3 run_check.py {a.id} --replay {path}"}, f, indent=1)
        print(f"VIOLATION property={a.id} replay={path}")
        print(f"  mechanism={m} case={v['case']} :: {v['detail'][:1200]}")
        rc = 1
    if rc == 0 and (agg["errors"] or missing):
        rc = 3
        print(f"INCONCLUSIVE property={a.id} errors={len(agg['errors'])} missing_observations={missing}")
        for e in agg["errors"][:3]:
            print(e)
    if a.only is None:
        ev = {"property": a.id, "tier": a.tier, "seed": a.seed, "level": "exploration",
              "coverage": {"evaluations": agg["cases"], "distinct_nontrivial": min(len(agg["sigs"]), agg["nontrivial"]),
                           "distinct_signatures": len(agg["sigs"]),
                           "rule": meta["RULE"], "samples": agg["samples"][:6], "observed": dict(sorted(agg["counters"].items())),
                           "workers": n, "known_findings_seen": sorted(seen_known), "verdict": {0: "held", 1: "violated", 3: "inconclusive"}[rc]},
              "assumptions": meta["ASSUME"] or [], "wall_s": round(time.time() - t0, 2), "violations": len(new)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{a.id}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str, ensure_ascii=False)
    print(f"{a.id} {a.tier} seed={a.seed}: cases={agg['cases']} nontrivial={agg['nontrivial']} distinct={len(agg['sigs'])} "
          f"observed={dict(sorted(agg['counters'].items()))} wall={time.time()-t0:.1f}s -> {['HELD','VIOLATED','','INCONCLUSIVE'][rc]}")
    return rc

if __name__ == "__main__":
    sys.exit(main())
