#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per module in checks/; properties without a check are listed with the reason."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
TECH = {
    "P03": "runtime monitoring: generated values through the real codecs, judged by an independent decoder",
    "P04": "runtime monitoring: mutation fuzzing of the real VTN with file-access and state-change monitors",
}
TECH["P29"] = "runtime monitoring: random TLS configurations on real sockets, monitors at both ends against the certificates' known properties"
DEFAULT = "runtime monitoring: random hostile histories on the real code in virtual time, wire and callback monitors against an independent reference"
NOTE = {"P29": "Held on every execution observed; says nothing about configurations the random workloads did not reach. Trusts OpenSSL, the kernel's loopback interface, and the independent signature verifier (lib/sign.py)."}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(H, "checks", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": f"python3 run_check.py {i}", "thorough_cmd": f"python3 run_check.py {i} --tier thorough",
                       "technique": TECH.get(i, DEFAULT), "level": "exploration",
                       "level_note": NOTE.get(i, "Held on every execution observed; says nothing about executions the random workloads did not reach. Trusts the simulated clock and in-memory transport (lib/vt.c, lib/vloop.py, lib/fabric.py), "
                                              "the independent OpenADR reader and writer (lib/wire.py, lib/oadr.py) and the published schema.")})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "mkdir -p build && gcc -O2 -shared -fPIC -o build/vt.so lib/vt.c -ldl && python3 mkprops.py",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo are needed: monitors observe the wire, the API, the callbacks and the clock from outside. All /repo commits are fixes of defects these checks found (KNOWN_FINDINGS.txt)."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
