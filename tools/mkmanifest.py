#!/usr/bin/env python3
"""Writes MANIFEST.json: one entry per checks/cNN.py, the rest not_applicable with the reason below."""
import json, os, importlib.util, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {"C38": "The process module has no implementation on this platform: every call is a stub that panics or returns an error outside Windows, so there is no behaviour to specify or observe here."}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
sys.path.insert(0, os.path.join(V, "tools"))
DEF_TECH = "TLA+ specification checked with TLC; transition-covering and random command scripts replayed in the real code, recorded traces validated by TLC against the specification's actions"
DEF_NOTE = ("TLC checks the specification's invariants exhaustively within the constants in checks/{f}.py; every recorded execution of the real code (built from the working tree) must be a behaviour "
            "of the specification. Assurance for the code is that of the executions explored, not a proof. Trusted: TLC, the harness's projection of results, the compiler.")
checks, na = [], []
for p in props:
    f = os.path.join(V, "checks", p["id"].lower() + ".py")
    if not os.path.exists(f):
        na.append(dict(property=p["id"], reason=NA.get(p["id"], "No check has been built for this property yet.")))
        continue
    src = open(f).read()
    g = {}
    for line in src.splitlines():
        for k in ("LEVEL", "TECH", "NOTE"):
            if line.startswith(k + " ="):
                g[k] = eval(line.split("=", 1)[1])
    checks.append(dict(property=p["id"], quick_cmd="python3 tools/check.py " + p["id"], thorough_cmd="VERIF_TIER=thorough python3 tools/check.py " + p["id"],
                       evidence_file="evidence/%s.json" % p["id"], technique=g.get("TECH", DEF_TECH), level=g.get("LEVEL", "model_checking"),
                       level_note=g.get("NOTE", DEF_NOTE.format(f=p["id"].lower()))))
m = dict(version=1, setup_cmd="python3 tools/setup.py", hooks=dict(guard="none", enable="No hooks: the harnesses include /repo/code/zpl.h and interpose on the C library where needed.", source_commits=[]), checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
