#!/usr/bin/env python3
"""Builds the library for one selection of modules and says what is there and what it does.  argv: SCRIPT OUT
line: build DIST MODE LANG OPT EXTRA M=enable,... D=disable,...   (DIST custom: M names the modules)"""
import os, re, subprocess, sys, json
REPO = os.environ["VP_REPO_DIR"]; HERE = os.path.dirname(os.path.abspath(__file__)); PROBE = HERE + "/modules_probe.c"
INC = ["-w", "-I", REPO + "/code"]; LINK = ["-pthread", "-ldl", "-lm", "-latomic"]
LANG = {"c99": ["gcc", "-std=gnu99"], "c11": ["gcc", "-std=gnu11"], "c17": ["gcc", "-std=gnu17"], "clang": ["clang", "-std=gnu11"], "cpp11": ["g++", "-std=gnu++11", "-x", "c++"], "cpp17": ["g++", "-std=gnu++17", "-x", "c++"], "cpp20": ["clang++", "-std=gnu++20", "-x", "c++"]}
def sh(cmd, **k): return subprocess.run(cmd, capture_output=True, text=True, errors="replace", timeout=120, stdin=subprocess.DEVNULL, **k)
def build(n, dist, mode, lang, opt, extra, m, d):
    fl = {"full": [], "nano": ["-DZPL_NANO"], "pico": ["-DZPL_PICO"], "custom": ["-DZPL_CUSTOM_MODULES", "-DZPL_MODULE_ESSENTIALS"]}[dist]
    fl = fl + [("-DZPL_MODULE_" if dist == "custom" else "-DZPL_ENABLE_") + x for x in m] + ["-DZPL_DISABLE_" + x for x in d] + ([] if extra == "-" else ["-D" + extra])
    e = dict(op="build", dist=dist, mode=mode, lang=lang, opt=opt, extra=extra, m=m, d=d, built=False, ran=False, sel=[], missing=[], dig=[])
    cc, b = LANG[lang], "./b%d" % n; O = ["-" + opt]
    impl, user = b + "_impl.c", b + "_use"
    open(impl, "w").write("#define ZPL_IMPLEMENTATION\n#include \"zpl.h\"\n"); open(b + "_hdr.c", "w").write("#include \"zpl.h\"\n")
    if mode == "one": steps = [cc + O + INC + fl + ["-DZPL_IMPLEMENTATION", PROBE, "-o", user] + LINK]
    elif mode == "static": steps = [cc + O + INC + fl + ["-DZPL_STATIC", "-DZPL_IMPLEMENTATION", PROBE, "-o", user] + LINK]
    else:
        so = mode == "shared"; lib = {"shared": ["-DZPL_SHARED_LIB"], "staticlib": ["-DZPL_STATIC_LIB"]}.get(mode, [])
        ic = LANG["c11"] if mode == "mixed" else cc; obj = b + ("_lib.so" if so else "_lib.o")
        steps = [ic + O + INC + fl + lib + (["-fPIC", "-shared"] if so else ["-c"]) + [impl, "-o", obj] + (LINK if so else []),
                 cc + O + INC + fl + lib + ["-c", PROBE, "-o", b + "_p.o"], [cc[0], b + "_p.o", obj, "-o", user, "-Wl,-rpath," + os.getcwd()] + LINK]
    err = ""
    for s in steps:
        r = sh(s); err = r.stderr
        if r.returncode: break
    else: e["built"] = True
    # what the headers of this selection switch on and declare
    c = LANG["c11"]; r = sh(c + INC + fl + ["-E", "-dM", b + "_hdr.c"]); e["sel"] = sorted(set(re.findall(r"#define ZPL_MODULE_(\w+)", r.stdout)) - {"TIMER", "EVENT"})
    if mode not in ("one", "static") and e["built"]:
        r = sh(c + INC + fl + ["-E", "-P", "-DZPL_DEF=VPDECL extern", b + "_hdr.c"]); dec = set(re.findall(r"VPDECL\s+extern[^;{]*?\b(zpl_\w+)\s*\(", r.stdout))
        r = sh(["nm", "-C", obj]); have = {x.split("(")[0].split()[-1] for x in r.stdout.split("\n") if len(x.split()) > 2}
        e["missing"] = sorted(dec - have)
    if e["built"]:
        r = sh([user], cwd=os.getcwd()); e["ran"] = r.returncode == 0
        e["dig"] = [l.split() for l in r.stdout.split("\n") if l]
    elif os.environ.get("VP_SHOW"): sys.stderr.write(err[:3000])
    for x in ("_impl.c", "_use", "_hdr.c", "_lib.so", "_lib.o", "_p.o"):
        if os.path.exists(b + x): os.unlink(b + x)
    return e
out = open(sys.argv[2], "w"); n = 0
for ln in open(sys.argv[1]):
    t = ln.split()
    if not t: continue
    if t[0] == "seg": e = dict(op="seg", n=int(t[1]))
    elif t[0] == "build": n += 1; e = build(n, *t[1:6], [x for x in t[6][2:].split(",") if x], [x for x in t[7][2:].split(",") if x])
    else: sys.exit(3)
    out.write(json.dumps(e) + "\n"); out.flush()
