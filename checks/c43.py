import vp
TECH = "TLC: the selection as a set beside the selection the preprocessor makes switch by switch, for every distribution and up to three or four switches (MCModules); conformance: selections the model emits are built from the sources, in C and C++, as one unit, several units, a static and a shared library, and run; what is there and what it does is judged by TraceModules"
def run(ctx):
    r = ctx.rng; inv = ["Agree"]; segs = []
    ctx.mc("MCModules", vp.cfg({"Toggles": ctx.n(3, 4)}, inv=inv), emit=False, workers=8, timeout=850)
    g = ctx.mc("MCModules", vp.cfg({"Toggles": 2}, inv=inv, aconst="Emit"), emit=True, workers=8, tag="gen")
    MODS = "CORE HASHING REGEX DLL OPTS PROCESS MATH THREADING JOBS PARSER SOCKET".split(); LANGS = "c11 c11 c99 c17 clang cpp11 cpp17 cpp20".split()
    EX = ["-", "-", "-", "ZPL_HEAP_ANALYSIS", "ZPL_NO_MATH_H", "ZPL_PARSER_DISABLE_ANALYSIS"]; REF = "build full one c11 O0 - M= D="
    ln = lambda dist, mode, lang, opt, ex, m, d: "build %s %s %s %s %s M=%s D=%s" % (dist, mode, lang, opt, ex, ",".join(sorted(m)), ",".join(sorted(d)))
    # the reference first, then selections that must not change what it saw
    todo = [ln("full", mode, lang, "O1", "-", [], []) for mode, lang in [("two", "c11"), ("two", "clang"), ("two", "cpp17"), ("two", "cpp20"), ("mixed", "cpp17"), ("staticlib", "c11"), ("shared", "c11"), ("shared", "cpp11"), ("static", "c11"), ("one", "c99"), ("one", "cpp20")]]
    todo += [ln("full", "one", l, o, "-", [], []) for l, o in [("c11", "O3"), ("c11", "Os"), ("clang", "O3"), ("cpp17", "O2")]] + [ln("full", "one", "c11", "O1", x, [], []) for x in EX[3:]]
    todo += [ln(x, "two", "c11", "O0", "-", [], []) for x in ("nano", "pico")]
    need = lambda x: {"OPTS": ["CORE"], "PROCESS": ["CORE"], "PARSER": ["CORE"], "REGEX": ["CORE"], "JOBS": ["CORE", "THREADING"]}.get(x, [])
    todo += [ln("custom", "two", "c11", "O0", "-", {x} | set(need(x)), []) for x in MODS] + [ln("nano", "two", "c11", "O0", "-", [x], []) for x in MODS] + [ln("full", "two", "c11", "O0", "-", [], [x]) for x in MODS if x != "CORE"]
    pick = lambda: (r.choice(["one", "two", "two", "mixed", "static", "staticlib", "shared"]), r.choice(LANGS), r.choice(["O0", "O0", "O1", "O2"]), r.choice(EX))
    for o in r.sample(g, min(len(g), ctx.n(16, 400))): todo.append(ln(o["dist"], *pick(), o["m"], o["d"]))
    for _ in range(ctx.n(6, 200)):
        s = {x for x in MODS if r.random() < .5}; s |= {y for x in s for y in need(x)}; todo.append(ln("custom", *pick(), s, []))
    r.shuffle(todo)
    for i in range(0, len(todo), 10): segs.append(("sel%d" % (i // 10), [REF] + todo[i:i + 10]))
    ctx.conform_multi([(vp.HARN + "/modules.py", segs)], "TraceModules", timeout=800, runjobs=8, env={"VP_REPO_DIR": vp.REPO})
