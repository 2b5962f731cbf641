"""Shared machinery: build a harness from /repo's working tree, run command scripts through the real code, let TLC check the
specification exhaustively, and let TLC decide whether each recorded execution is a behaviour of the specification."""
import json, os, re, subprocess, sys, time, random, shutil, hashlib, signal
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
LINK = ["-pthread", "-ldl", "-lm", "-latomic"]
ASAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]
NCPU = 8


class CheckError(Exception):
    """The check itself failed: neither a pass nor a violation."""


class Ctx:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.rng = random.Random(self.seed * 1000003 + int(pid[1:]))
        self.work = os.path.join(VERIF, "build", pid if REPO == "/repo" else pid + "_" + os.path.basename(REPO))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work, exist_ok=True)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.notes = {}
        self.assumptions = []
        self.violations = []      # (description, replay path)
        self.known_hits = []
        self.known = load_known(pid)
        self.deadline = self.t0 + (600 if self.tier == "quick" else 3300)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def left(self):
        return self.deadline - time.time()

    # -------------------------------------------------------------- build
    def build(self, src, name=None, flags=(), asan=True, cc="gcc", opt="-O1", extra_src=()):
        out = os.path.join(self.work, name or os.path.splitext(os.path.basename(src))[0])
        cmd = [cc, "-std=gnu11", "-w", "-g1", opt, "-I", os.path.join(REPO, "code"), "-I", HARN]
        if asan:
            cmd += ASAN
        cmd += list(flags) + [os.path.join(HARN, src)] + [os.path.join(HARN, s) for s in extra_src] + ["-o", out] + LINK
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise CheckError("harness build failed: %s\n%s" % (" ".join(cmd), r.stderr[-3000:]))
        return out

    # -------------------------------------------------------------- build under the controlled scheduler
    WRAP = "pthread_create pthread_join pthread_detach pthread_self pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_timedlock pthread_mutex_unlock sem_init sem_destroy sem_post sem_wait sem_trywait sem_timedwait sem_getvalue sched_yield usleep nanosleep".split()

    def build_ctl(self, src, name=None, flags=(), impl="ctl_zpl.c", opt="-O1"):
        """zpl compiled with scheduling points (its own object), harness and scheduler without"""
        name = name or os.path.splitext(os.path.basename(src))[0]
        out = os.path.join(self.work, name)
        base = ["gcc", "-std=gnu11", "-w", "-g1", "-I", os.path.join(REPO, "code"), "-I", HARN] + list(flags)
        steps = [base + [opt, "-fsanitize=thread", "-finstrument-functions", "-c", os.path.join(HARN, impl), "-o", out + "_zpl.o"],
                 base + ["-O1", os.path.join(HARN, src), os.path.join(HARN, "ctl.c"), out + "_zpl.o", "-o", out] + ["-Wl,--wrap=" + w for w in self.WRAP] + LINK]
        for cmd in steps:
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode:
                raise CheckError("harness build failed: %s\n%s" % (" ".join(cmd), r.stderr[-3000:]))
        return out

    # -------------------------------------------------------------- run the real code
    def run(self, binary, segs, timeout=60, env=None, maxcrash=40, jobs=1, args=(), tag="p"):
        """segs: list of (name, [lines]).  Returns events, each tagged with seg index `_s`; crashes become events."""
        if jobs > 1 and len(segs) > 1:
            k = (len(segs) + jobs - 1) // jobs
            parts = [(i, segs[i:i + k]) for i in range(0, len(segs), k)]
            with ThreadPoolExecutor(jobs) as ex:
                res = list(ex.map(lambda p: self._run(binary, p[1], timeout, env, maxcrash, "%s%d" % (tag, p[0]), args), parts))
            out = []
            for (base, _), evs in zip(parts, res):
                for e in evs:
                    e["_s"] += base
                out += evs
            return out
        return self._run(binary, segs, timeout, env, maxcrash, tag, args)

    def _run(self, binary, segs, timeout, env, maxcrash, tag, args):
        events = []
        start = 0
        crashes = 0
        e = dict(os.environ)
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=0:print_summary=1"
        e["UBSAN_OPTIONS"] = "print_stacktrace=0:halt_on_error=1:abort_on_error=1"
        e["VP_LINE"] = "300" if self.thorough else "60"
        e.update(env or {})
        while start < len(segs):
            sf = os.path.join(self.work, "script_%s" % tag)
            of = os.path.join(self.work, "out_%s" % tag)
            with open(sf, "w") as f:
                for i in range(start, len(segs)):
                    f.write("seg %d\n" % i)
                    for ln in segs[i][1]:
                        f.write(ln + "\n")
            if os.path.exists(of):
                os.unlink(of)
            scratch = os.path.join(self.work, "cwd_%s" % tag)
            os.makedirs(scratch, exist_ok=True)
            hang = False
            with open(os.path.join(self.work, "err_%s" % tag), "wb") as ef:
                pr = subprocess.Popen([binary, sf, of] + list(args), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=ef, env=e, cwd=scratch, start_new_session=True)
                try:
                    rc = pr.wait(timeout=timeout)
                except subprocess.TimeoutExpired:
                    hang = True
                    os.killpg(pr.pid, signal.SIGKILL)
                    pr.wait()
                    rc = -9
            got = []
            if os.path.exists(of):
                with open(of, "r", errors="replace") as f:
                    for line in f:
                        if not line.endswith("\n"):
                            break
                        try:
                            got.append(json.loads(line))
                        except ValueError:
                            break
            cur = None
            for g in got:
                if g.get("op") == "seg":
                    cur = g["n"]
                g["_s"] = cur
            got = [g for g in got if g["_s"] is not None]
            hang = hang or rc == -signal.SIGALRM
            if rc == 0 and not hang:
                events += got
                break
            if rc == 3:
                raise CheckError("harness rejected its script: " + open(os.path.join(self.work, "err_%s" % tag), errors="replace").read()[-500:])
            crashes += 1
            with open(os.path.join(self.work, "err_%s" % tag), errors="replace") as ef:
                err = ef.read()
            last = got[-1]["_s"] if got else start
            if not got:
                got = [dict(op="seg", n=start, _s=start)]
            why = "hang" if hang else "exit %d" % rc
            m = re.search(r"(ERROR: AddressSanitizer[^\n]*|runtime error:[^\n]*|Assert Failure:[^\n]*|Panic:[^\n]*)", err)
            if m:
                why += ": " + m.group(1)[:300]
            got.append(dict(op="crash", why=why, _s=last))
            events += got
            start = last + 1
            if crashes >= maxcrash or (hang and crashes >= 3):
                break
        return events

    # -------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, timeout=600, workers=1, args=(), xmx="4g", tag=None):
        tag = tag or module
        d = os.path.join(self.work, "tlc_" + tag)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        cfgf = os.path.join(d, module + ".cfg")
        with open(cfgf, "w") as f:
            f.write(cfg)
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update({k: str(v) for k, v in (env or {}).items()})
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + xmx, "-Xss256m", "-DTLA-Library=" + SPEC, "-cp", CP, "tlc2.TLC",
               "-metadir", os.path.join(d, "states"), "-config", cfgf, "-workers", str(workers), "-noGenerateSpecTE"] + list(args) + [os.path.join(SPEC, module + ".tla")]
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=e, cwd=d)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on %s after %ds" % (module, timeout))
        shutil.rmtree(os.path.join(d, "states"), ignore_errors=True)
        with open(os.path.join(d, "out"), "w") as f:
            f.write(r.stdout + r.stderr)
        return r.stdout

    @staticmethod
    def counts(out):
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)

    def mc(self, module, cfg, timeout=600, workers=1, emit=True, env=None, tag=None, args=()):
        """Exhaustive model checking.  The specification is ours: a failure here is an error of the check."""
        out = self.tlc(module, cfg, timeout=timeout, workers=workers, env=env, tag=tag, args=args)
        if "Model checking completed. No error has been found." not in out:
            raise CheckError("model checking of %s failed:\n%s" % (module, out[-3000:]))
        gen, dist = self.counts(out)
        self.states += dist
        self.transitions += gen
        hists = []
        if emit:
            for m in re.finditer(r'^<<"VP-HIST", "(.*)">>$', out, re.M):
                hists.append(json.loads(m.group(1).replace('\\"', '"').replace("\\\\", "\\")))
        if emit and not hists:
            raise CheckError("model checking of %s emitted no behaviours" % module)
        self.notes.setdefault("models", []).append(dict(module=tag or module, distinct=dist, generated=gen, behaviours_emitted=len(hists)))
        return hists

    def simulate(self, module, cfg, num, depth, timeout=600, env=None, tag=None):
        out = self.tlc(module, cfg, timeout=timeout, env=env, tag=(tag or module) + "_sim",
                       args=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(self.seed)])
        hists = []
        for m in re.finditer(r'^<<"VP-HIST", "(.*)">>$', out, re.M):
            hists.append(json.loads(m.group(1).replace('\\"', '"').replace("\\\\", "\\")))
        return hists

    # -------------------------------------------------------------- trace validation
    def validate(self, module, events, cfg=None, jobs=8, timeout=800, label="", env=None):
        """Returns {segment index: (event, reason)} for the segments the specification rejects."""
        segs = {}
        for ev in events:
            segs.setdefault(ev["_s"], []).append(ev)
        order = sorted(segs)
        self.events += len(events)
        if not order:
            raise CheckError("no events recorded")
        total = sum(len(json.dumps(ev)) for ev in events)
        jobs = max(1, min(jobs, len(order), 1 + total // 60000))
        chunks = [[] for _ in range(jobs)]
        # contiguous chunks balanced by size
        acc, j = 0, 0
        for s in order:
            chunks[j].append(s)
            acc += sum(len(json.dumps(ev)) for ev in segs[s])
            if acc > total * (j + 1) / jobs and j < jobs - 1:
                j += 1
        chunks = [c for c in chunks if c]
        rej = {}
        with ThreadPoolExecutor(len(chunks)) as ex:
            for r in ex.map(lambda a: self._validate(module, a[1], segs, cfg, timeout, "%s%d" % (label, a[0]), env), list(enumerate(chunks))):
                rej.update(r)
        self.traces += len(order) - len(rej)
        return rej

    def _validate(self, module, order, segs, cfg, timeout, tag, env):
        cfg = cfg or "SPECIFICATION TSpec\nCHECK_DEADLOCK FALSE\n"
        rej = {}
        todo = list(order)
        while todo:
            f = os.path.join(self.work, "trace_%s_%s.ndjson" % (module, tag))
            flat = []
            for s in todo:
                for ev in segs[s]:
                    flat.append((s, ev))
            nxt = [0] * len(flat)
            n = len(flat) + 1
            for i in range(len(flat) - 1, -1, -1):
                nxt[i] = n
                if i > 0 and flat[i][0] != flat[i - 1][0]:
                    n = i + 1
            with open(f, "w") as fh:
                for (s, ev), nx in zip(flat, nxt):
                    d = {k: v for k, v in ev.items() if not k.startswith("_")}
                    d["ns"] = nx
                    fh.write(json.dumps(d) + "\n")
            ee = dict(VP_TRACE=f)
            ee.update(env or {})
            out = self.tlc(module, cfg, env=ee, timeout=timeout, tag=module + "_" + tag, xmx="3g")
            for m in re.finditer(r'<<"VP-REJECT", (\d+)>>', out):
                i = int(m.group(1)) - 1
                s, ev = flat[i]
                if s not in rej:
                    rej[s] = (ev, "no action of the specification explains this event")
            gen, dist = self.counts(out)
            if '"VP-DONE"' in out and "Model checking completed. No error" in out:
                self.states += dist
                self.transitions += gen
                break
            # evaluation error while explaining an event: locate it by the last printed l
            ls = re.findall(r"^/?\\?\s*/\\ l = (\d+)", out, re.M) or re.findall(r"\bl = (\d+)", out)
            if not ls or "Error:" not in out or "Parsing or semantic analysis failed" in out:
                raise CheckError("trace validation of %s failed:\n%s" % (module, out[-3000:]))
            i = int(ls[-1]) - 1
            if i >= len(flat):
                raise CheckError("trace validation of %s failed at end:\n%s" % (module, out[-3000:]))
            s, ev = flat[i]
            m = re.search(r"Error: ([^\n]*\n?[^\n]*\n?[^\n]*)", out)
            rej[s] = (ev, "the specification cannot explain this event (%s)" % (m.group(1).replace("\n", " ")[:300] if m else ""))
            k = todo.index(s)
            todo = todo[k + 1:]
            if len(rej) > 30:
                break
        return rej

    # -------------------------------------------------------------- whole conformance step
    def conform(self, binary, module, segs, **kw):
        return self.conform_multi([(binary, segs)], module, **kw)

    def conform_multi(self, runs, module, timeout=60, env=None, cfg=None, jobs=8, label="", runjobs=1, args=(), tenv=None, post=None):
        """runs: list of (binary, segments).  All recorded traces are validated together; rejected segments are re-run alone."""
        allsegs, events = [], []
        with ThreadPoolExecutor(max(1, len(runs))) as ex:
            res = list(ex.map(lambda a: self._runseg(a[1][0], a[1][1], timeout, env, "r%d" % a[0], args, runjobs), list(enumerate(runs))))
        for (binary, segs), evs in zip(runs, res):
            base = len(allsegs)
            allsegs += [(n, s, binary) for n, s in segs]
            for e in evs:
                e["_s"] += base
            events += evs
        if post:
            events = post(events)
        rej = self.validate(module, events, cfg=cfg, jobs=jobs, label=label, env=tenv)
        if len(self.samples) < 3 and allsegs:
            self.samples.append(dict(segment=allsegs[0][0], script=allsegs[0][1][:12], events=[{k: v for k, v in e.items() if k[0] != "_"} for e in events if e["_s"] == 0][:12]))
        self.notes.setdefault("conformance", []).append(dict(label=label or module, segments=len(allsegs), events=len(events), rejected=len(rej)))
        if not rej:
            return events
        # re-run every rejected segment alone (in a fresh process) before reporting it
        todo = sorted(rej)
        for s in [s for s in todo if allsegs[s][0] in self.known]:
            self.known_hits.append((allsegs[s][0], self.known[allsegs[s][0]]))
        todo = [s for s in todo if allsegs[s][0] not in self.known]
        confirmed = []
        for s in todo[:12]:
            name, script, binary = allsegs[s]
            ev2 = self.run(binary, [(name, script)], timeout=timeout, env=env, args=args)
            if post:
                ev2 = post(ev2)
            r2 = self.validate(module, ev2, cfg=cfg, jobs=1, label=label + "_re", env=tenv)
            if r2:
                confirmed.append((s, ev2, r2[0]))
            else:
                # state leaking between segments: accept only if the original rejection repeats in context
                first = s
                while first > 0 and allsegs[first - 1][2] == binary and s - first < 200:
                    first -= 1
                ev3 = self.run(binary, [x[:2] for x in allsegs[first:s + 1]], timeout=timeout, env=env, args=args)
                if post:
                    ev3 = post(ev3)
                ev3 = [e for e in ev3 if e["_s"] == s - first]
                if ev3:
                    r3 = self.validate(module, ev3, cfg=cfg, jobs=1, label=label + "_rc", env=tenv)
                    if r3:
                        confirmed.append((s, ev3, r3[s - first]))
            if len(confirmed) >= 2:
                break
        for s, ev, (bad, why) in confirmed:
            self.violation(dict(check=label or module, segment=allsegs[s][0], harness=os.path.basename(allsegs[s][2]), script=allsegs[s][1], rejected_event=bad, reason=why, events=ev))
        if todo and not confirmed:
            self.notes["unrepeated_rejections"] = self.notes.get("unrepeated_rejections", 0) + len(todo)
        return events

    def _runseg(self, binary, segs, timeout, env, tag, args, jobs):
        if jobs > 1:
            return self.run(binary, segs, timeout=timeout, env=env, jobs=jobs, args=args, tag=tag + "_")
        return self._run(binary, segs, timeout, env, 40, tag, args)

    def violation(self, detail):
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s_%d.json" % (self.pid, len(self.violations)))
        with open(path, "w") as f:
            json.dump(detail, f, indent=1, default=str)
        self.violations.append((detail, path))
        bad = detail.get("rejected_event", detail)
        print("rejected: segment=%s event=%s (%s)" % (detail.get("segment"), json.dumps(bad, default=str)[:600], detail.get("reason", "")))

    # -------------------------------------------------------------- finish
    def finish(self):
        seen = set()
        for name, what in self.known_hits:
            if name not in seen:
                seen.add(name)
                print("KNOWN-FINDING: property=%s %s" % (self.pid, what))
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces, samples=self.samples[:3], events=self.events)
        cov.update(self.notes)
        ev = dict(property=self.pid, tier=self.tier if self.tier in ("quick", "thorough") else "quick", seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for _, path in self.violations:
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
        if not os.environ.get("VP_KEEP"):
            shutil.rmtree(self.work, ignore_errors=True)
        print("%s %s: %d states, %d transitions, %d traces accepted, %d events, %.1fs" % (self.pid, "VIOLATED" if self.violations else "held", self.states, self.transitions, self.traces, self.events, time.time() - self.t0))
        return 1 if self.violations else 0


def load_known(pid):
    """known: property=<id> seg=<segment name> <what fails>"""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) seg=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def hist_segments(hists, prefix="mc", maxn=None, rng=None, setup=()):
    """Histories printed by TLC -> script segments; histories that are prefixes of others are dropped."""
    hs = sorted({tuple(tuple(str(x) for x in op) for op in h) for h in hists})
    keep = []
    for i, h in enumerate(hs):
        if i + 1 < len(hs) and hs[i + 1][:len(h)] == h:
            continue
        keep.append(h)
    if maxn and len(keep) > maxn:
        keep = rng.sample(keep, maxn)
    return [("%s%d" % (prefix, i), list(setup) + [" ".join(op) for op in h]) for i, h in enumerate(keep)]


def hx(b):
    if isinstance(b, str):
        b = b.encode("latin-1")
    return "x" + bytes(b).hex()


def cfg(consts=None, spec=None, init="Init", nxt="Next", inv=(), props=(), view=None, aconst=None, const=None, post=None):
    s = ""
    if spec:
        s += "SPECIFICATION %s\n" % spec
    else:
        s += "INIT %s\nNEXT %s\n" % (init, nxt)
    for k, v in (consts or {}).items():
        s += "CONSTANT %s = %s\n" % (k, v)
    for i in inv:
        s += "INVARIANT %s\n" % i
    for i in props:
        s += "PROPERTY %s\n" % i
    if view:
        s += "VIEW %s\n" % view
    if aconst:
        s += "ACTION_CONSTRAINT %s\n" % aconst
    if const:
        s += "CONSTRAINT %s\n" % const
    if post:
        s += "POSTCONDITION %s\n" % post
    return s + "CHECK_DEADLOCK FALSE\n"
