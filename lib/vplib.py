"""Machinery: builds the conformance driver from /repo, runs TLC on /verif/spec,
executes sessions on the real code and validates what was recorded."""
import hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
REPO = Path("/repo")
SPEC = ROOT / "spec"
BUILD = ROOT / "build"
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = os.cpu_count() or 4

class Broken(Exception):
    """The machinery itself failed: neither 0 nor 1 is an honest answer."""

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

# ------------------------------------------------------------------ build
VARIANTS = {
    "asan": ["-O1", "-g1", "-fsanitize=address", "-D_GLIBCXX_ASSERTIONS"],
    "tsan": ["-O1", "-g1", "-fsanitize=thread"],
    "plain": ["-O2"],
}
def build(variant="asan"):
    flags = VARIANTS[variant]
    src = sorted(REPO.glob("src/**/*.cpp"))
    tool = sorted(REPO.glob("tools/src/**/*.cpp"))
    deps = src + tool + sorted(REPO.glob("src/**/*.hpp")) + sorted(REPO.glob("tools/src/**/*.hpp")) + [ROOT / "harness/driver.cpp"]
    h = hashlib.sha256(repr(flags).encode())
    for f in deps:
        h.update(str(f).encode() + b"\0" + f.read_bytes() + b"\0")
    out = BUILD / f"{variant}-{h.hexdigest()[:16]}"
    exe = out / "driver"
    if exe.exists():
        return exe
    BUILD.mkdir(exist_ok=True)
    for old in BUILD.glob(f"{variant}-*"):
        if time.time() - old.stat().st_mtime > 3600:
            shutil.rmtree(old, ignore_errors=True)
    tmp = Path(tempfile.mkdtemp(prefix="b", dir=BUILD))
    inc = ["-I", str(REPO), "-I", str(REPO / "src"), "-DHAS_RES_NINIT", "-Wno-deprecated-declarations", "-w"]
    jobs = [(ROOT / "harness/driver.cpp", ["-std=c++17"])]
    jobs += [(f, ["-std=c++11"]) for f in src]
    jobs += [(f, ["-std=c++11", "-Dmain=dkimtool_main"]) for f in tool]
    def cc(j):
        n, (f, x) = j
        o = tmp / f"{n}.o"
        r = sh(["g++", *x, *flags, *inc, "-c", str(f), "-o", str(o)])
        return o, r
    with ThreadPoolExecutor(CORES) as ex:
        res = list(ex.map(cc, enumerate(jobs)))
    for o, r in res:
        if r.returncode:
            shutil.rmtree(tmp, ignore_errors=True)
            raise Broken("compilation failed:\n" + r.stdout[-4000:])
    r = sh(["g++", *flags, *[str(o) for o, _ in res], "-o", str(tmp / "driver"), "-lssl", "-lcrypto", "-lsodium", "-lresolv", "-lpthread"])
    if r.returncode:
        shutil.rmtree(tmp, ignore_errors=True)
        raise Broken("link failed:\n" + r.stdout[-4000:])
    for o, _ in res:
        o.unlink()
    try:
        tmp.rename(out)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return exe

def build_java():
    cls = BUILD / "java/DkimJ.class"
    src = SPEC / "java/DkimJ.java"
    if cls.exists() and cls.stat().st_mtime >= src.stat().st_mtime:
        return
    (BUILD / "java").mkdir(parents=True, exist_ok=True)
    r = sh(["javac", "-cp", JAR, "-d", str(BUILD / "java"), str(src)])
    if r.returncode:
        raise Broken("javac failed:\n" + r.stdout)

LOCALES = [("tr_TR", "UTF-8"), ("tr_TR", "ISO-8859-9"), ("sv_SE", "ISO-8859-1"), ("ja_JP", "EUC-JP")]
def locales():
    """locales in which letters, spaces and numbers are other than in C, made where the driver finds them"""
    d = BUILD / "locale"
    for l, cs in LOCALES:
        if not (d / f"{l}.{cs}").exists():
            d.mkdir(parents=True, exist_ok=True)
            t = Path(tempfile.mkdtemp(dir=d))
            r = sh(["localedef", "-i", l, "-f", cs, str(t / f"{l}.{cs}")])
            if not (t / f"{l}.{cs}").exists():
                raise Broken("localedef failed:\n" + r.stdout)
            try:
                (t / f"{l}.{cs}").rename(d / f"{l}.{cs}")
            except OSError:
                pass
            shutil.rmtree(t, ignore_errors=True)
    os.environ["LOCPATH"] = str(d)
    return [f"{l}.{cs}" for l, cs in LOCALES]

# ------------------------------------------------------------------ TLC
class Tlc:
    def __init__(self, out, rc, secs):
        self.out, self.rc, self.secs = out, rc, secs
        m = re.findall(r"(\d[\d,]*) states generated(?: \([^)]*\))?, (\d[\d,]*) distinct states found", out)
        self.generated, self.distinct = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
        m = re.search(r"Finished computing initial states: (\d+)", out)
        self.inits = int(m.group(1)) if m else 1
        self.transitions = max(0, self.generated - self.inits)
        self.violated = re.findall(r"(?:Invariant|Temporal properties|Action property) (\S+) (?:is|was|were) violated", out)

def tlc(work, module, cfg, env=None, workers=None, timeout=800, args=(), heap="6g"):
    """cfg: text of the configuration, or the name of a .cfg in spec/."""
    build_java()
    d = Path(tempfile.mkdtemp(prefix="tlc", dir=work))
    if "\n" in cfg:
        c = d / "m.cfg"
        c.write_text(cfg)
    else:
        c = SPEC / cfg
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss256m", f"-DTLA-Library={SPEC}", "-cp", f"{JAR}:{BUILD}/java", "tlc2.TLC",
           "-workers", str(workers or CORES), "-metadir", str(d / "meta"), "-noGenerateSpecTE", "-config", str(c), *args, str(SPEC / f"{module}.tla")]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout,
                           env={**os.environ, **(env or {})}, cwd=d)
    except subprocess.TimeoutExpired:
        raise Broken(f"TLC timed out on {module}")
    r = Tlc(p.stdout, p.returncode, time.time() - t0)
    shutil.rmtree(d / "meta", ignore_errors=True)
    return r

def jlines(path):
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [json.loads(x) for x in f if x.strip()]

# ------------------------------------------------------------------ driver
class Enough(Exception):
    """violations are known and it takes long: what else there is does not matter"""
class Storm(Exception):
    """hangs or crashes so many that going on would take for ever"""
    def __init__(self, reqs, sure, variant):
        self.reqs, self.sure, self.variant = reqs, sure, variant
FAIL = {"hang": [], "crash": [], "secs": 0.0, "armed": True}     # of the whole check
ENV = {"ASAN_OPTIONS": "hard_rss_limit_mb=6000:detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0",
       "TSAN_OPTIONS": "exitcode=98:halt_on_error=1", "LC_ALL": "C"}
def _run_driver(exe, a, b, c, env, cwd, quiet=150):
    """to the end, unless nothing at all is answered for so long"""
    p = subprocess.Popen([str(exe)], stdin=a, stdout=b, stderr=c, env=env, cwd=cwd)
    size, since = -1, time.time()
    while True:
        try:
            return p.wait(timeout=2)
        except subprocess.TimeoutExpired:
            n = os.fstat(b.fileno()).st_size
            if n != size:
                size, since = n, time.time()
            elif time.time() - since > quiet or storming():
                p.kill()
                p.wait()
                return "timeout"
def storming():
    return FAIL["armed"] and (len(FAIL["hang"]) >= 8 or FAIL["secs"] > 400 or len(FAIL["crash"]) >= 150)
def _one_worker(exe, work, n, reqs, env):
    """Runs requests in order; a crash or hang is charged to the request being served."""
    res = []
    at = 0
    scratch = Path(tempfile.mkdtemp(prefix=f"d{n}_", dir=work))
    while at < len(reqs) and not storming():
        fi, fo, fe = scratch / "in", scratch / "out", scratch / "err"
        with open(fi, "w") as f:
            for i in range(at, len(reqs)):
                f.write(json.dumps({"id": i, **reqs[i]}) + "\n")
        with open(fi) as a, open(fo, "w") as b, open(fe, "w") as c:
            rc = _run_driver(exe, a, b, c, {**os.environ, **ENV, **env, "DKIM_SCRATCH": str(scratch)}, scratch)
        done = jlines(fo)
        for a in done:
            assert a["id"] == at
            res.append({"hang": True} if a.get("hang") else {"o": a["o"]})
            at += 1
        if done and done[-1].get("hang"):
            FAIL["hang"].append(reqs[at - 1]); FAIL["secs"] += 20
            continue
        if at < len(reqs):
            if rc == "timeout" and storming():
                break
            err = open(fe, errors="replace").read()
            res.append({"crash": str(rc), "err": err[:1500]} if rc != "timeout" else {"hang": True})
            FAIL["hang" if rc == "timeout" else "crash"].append(reqs[at])
            if rc == "timeout":
                FAIL["secs"] += 150
            at += 1
    shutil.rmtree(scratch, ignore_errors=True)
    return res

def drive(work, reqs, variant="asan", jobs=None, env=None):
    exe = build(variant)
    jobs = min(jobs or CORES, max(1, len(reqs)))
    parts = [list(range(k, len(reqs), jobs)) for k in range(jobs)]
    out = [None] * len(reqs)
    with ThreadPoolExecutor(jobs) as ex:
        for idx, res in zip(parts, ex.map(lambda p: _one_worker(exe, work, p[0], [reqs[i] for i in p[1]], env or {}), enumerate(parts))):
            for i, r in zip(idx, res):
                out[i] = r
    if storming():
        raise Storm((FAIL["hang"] + FAIL["crash"])[:20], len(FAIL["crash"]) >= 150, variant)
    return out

# ------------------------------------------------------------------ one check run
class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random(f"{prop}/{seed}")
        self.t0 = time.time()
        self.work = Path(tempfile.mkdtemp(prefix=f"vp-{prop}-"))
        self.states = self.transitions = self.validated = 0
        self.parts = []
        self.samples = []
        self.violations = []
        self.notes = []
        self.exhaustive = []

    @property
    def thorough(self):
        return self.tier == "thorough"
    def pick(self, quick, thorough):
        return thorough if self.thorough else quick
    def enough(self):
        if self.violations and self.elapsed() > 400:
            raise Enough
    def elapsed(self):
        return time.time() - self.t0
    def log(self, *a):
        print(f"[{self.prop} {self.elapsed():6.1f}s]", *a, flush=True)

    # ---- stage A: exhaustive exploration of a model; returns what it emitted
    def model(self, module, cfg, name=None, timeout=700, args=(), workers=None, allow_partial=False):
        self.enough()
        emit = self.work / f"{module}-{len(self.parts)}.emit"
        r = tlc(self.work, module, cfg, env={"DKIM_EMIT": str(emit)}, timeout=timeout, args=args, workers=workers)
        if r.rc != 0 or ("Model checking completed. No error" not in r.out and not allow_partial):
            raise Broken(f"TLC on {module} (rc {r.rc}): " + r.out[-3000:])
        self.states += r.distinct
        self.transitions += r.transitions
        v = sorted(jlines(emit), key=lambda x: json.dumps(x, sort_keys=True))    # workers race: the order of emission means nothing
        if emit.exists():
            emit.unlink()
        self.parts.append({"model": name or module, "states": r.distinct, "transitions": r.transitions, "emitted": len(v), "secs": round(r.secs, 1)})
        self.log(f"model {name or module}: {r.distinct} states, {len(v)} behaviours emitted, {r.secs:.1f}s")
        return v

    # ---- stage B: behaviours of the model replayed on the real code.
    # vectors: [{"e": call, "x": {field: expected}}]
    def replay(self, vectors, name, cmp=None, batch=64):
        self.enough()
        reqs = []
        for i in range(0, len(vectors), batch):
            reqs.append({"ev": [v["e"] for v in vectors[i:i + batch]]})
        res = drive(self.work, reqs)
        bad = []
        for n, r in enumerate(res):
            part = vectors[n * batch:(n + 1) * batch]
            if "o" in r:
                for v, o in zip(part, r["o"]):
                    if not (cmp or match)(v["x"], o):
                        bad.append(v)
            else:   # find the culprit
                for v, q in zip(part, drive(self.work, [{"ev": [v["e"]]} for v in part])):
                    if "o" not in q or not (cmp or match)(v["x"], q["o"][0]):
                        bad.append(v)
        for v in bad[:20]:
            q = drive(self.work, [{"ev": [v["e"]]}])[0]
            if "o" not in q or not (cmp or match)(v["x"], q["o"][0]):
                self.violation({"ev": [v["e"]]}, q, v["x"], name)
        if bad and not self.violations:    # only in company: judge the whole batch again
            for n in sorted({vectors.index(v) // batch for v in bad[:5]}):
                part = vectors[n * batch:(n + 1) * batch]
                q = drive(self.work, [{"ev": [v["e"] for v in part]}])[0]
                if "o" not in q or any(not (cmp or match)(v["x"], o) for v, o in zip(part, q["o"])):
                    self.violation({"ev": [v["e"] for v in part]}, q, [v["x"] for v in part], name)
        self.validated += len(vectors)
        self.parts.append({"replay": name, "vectors": len(vectors)})
        self.sample(name, vectors)
        self.log(f"replay {name}: {len(vectors)} vectors, {len(bad)} mismatches")

    # behaviours of several calls: [{"ev": [calls], "x": [expected fields or None, per call]}]
    def replay_sessions(self, runs, name, cmp=None, variant="asan"):
        self.enough()
        cmp = cmp or match
        wrong = lambda v, q: "o" not in q or any(x is not None and not cmp(x, o) for x, o in zip(v["x"], q["o"]))
        res = drive(self.work, [{"ev": v["ev"]} for v in runs], variant)
        bad = [n for n, (v, q) in enumerate(zip(runs, res)) if wrong(v, q)]
        for n in bad[:20]:
            v = runs[n]
            q = drive(self.work, [{"ev": v["ev"]}], variant)[0]
            if wrong(v, q):
                self.violation({"ev": v["ev"]}, q, v["x"], name)
        if bad and not self.violations:     # only in company of what ran before
            n = bad[0]
            before = [{"ev": x["ev"]} for x in runs[n % CORES:n + 1:CORES]] if len(runs) >= CORES else [{"ev": x["ev"]} for x in runs[:n + 1]]
            q = drive(self.work, before, variant, jobs=1)[-1]
            if wrong(runs[n], q):
                self.violation({"after": before[:-1][-50:], "ev": runs[n]["ev"]}, q, runs[n]["x"], name)
            else:
                self.notes.append(f"{name}: a mismatch did not repeat and is not reported")
        self.validated += len(runs)
        self.parts.append({"replay": name, "vectors": len(runs), "calls": sum(len(v["ev"]) for v in runs)})
        self.sample(name, runs)
        self.log(f"replay {name}: {len(runs)} runs, {len(bad)} mismatches")

    # ---- what happens when nearly everything hangs or crashes
    def storm(self, e):
        FAIL["armed"] = False
        t0 = time.time()
        for q in e.reqs:
            a = drive(self.work, [q], e.variant, jobs=1)[0]
            if "o" not in a:
                self.violation(q, a, "a result or a declared error", "hangs and crashes without end")
                return
            if time.time() - t0 > 200:
                break
        if e.sure:
            self.violation({"ev": [], "among": e.reqs[:5]}, "at least 150 crashes, none of these alone", "a result or a declared error", "hangs and crashes without end")
        elif not self.violations:
            raise Broken("the driver hung again and again, yet not when asked alone")

    def sample(self, name, items, n=2):
        if not items or len(self.samples) > 12:
            return
        r = random.Random(1)
        for v in [items[0]] + [items[r.randrange(len(items))] for _ in range(n - 1)]:
            s = json.dumps(v)
            self.samples.append({"from": name, "case": v if len(s) < 1500 else s[:1500] + "..."})

    # ---- stage C: sessions recorded on the real code, validated against Api by TLC
    def traces(self, sessions, name, variant="asan", chunk=None):
        """sessions: [{"ev": [...]}]; "claim" inside a call: class the specification must give it (guards the generator)."""
        if not sessions:
            return
        chunk = chunk or len(sessions)
        for i in range(0, len(sessions), chunk):
            self._traces(sessions[i:i + chunk], name, variant)

    def _traces(self, sessions, name, variant):
        self.enough()
        res = drive(self.work, [{"ev": strip(s["ev"])} for s in sessions], variant)
        recorded, idx = [], []
        for n, (s, r) in enumerate(zip(sessions, res)):
            if "o" not in r:
                q = drive(self.work, [{"ev": strip(s["ev"])}], variant)[0]
                if "o" not in q:
                    self.violation({"ev": strip(s["ev"])}, q, "a result or a declared error", name)
                    continue
                r = q
            recorded.append(merge(s["ev"], r["o"]))
            idx.append(n)
        rejects = self.validate(recorded, name)
        for t, k, exp in rejects:
            self.enough()
            s = sessions[idx[t]]
            q = drive(self.work, [{"ev": strip(s["ev"])}], variant)[0]
            if "o" not in q:
                self.violation({"ev": strip(s["ev"])}, q, exp, name)
                continue
            again = self.validate([merge(s["ev"], q["o"])], name, count=False)
            if again:
                t2, k2, e2 = again[0]
                self.violation({"ev": strip(s["ev"])}, {"call": k2, "o": q["o"][k2]}, e2, name)
            else:
                # it depends on what ran before it in the process
                n = idx[t]
                before = [strip(x["ev"]) for x in sessions[n % CORES:n + 1:CORES]] if len(sessions) >= CORES else [strip(x["ev"]) for x in sessions[:n + 1]]
                q = drive(self.work, [{"ev": b} for b in before], variant, jobs=1)[-1]
                if "o" not in q or self.validate([merge(s["ev"], q["o"])], name, count=False):
                    self.violation({"after": before[:-1][-50:], "ev": strip(s["ev"])}, q, exp, name)
                else:
                    self.notes.append(f"{name}: a rejection did not repeat and is not reported")
            if len(self.violations) >= 5:
                break
        self.sample(name, recorded)

    def validate(self, recorded, name, count=True):
        """TLC walks every recorded session through Api!Step; returns the rejected calls (first of each session)."""
        if not recorded:
            return []
        f = self.work / "trace.ndjson"
        emit = self.work / "trace.emit"
        if emit.exists():
            emit.unlink()
        with open(f, "w") as o:
            for r in recorded:
                o.write(json.dumps({"ev": r}) + "\n")
        r = tlc(self.work, "TraceApi", "TraceApi.cfg", env={"DKIM_TRACE": str(f), "DKIM_EMIT": str(emit)})
        want = sum(len(x) + 1 for x in recorded)
        if r.rc != 0 or r.distinct != want:
            dump = ROOT / "build/failed-trace.ndjson"
            shutil.copy(f, dump)
            raise Broken(f"trace validation did not finish (rc {r.rc}, {r.distinct} of {want} states):\n" + r.out[-3000:])
        first, claims = {}, []
        for e in jlines(emit):
            t, k = e["t"] - 1, e["k"] - 1
            if "claim" in e:
                claims.append((t, k, e["claim"]))
            elif t not in first or k < first[t][0]:
                first[t] = (k, e["exp"])
        for t, k, x in claims[:]:   # what the library itself made is no fault of the generator's
            if t in first and first[t][0] <= k:
                claims.remove((t, k, x))
            elif any(e["c"] == "val" and "last" in e for e in recorded[t][:k]):
                first[t] = (k, x)
                claims.remove((t, k, x))
        if claims:
            t, k, c = claims[0]
            (BUILD / "failed-claim.json").write_text(json.dumps({"ev": recorded[t], "k": k, "exp": c}))
            raise Broken(f"{name}: generator claimed {recorded[t][k]['claim']} for call {k} but the specification says {c}: see build/failed-claim.json")
        if count:
            self.states += r.distinct
            self.transitions += r.transitions
            self.validated += len(recorded)
            self.parts.append({"traces": name, "sessions": len(recorded), "calls": want - len(recorded), "rejected": len(first), "secs": round(r.secs, 1)})
            self.log(f"traces {name}: {len(recorded)} sessions, {want - len(recorded)} calls, {len(first)} rejected, {r.secs:.1f}s")
        return [(t, first[t][0], first[t][1]) for t in sorted(first)]

    # ---- recorded outcome classes against the declared ones; returns the positions refused
    def outcomes(self, log, name):
        f, emit = self.work / "outcome.ndjson", self.work / "outcome.emit"
        if emit.exists():
            emit.unlink()
        with open(f, "w") as o:
            for l in log:
                o.write(json.dumps(l) + "\n")
        r = tlc(self.work, "Outcome", "Outcome.cfg", env={"DKIM_TRACE": str(f), "DKIM_EMIT": str(emit)}, workers=1)
        if r.rc != 0 or r.distinct != len(log) + 1:
            raise Broken("Outcome failed: " + r.out[-3000:])
        self.states += r.distinct
        self.transitions += r.transitions
        return sorted({e["k"] - 1 for e in jlines(emit)})

    # ---- recorded activities, every interleaving of their calls on one Api state
    def merges(self, logs, name):
        f, emit = self.work / "merge.ndjson", self.work / "merge.emit"
        if emit.exists():
            emit.unlink()
        with open(f, "w") as o:
            for l in logs:
                o.write(json.dumps(l) + "\n")
        r = tlc(self.work, "MC_Merge", "TraceApi.cfg".replace("TraceApi", "MC_Merge"), env={"DKIM_TRACE": str(f), "DKIM_EMIT": str(emit)})
        if r.rc != 0:
            raise Broken("MC_Merge failed: " + r.out[-3000:])
        rejects = jlines(emit)
        alone = {(e["t"], e["i"], e["k"]) for e in rejects if all(p == 1 for j, p in enumerate(e["pc"], 1) if j != e["i"])}
        odd = [e for e in rejects if (e["t"], e["i"], e["k"]) not in alone]
        want = 0
        for l in logs:
            n = 1
            for p in l["progs"]:
                n *= len(p) + 1
            want += n
        if not alone and (odd or r.distinct != want):   # the specification itself lets activities interfere
            raise Broken(f"merging: {r.distinct} states for {want} positions, {len(odd)} calls refused only in company: {json.dumps(odd[:2])[:1500]}")
        self.states += r.distinct
        self.transitions += r.transitions
        self.validated += len(logs)
        self.parts.append({"merges": name, "groups": len(logs), "states": r.distinct, "positions": want, "refused_alone": len(alone), "secs": round(r.secs, 1)})
        self.log(f"merges {name}: {len(logs)} groups, {r.distinct} states, {len(alone)} calls not as specified even alone, {r.secs:.1f}s")

    # ---- the specification as a signer: drafts -> signature fields
    def forge(self, drafts):
        if not drafts:
            return []
        f, emit = self.work / "drafts.ndjson", self.work / "forge.emit"
        if emit.exists():
            emit.unlink()
        with open(f, "w") as o:
            for n, d in enumerate(drafts):
                o.write(json.dumps({**d, "id": n}) + "\n")
        r = tlc(self.work, "Forge", "Forge.cfg", env={"DKIM_DRAFTS": str(f), "DKIM_EMIT": str(emit)})
        if r.rc != 0:
            raise Broken("Forge failed: " + r.out[-3000:])
        self.states += r.distinct
        self.transitions += r.transitions
        out = [None] * len(drafts)
        for e in jlines(emit):
            out[e["id"]] = e["text"] if e["ok"] else None
        return out

    # ---- reporting
    def violation(self, request, observed, expected, name):
        d = ROOT / "evidence/replay"
        d.mkdir(parents=True, exist_ok=True)
        p = d / f"{self.prop}-{len(self.violations) + 1}.json"
        doc = {"property": self.prop, "stage": name, "request": request, "observed": observed, "expected": expected}
        p.write_text(json.dumps(doc, indent=1))
        self.violations.append(doc)
        if len(self.violations) <= 10:
            print(f"VIOLATION property={self.prop} replay={p}", flush=True)
            self.log(f"  in {name}: expected {json.dumps(expected)[:300]} observed {json.dumps(observed)[:300]}")

    def finish(self):
        known = [k for k in known_findings() if k["property"] == self.prop]
        for k in known:
            print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.validated,
                           "samples": self.samples, "parts": self.parts, "notes": self.notes},
              "assumptions": ["the cryptographic primitives and hash functions (Java's in the specification, OpenSSL's and libsodium's in the code) are correct and agree",
                              "clock and resolver answers reach the library only through the functions the driver interposes"],
              "wall_s": round(self.elapsed(), 2), "violations": len(self.violations)}
        (ROOT / "evidence").mkdir(exist_ok=True)
        (ROOT / f"evidence/{self.prop}.json").write_text(json.dumps(ev, indent=1))
        shutil.rmtree(self.work, ignore_errors=True)
        self.log(f"done: {self.states} states, {self.validated} validated, {len(self.violations)} violations")
        return 1 if self.violations else 0

def known_findings():
    p = ROOT / "known_findings.jsonl"
    return [k for k in jlines(p) if k.get("kind") == "known"]

def match(x, o):
    return all(f in o and o[f] == v for f, v in x.items())

def strip(ev):
    return [{k: v for k, v in e.items() if k != "claim"} for e in ev]

def merge(ev, obs):
    out = []
    for e, o in zip(ev, obs):
        n = dict(e)
        if e["c"] == "val" and "last" in e and "data" in o:
            n["data"] = o["data"]
        n["o"] = {k: v for k, v in o.items() if k not in ("what", "data")}
        out.append(n)
    return out
