"""Common machinery of the checks: building drivers from /repo, running them, TLC runs, verdicts, evidence."""
import os, sys, json, subprocess, time, hashlib, shutil, re, concurrent.futures as cf, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")
SPEC = os.path.join(VERIF, "spec")
DRV = os.path.join(VERIF, "drivers")
JAR = "/opt/veriftools/tla/tla2tools.jar"
CM = None
CPU = min(8, os.cpu_count() or 4)

class MachineryError(Exception):
    pass

def log(*a):
    print(*a, file=sys.stderr, flush=True)

CXXFLAGS = ("-DGEM_DYNAMIC -DGEM_TESTING -include cstdint -fno-unsafe-math-optimizations -fno-finite-math-only "
            "-ftemplate-depth=1024 -pthread -DDEBUG -std=c++17 -fPIC -w").split()

def have_ccache():
    return shutil.which("ccache") is not None

def run(cmd, timeout=None, env=None, cwd=None):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=cwd, text=True, errors="replace")
    return p.returncode, p.stdout

def genenv():
    e = dict(os.environ)
    e["CCACHE_DIR"] = os.path.join(BUILD, "ccache")
    e["CCACHE_MAXSIZE"] = "3G"
    return e

def ensure_global_defines():
    """GGlobalDefines.hpp is generated by cmake into the include tree (git-ignored)."""
    if not os.path.exists(os.path.join(REPO, "include/common/GGlobalDefines.hpp")):
        build_libs(["common"])

def compile_objs(srcs, outdir, extra=(), opt="-O1", std=None):
    os.makedirs(outdir, exist_ok=True)
    objs = []
    def one(s):
        o = os.path.join(outdir, hashlib.sha1((s + " ".join(extra) + opt).encode()).hexdigest()[:8] + "_" + os.path.basename(s) + ".o")
        cmd = (["ccache"] if have_ccache() else []) + ["g++", "-c", s, "-o", o, opt, "-g0", "-I" + os.path.join(REPO, "include"), "-I" + DRV] + CXXFLAGS + list(extra)
        rc, out = run(cmd, env=genenv(), timeout=800)
        if rc:
            raise MachineryError("compilation of %s failed:\n%s" % (s, out[-6000:]))
        return o
    with cf.ThreadPoolExecutor(CPU) as ex:
        objs = list(ex.map(one, srcs))
    return objs

BOOST = ["-lboost_serialization", "-lboost_thread", "-lboost_system", "-lboost_filesystem", "-lboost_program_options",
         "-lboost_date_time", "-lboost_chrono", "-lboost_regex", "-lboost_atomic"]

def build_driver(name, srcs, repo_srcs=(), extra=(), libs=(), vsched=True, opt="-O1"):
    """srcs relative to drivers/, repo_srcs relative to /repo."""
    ensure_global_defines()
    t0 = time.time()
    outdir = os.path.join(BUILD, name)
    os.makedirs(outdir, exist_ok=True)
    ex = list(extra) + (["-DUSE_VSCHED"] if vsched else [])
    full = [os.path.join(DRV, s) for s in srcs] + [os.path.join(REPO, s) for s in repo_srcs]
    objs = compile_objs(full, outdir, ex, opt)
    if vsched:
        objs += compile_objs([os.path.join(DRV, "vsched.cpp")], outdir, [], "-O2")
    exe = os.path.join(outdir, name)
    bl = [b for b in BOOST]
    cmd = ["g++", "-o", exe] + objs + ["-rdynamic", "-pthread"] + list(libs) + bl + ["-ldl"]
    rc, out = run(cmd, timeout=300)
    if rc:
        raise MachineryError("linking %s failed:\n%s" % (name, out[-4000:]))
    log("built %s in %.1fs" % (name, time.time() - t0))
    return exe

def build_libs(targets):
    cmd = ["bash", "/opt/vp/build.sh"] if REPO == "/repo" else ["ninja", "-C", os.path.join(REPO, "_build")]
    rc, out = run(cmd + list(targets), timeout=850)
    if rc:
        raise MachineryError("build of %s failed:\n%s" % (targets, out[-6000:]))

LIBDIRS = ["common", "hap", "courtier", "geneva", "geneva-individuals"]

def geneva_link(libs=("geneva-individuals", "geneva", "courtier", "hap", "common")):
    b = os.path.join(REPO, "_build/src")
    r = []
    for l in LIBDIRS:
        d = os.path.join(b, l)
        r += ["-L" + d, "-Wl,-rpath," + d]
    return r + ["-lgemfony-" + l for l in libs] + ["-lboost_unit_test_framework"]

def run_driver(exe, count, seed, outdir, args=(), procs=CPU, first=0, timeout=600):
    """Runs `count` executions spread over `procs` driver processes; returns list of run records."""
    os.makedirs(outdir, exist_ok=True)
    for f in ("GENEVA-EXCEPTION.log",):   # the library's error log, written into the current directory
        if not os.path.lexists(os.path.join(outdir, f)):
            os.symlink("/dev/null", os.path.join(outdir, f))
    procs = max(1, min(procs, count))
    per = (count + procs - 1) // procs
    jobs = []
    for p in range(procs):
        f = first + p * per
        n = min(per, first + count - f)
        if n <= 0:
            continue
        out = os.path.join(outdir, "runs_%d.ndjson" % p)
        jobs.append((out, [exe, str(f), str(n), str(seed), out] + [str(a) for a in args]))
    def go(j):
        return run(j[1], timeout=timeout, cwd=outdir)
    with cf.ThreadPoolExecutor(len(jobs)) as ex:
        res = list(ex.map(go, jobs))
    recs = []
    for (rc, o), (out, _) in zip(res, jobs):
        if rc:
            raise MachineryError("driver failed rc=%d: %s" % (rc, o[-2000:]))
        with open(out, errors="replace") as f:
            for line in f:
                line = line.strip()
                if line:
                    recs.append(json.loads(line))
    recs.sort(key=lambda r: r["run"])
    return recs

# ---------------------------------------------------------------- TLC
def tlc_cmd(heap="2g", deque=False):
    cp = JAR
    for c in ("/opt/veriftools/tla/CommunityModules-deps.jar", "/opt/veriftools/tla/CommunityModules.jar"):
        if os.path.exists(c):
            cp += ":" + c
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss64m", "-Xmx" + heap]
    if deque:
        cmd += ["-Dtlc2.tool.queue.IStateQueue=StateDeque"]
    return cmd + ["-cp", cp, "tlc2.TLC"]

def tlc_model(module, cfg, workers=CPU, timeout=600, heap="6g", extra=(), env=None):
    """Model check spec/<module>.tla with spec/<cfg>; returns (ok, stats, output)."""
    meta = tempfile.mkdtemp(prefix="tlc_", dir=BUILD)
    try:
        e = dict(os.environ)
        e.update(env or {})
        cmd = tlc_cmd(heap) + ["-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", os.path.join(SPEC, cfg)] + list(extra) + [os.path.join(SPEC, module + ".tla")]
        try:
            rc, out = run(cmd, timeout=timeout, cwd=SPEC, env=e)
        except subprocess.TimeoutExpired:
            raise MachineryError("TLC timed out on " + module + " " + cfg)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        st = {"states": int(m[-1][1]) if m else 0, "transitions": int(m[-1][0]) if m else 0}
        return rc == 0, rc, st, out
    finally:
        shutil.rmtree(meta, ignore_errors=True)

def model_check(module, cfg, **kw):
    """A model error is a machinery error: the model is ours and fixed; it must hold."""
    ok, rc, st, out = tlc_model(module, cfg, **kw)
    if not ok or st["states"] == 0:
        raise MachineryError("model %s/%s failed (rc %s):\n%s" % (module, cfg, rc, out[-5000:]))
    log("model %s: %s" % (cfg, st))
    return st

def validate_batch(module, cfg, traces, deque=True, timeout=800, heap="3g"):
    """traces: list of dicts with key 'ev' (list of events) and others; returns list of matched prefix lengths + states."""
    d = tempfile.mkdtemp(prefix="val_", dir=BUILD)
    try:
        f = os.path.join(d, "traces.ndjson")
        with open(f, "w") as fh:
            for t in traces:
                fh.write(json.dumps(t) + "\n")
        e = dict(os.environ)
        e["TRACES"] = f
        cmd = tlc_cmd(heap, deque) + ["-workers", "1", "-metadir", os.path.join(d, "m"), "-noGenerateSpecTE", "-deadlock", "-config", os.path.join(SPEC, cfg), os.path.join(SPEC, module + ".tla")]
        try:
            rc, out = run(cmd, timeout=timeout, cwd=SPEC, env=e)
        except subprocess.TimeoutExpired:
            raise MachineryError("trace validation timed out in " + module)
        res = dict((int(a), int(b)) for a, b in re.findall(r'<<"RES", (\d+), (\d+)>>', out))
        if len(res) != len(traces):
            raise MachineryError("trace validation by %s gave no verdict (rc %d):\n%s" % (module, rc, out[-5000:]))
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        acts = re.findall(r'<<"COV", "([^"]+)", (\d+)>>', out)
        return [res[i + 1] for i in range(len(traces))], (int(m[-1][1]) if m else 0), (int(m[-1][0]) if m else 0)
    finally:
        shutil.rmtree(d, ignore_errors=True)

def validate(module, cfg, traces, batches=CPU, **kw):
    """Validates the traces in parallel batches. Returns (list of matched lengths, states, transitions)."""
    n = len(traces)
    if n == 0:
        raise MachineryError("no traces to validate by " + module)
    order = sorted(range(n), key=lambda i: -len(traces[i]["ev"]))
    b = min(batches, n)
    groups = [order[k::b] for k in range(b)]
    out = [None] * n
    S = T = 0
    with cf.ThreadPoolExecutor(b) as ex:
        for g, (r, s, t) in zip(groups, ex.map(lambda g: validate_batch(module, cfg, [traces[i] for i in g], **kw), groups)):
            S += s; T += t
            for i, x in zip(g, r):
                out[i] = x
    return out, S, T

# ---------------------------------------------------------------- check frame
class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.notes = {}
        self.violations = []
        self.findings = []
        os.makedirs(BUILD, exist_ok=True)
        os.makedirs(EVID, exist_ok=True)
        self.known = [k for k in load_known() if k.get("property") == pid and k.get("status") == "known"]

    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough() else quick

    def dir(self, sub):
        d = os.path.join(BUILD, "runs", self.pid, sub)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d, exist_ok=True)
        return d

    def model(self, module, cfg, **kw):
        st = model_check(module, cfg, **kw)
        self.states += st["states"]
        self.transitions += st["transitions"]
        self.notes.setdefault("models", []).append({"cfg": cfg, **st})

    def sample(self, x):
        if len(self.samples) < 6:
            s = json.dumps(x)
            self.samples.append(s if len(s) < 1500 else s[:1500] + "...")

    def is_known(self, sig):
        for k in self.known:
            if k.get("signature") and re.fullmatch(k["signature"], sig):
                return k
        return None

    def report(self, what, sig, data):
        """data: JSON-able replay information"""
        k = self.is_known(sig)
        if k:
            if k["id"] not in self.findings:
                self.findings.append(k["id"])
                print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]), flush=True)
            return
        d = os.path.join(EVID, "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.json" % (self.pid, len(self.violations) + 1))
        with open(p, "w") as f:
            json.dump({"property": self.pid, "what": what, "signature": sig, "data": data}, f, indent=1)
        if len(self.violations) < 5:
            print("VIOLATION property=%s replay=%s" % (self.pid, p), flush=True)
            print("  " + what[:600], flush=True)
        self.violations.append(sig)

    def validate_runs(self, name, exe, args, recs, to_trace, module, cfg, seed, describe=None, rerun=True, deque=True, redo=None):
        """Full pipeline: run records -> traces -> TLC; a rejection is confirmed by executing that run again."""
        traces = [to_trace(r) for r in recs]
        m, s, t = validate(module, cfg, traces, deque=deque)
        self.states += s; self.transitions += t; self.traces += len(traces)
        for r in recs[:2]:
            self.sample({"driver": name, "cfg": r.get("cfg"), "ev": r["ev"][:12]})
        bad = [i for i in range(len(traces)) if m[i] < len(traces[i]["ev"])]
        for i in bad[:8]:
            r = recs[i]; tr = traces[i]
            if rerun:
                if redo is not None:
                    r2 = redo(r)
                else:
                    r2 = run_driver(exe, 1, seed, self.dir("confirm"), args, procs=1, first=r["run"])[0]
                tr2 = to_trace(r2)
                m2, _, _ = validate(module, cfg, [tr2], deque=deque)
                if m2[0] >= len(tr2["ev"]):
                    log("rejection of %s run %d not repeated" % (name, r["run"]))
                    self.notes["unconfirmed_rejections"] = self.notes.get("unconfirmed_rejections", 0) + 1
                    continue
                r, tr, k = r2, tr2, m2[0]
            else:
                k = m[i]
            ev = tr["ev"][k] if k < len(tr["ev"]) else None
            sig = (describe(r, tr, k) if describe else "%s:%s" % (name, json.dumps(ev)))
            self.report("%s run %d (seed %d): the specification %s does not allow event %d: %s (cfg %s)" % (name, r["run"], seed, module, k + 1, json.dumps(ev), json.dumps(tr.get("cfg"))),
                        sig, {"driver": name, "args": list(args), "seed": seed, "run": r["run"], "cfg": tr.get("cfg"), "accepted_prefix": k, "trace": tr["ev"], "end": r.get("end"), "detail": r.get("detail")})
        return len(bad)

    def finish(self):
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces, "samples": self.samples, **self.notes}
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "violations": len(self.violations), "known_findings": self.findings, "wall_s": round(time.time() - self.t0, 1)}
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        log("%s: states %d, transitions %d, traces %d, violations %d, %.1fs" % (self.pid, self.states, self.transitions, self.traces, len(self.violations), time.time() - self.t0))
        return 1 if self.violations else 0

def load_known():
    p = os.path.join(VERIF, "known-findings.json")
    return json.load(open(p)) if os.path.exists(p) else []
