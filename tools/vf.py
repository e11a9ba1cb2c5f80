"""Shared machinery of the checks: building libffi from /repo, running TLC,
turning specification output into driver plans and recorded observations into
traces TLC validates."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time, atexit, signal
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
JAR = "/opt/veriftools/tla/tla2tools.jar"
CPUS = os.cpu_count() or 8
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")


class Die(Exception):
    pass


_work = None


def work():
    global _work
    if _work is None:
        base = os.path.join(VERIF, "build")
        os.makedirs(base, exist_ok=True)
        for d in os.listdir(base):      # left behind by interrupted runs
            q = os.path.join(base, d)
            try:
                if d.startswith("w") and time.time() - os.path.getmtime(q) > 14400:
                    shutil.rmtree(q, ignore_errors=True)
            except OSError:
                pass
        _work = tempfile.mkdtemp(prefix="w", dir=base)
        if not os.environ.get("VF_KEEP"):
            atexit.register(lambda: shutil.rmtree(_work, ignore_errors=True))
    return _work


def path(*p):
    q = os.path.join(work(), *p)
    os.makedirs(os.path.dirname(q), exist_ok=True)
    return q


def run(cmd, timeout=600, env=None, cwd=None, check=True, inp=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e,
                           cwd=cwd, input=inp, start_new_session=True)
    except subprocess.TimeoutExpired:
        raise Die("timeout after %ss: %s" % (timeout, " ".join(cmd)[:300]))
    if check and r.returncode != 0:
        raise Die("command failed (%d): %s\n%s\n%s" % (r.returncode, " ".join(cmd)[:600],
                  r.stdout.decode("utf8", "replace")[-2000:], r.stderr.decode("utf8", "replace")[-4000:]))
    return r


# ---------------------------------------------------------------- libffi build
LIB_SRC = ["src/prep_cif.c", "src/types.c", "src/raw_api.c", "src/java_raw_api.c", "src/closures.c", "src/tramp.c",
           "src/x86/ffi64.c", "src/x86/ffiw64.c", "src/x86/unix64.S", "src/x86/win64.S"]
BASE_FLAGS = ["-Wall", "-fomit-frame-pointer", "-fstrict-aliasing", "-ffast-math", "-fexceptions"]


class Lib:
    pass


def headers(d, static_tramp=True, target="X86_64", config=()):
    inc = os.path.join(d, "include")
    os.makedirs(inc, exist_ok=True)
    s = open(os.path.join(REPO, "include/ffi.h.in")).read()
    for k, v in (("@VERSION@", "verif"), ("@TARGET@", target), ("@HAVE_LONG_DOUBLE@", "1"),
                 ("@FFI_EXEC_TRAMPOLINE_TABLE@", "0"), ("@FFI_VERSION_STRING@", "0"), ("@FFI_VERSION_NUMBER@", "0")):
        s = s.replace(k, v)
    open(os.path.join(inc, "ffi.h"), "w").write(s)
    shutil.copy(os.path.join(REPO, "src/x86/ffitarget.h"), inc)
    c = open(os.path.join(VERIF, "config/fficonfig.h")).read()
    if not static_tramp:
        c = re.sub(r"#define FFI_EXEC_STATIC_TRAMP 1", "/* no static trampolines */", c)
    for a, b in config:
        c = c.replace(a, b)
    open(os.path.join(inc, "fficonfig.h"), "w").write(c)
    return ["-I" + inc, "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src")]


def build_lib(name, cc="gcc", opt="-O3", static_tramp=True, extra=(), cextra=(), redefine=None, pic=True,
              srcs=None, target="X86_64", config=()):
    """Compile libffi from the working tree; returns the objects and include flags."""
    d = path("lib-" + name, "x")
    d = os.path.dirname(d)
    L = Lib()
    L.dir, L.name, L.cc = d, name, cc
    L.inc = headers(d, static_tramp, target, config)
    L.objs = []
    jobs = []
    for s in srcs or LIB_SRC:
        o = os.path.join(d, os.path.basename(s).replace(".", "_") + ".o")
        fl = ["-DHAVE_CONFIG_H"] + L.inc + BASE_FLAGS + [opt] + (["-fPIC", "-DPIC"] if pic else []) + list(extra)
        if s.endswith(".c"):
            fl += list(cextra)
        jobs.append(([cc] + fl + ["-w", "-c", os.path.join(REPO, s), "-o", o]))
        L.objs.append(o)
    with ThreadPoolExecutor(CPUS) as ex:
        list(ex.map(lambda j: run(j, timeout=200), jobs))
    if redefine:
        rf = os.path.join(d, "redefine")
        open(rf, "w").write("".join("%s %s\n" % kv for kv in redefine.items()))
        for o in L.objs:
            run(["objcopy", "--redefine-syms=" + rf, o])
    return L


def build_prog(name, srcs, lib, cc=None, flags=(), libs=()):
    out = path("bin", name)
    run([cc or "gcc", "-D_GNU_SOURCE", "-g", "-O1", "-w", "-fno-builtin-memcpy"] + lib.inc + list(flags)
        + [s if s.startswith("/") else os.path.join(HARN, s) for s in srcs] + lib.objs + ["-o", out, "-lpthread", "-ldl"]
        + list(libs), timeout=200)
    return out


# ---------------------------------------------------------------- TLC
class TlcResult:
    def __init__(self):
        self.lines, self.states, self.distinct, self.ok, self.raw = [], 0, 0, False, ""
        self.diameter = 0


_tlcn = 0


def tlc(module, cfg, env=None, workers=1, timeout=600, simulate=None, heap="2g", need_ok=True, props=(), spec_dir=None, seed=None):
    """Run TLC on spec/<module>.tla with configuration text cfg."""
    global _tlcn
    _tlcn += 1
    n = _tlcn
    c = path("tlc", "%s-%d.cfg" % (module, n))
    open(c, "w").write(cfg)
    meta = path("tlc", "m%d" % n, "x")
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
           "-Dtlc2.TLC.ide=none"] + list(props) + \
          ["-cp", JAR + ":" + cm_jar(), "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.dirname(meta),
           "-config", c, "-noGenerateSpecTE", "-seed", str(SEED if seed is None else seed)]
    if simulate:
        cmd += ["-simulate", simulate[0], "-depth", str(simulate[1])]
    cmd += [os.path.join(spec_dir or SPEC, module + ".tla")]
    r = run(cmd, timeout=timeout, env=env, check=False, cwd=spec_dir or SPEC)
    t = TlcResult()
    t.raw = r.stdout.decode("utf8", "replace")
    t.rc = r.returncode
    for ln in t.raw.splitlines():
        if ln.startswith('"') and ln.endswith('"'):
            t.lines.append(unq(ln))
        m = re.match(r"(\d+) states generated, (\d+) distinct states found", ln.replace(",", "").replace("generated", "generated,", 1)) 
        m = m or re.match(r"(\d+) states generated, (\d+) distinct", ln)
        if m:
            t.states, t.distinct = int(m.group(1)), int(m.group(2))
        m = re.search(r"The depth of the complete state graph search is (\d+)", ln)
        if m:
            t.diameter = int(m.group(1))
    t.ok = ("No error has been found" in t.raw) or (simulate is not None and r.returncode == 0)
    shutil.rmtree(os.path.dirname(meta), ignore_errors=True)
    if need_ok and not t.ok:
        raise Die("TLC failed on %s:\n%s\n%s" % (module, t.raw[-6000:], r.stderr.decode("utf8", "replace")[-2000:]))
    return t


_cm = None


def cm_jar():
    global _cm
    if _cm is None:
        try:
            s = open(shutil.which("tlc")).read()
        except Exception:
            s = ""
        js = [j for j in re.findall(r"[^\s:\"']+\.jar", s)]
        _cm = ":".join(dict.fromkeys(js)) or JAR
    return _cm


def unq(ln):
    """A TLC-printed string."""
    try:
        return json.loads(ln)
    except Exception:
        return ln[1:-1].replace('\\"', '"').replace("\\\\", "\\")


def tagged(t, tag):
    pre = tag + " "
    return [json.loads(x[len(pre):]) for x in t.lines if x.startswith(pre)]


def validate(module, cfg, events, chunks=None, timeout=600, tag="REJECT", heap="2g"):
    """Split events over parallel TLC runs of a line-by-line trace spec; returns (rejects, states)."""
    if not events:
        return [], 0
    n = chunks or min(CPUS, max(1, len(events) // 40))
    parts = [events[i::n] for i in range(n)]

    def one(k):
        f = path("tr", "%s-%d-%d.ndjson" % (module, os.getpid(), id(parts[k])))
        with open(f, "w") as h:
            for e in parts[k]:
                h.write(json.dumps(e, separators=(",", ":")) + "\n")
        t = tlc(module, cfg, env={"TRACE": f}, timeout=timeout, heap=heap)
        os.unlink(f)
        return t
    with ThreadPoolExecutor(n) as ex:
        rs = list(ex.map(one, range(n)))
    rej = []
    for t in rs:
        rej += tagged(t, tag)
    return rej, sum(t.distinct for t in rs)


# ---------------------------------------------------------------- results
class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level, self.t0 = prop, level, time.time()
        self.states = self.transitions = self.validated = 0
        self.samples, self.extra, self.viol, self.assumptions = [], {}, [], []
        self.known = []
        self.lock = threading.Lock()
        self.notes = []

    def model(self, t):
        with self.lock:
            self.states += t.distinct
            self.transitions += t.states

    def add(self, key, n):
        with self.lock:
            self.extra[key] = self.extra.get(key, 0) + n

    def sample(self, s):
        if len(self.samples) < 5:
            s = s if isinstance(s, str) else json.dumps(s, separators=(",", ":"))
            self.samples.append(s[:1500])

    def violation(self, what, replay):
        self.viol.append((what, replay))

    def finish(self):
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        kf = known_findings()
        new = []
        for what, rep in self.viol:
            k = [f for f in kf if f["property"] == self.prop and f.get("match") and re.search(f["match"], what)]
            if k:
                self.known.append((k[0], what))
            else:
                new.append((what, rep))
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": self.level,
              "coverage": dict({"states": self.states, "transitions": self.transitions,
                                "traces_validated_against_impl": self.validated, "samples": self.samples or ["none"]}, **self.extra),
              "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        if self.assumptions:
            ev["assumptions"] = self.assumptions
        json.dump(ev, open(os.path.join(d, self.prop + ".json"), "w"), indent=1)
        for f in {x[0]["id"]: x[0] for x in self.known}.values():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, f["what"]))
        if new:
            rd = os.path.join(VERIF, "build", "replay")
            os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, self.prop + ".json")
            json.dump([{"what": w, "replay": r} for w, r in new[:20]], open(rp, "w"), indent=1)
            for w, _ in new[:8]:
                print("  " + w)
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        print("OK property=%s tier=%s states=%d transitions=%d traces=%d wall=%.1fs %s" % (
            self.prop, TIER, self.states, self.transitions, self.validated, time.time() - self.t0, json.dumps(self.extra)[:300]))
        return 0


def known_findings():
    f = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(f):
        return []
    return json.load(open(f)).get("known", [])
