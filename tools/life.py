"""Closure lifecycle checks: C15-C20, C22-C24."""
import json, os, random
from concurrent.futures import ThreadPoolExecutor
from functools import partial
import vf

WRAP = ("mmap mmap64 munmap mprotect open open64 openat openat64 close fopen fopen64 fclose memfd_create mkstemp mkstemp64 "
        "mkostemp mkostemp64 write pwrite pwrite64 posix_fallocate posix_fallocate64 fallocate fallocate64 ftruncate ftruncate64 pread pread64 "
        "read statfs statfs64 setmntent access unlink getenv secure_getenv malloc calloc realloc free pthread_mutex_lock pthread_mutex_unlock").split()


def redefs():
    return {w: "vf_" + w for w in WRAP}


def build(name, static=True, cc="gcc", opt="-O2", extra=(), driver="clos_driver.c", more=()):
    L = vf.build_lib(name, cc=cc, opt=opt, static_tramp=static, pic=False, redefine=redefs(), extra=list(extra))
    o = [x for x in L.objs if "tramp_c" in x][0]
    vf.run(["objcopy", "--redefine-sym", "ffi_tramp_arch=vf_tramp_arch", o])
    return vf.build_prog(name, [driver, "vf_wrap.c"] + list(more), L, flags=["-fno-pie", "-no-pie", "-DVF_STATIC=%d" % static] + list(extra))


def build_dl():
    """The driver with libffi as a shared library; returns (driver, environment)."""
    env = {}
    for name, cc, opt, var in (("dllib", "gcc", "-O2", "VF_LIB"), ("dlother", "gcc", "-O0", "VF_OTHERLIB")):
        L = vf.build_lib(name, cc=cc, opt=opt, static_tramp=True, pic=True, redefine=redefs())
        o = [x for x in L.objs if "tramp_c" in x][0]
        vf.run(["objcopy", "--redefine-sym", "ffi_tramp_arch=vf_tramp_arch", o])
        shim = vf.path("dl", name + ".c")
        open(shim, "w").write("#include <stddef.h>\nextern void *ffi_tramp_arch (size_t *, size_t *);\n"
                              "void *vf_lib_arch (size_t *a, size_t *b) { return ffi_tramp_arch (a, b); }\n")
        so = vf.path("dl", name + ".so")
        vf.run([cc, "-shared", "-fPIC", "-w", shim] + L.objs + ["-o", so])
        env[var] = so
    L = vf.Lib()
    L.inc, L.objs = vf.headers(vf.path("dl", "inc")), []
    prog = vf.build_prog("dl", ["clos_driver.c", "vf_wrap.c"], L, flags=["-DVF_DL", "-DVF_STATIC=1", "-rdynamic", "-fno-pie", "-no-pie"])
    return prog, env


def replay(prog, plans, chunks=None, env=None):
    """plans: list of plan lines without index; returns records with i = index."""
    n = chunks or min(vf.CPUS, max(1, len(plans) // 4))

    def one(k):
        d = vf.path("scr", "%s-%d-%d" % (os.path.basename(prog), id(plans), k), "x")
        d = os.path.dirname(d)
        inp = "".join("%d %s\n" % (i, plans[i]) for i in range(k, len(plans), n))
        r = vf.run([prog, d], inp=inp.encode(), timeout=800, check=False, env=env)
        o = r.stdout.decode("utf8", "replace")
        dec = json.JSONDecoder()
        res, p = [], 0
        while p < len(o):
            try:
                v, p = dec.raw_decode(o, p)
            except ValueError as e:
                raise vf.Die("driver output: %s ... %s" % (e, o[p:p + 300]))
            res.append(v)
            while p < len(o) and o[p] in "\n ":
                p += 1
        if r.returncode:
            raise vf.Die("driver failed: %s %s" % (r.returncode, r.stderr[-500:]))
        return res
    with ThreadPoolExecutor(n) as ex:
        out = [e for rs in ex.map(one, range(n)) for e in rs]
    out.sort(key=lambda e: e["i"])
    return out


# ------------------------------------------------------------------ plans
OK = "o" * 11
SIZES = (88, 96, 88, 200, 88, 5000, 120, 88, 20000, 91)


class Namer:
    """Concrete bindings, sizes and kinds for the operations of the abstract graph."""

    def __init__(self, seed, kind3):
        self.r, self.kind3, self.ud = random.Random(seed), kind3, 0

    def prep(self, p, i, one=True, k=None):
        self.ud += 1
        k = k if k is not None else self.r.choice((0, 0, 0, 1, 2) + ((3,) if self.kind3 and one else ()))
        s = self.r.choice((0, 1, 4, 5, 6) if k == 2 else range(7))
        return "%d:p%d,%d,%d,%d,%d" % (p, i, k, s, self.r.randrange(3), self.ud)

    def op(self, o, auto):
        k, p, i, b = o
        if k == "a":
            a = "%d:a%d,%d" % (p, i, self.r.choice(SIZES))
            return [a, self.prep(p, i)] if auto else [a]
        if k == "f":
            return ["%d:f%d" % (p, i)]
        if k == "p":
            return [self.prep(p, i)]
        if k == "o":
            return ["%d:o%d,%d" % (p, i, i % 4)] + ([self.prep(p, i, i % 4 == 0)] if auto else [])
        if k == "P":
            return [self.prep(p, i, i % 4 == 0)]
        if k == "r":
            return ["%d:r%d" % (p, i)]
        if k == "k":
            return ["%d:k%d" % (p, i)]
        raise vf.Die("op " + k)


def graph(chk, procs, ids, own, tabs, n, binds, impl=True):
    """Model-check ClosuresImpl within bounds; returns its transition graph."""
    s = lambda k, b=0: "{%s}" % ",".join(str(x + b) for x in range(k))
    cfg = ("SPECIFICATION Spec\nVIEW View\nINVARIANTS Isolated Backed Bounded Reclaimed\nPROPERTY Implements\nCHECK_DEADLOCK FALSE\n"
           "ACTION_CONSTRAINT Emit\nCONSTANTS Procs=%s Ids=%s Own=%s Tabs=%s N=%d Binds=%s Bug=\"none\" Faults=FALSE\n"
           % (s(procs), s(ids, 1), s(own, 2000), s(tabs, 1), n, s(binds, 1)))
    t = vf.tlc("ClosuresImpl", cfg, timeout=850, heap="6g")
    chk.model(t)
    g = {}
    for a, o, b in vf.tagged(t, "E"):
        g.setdefault(a, []).append((tuple(o), b))
    init = next(a for a in (x[0] for x in vf.tagged(t, "E")))
    return init, g


def controls(chk):
    """The model checker must find the planted faults of the model."""
    cfg = ("SPECIFICATION Spec\nVIEW View\nINVARIANTS Isolated Backed Bounded Reclaimed\nPROPERTY Implements\nCHECK_DEADLOCK FALSE\n"
           "CONSTANTS Procs={0} Ids={1,2,3,4} Own={} Tabs={1,2,3,4} N=2 Binds={} Bug=\"%s\" Faults=TRUE\n")
    for b in ("keep", "drop", "share"):
        if vf.tlc("ClosuresImpl", cfg % b, need_ok=False).ok:
            raise vf.Die("ClosuresImpl with Bug=%s passes" % b)
    chk.model(vf.tlc("ClosuresImpl", cfg % "none"))
    chk.add("negative_controls", 3)


def tours(init, g, maxlen, seed):
    """Walks from the initial state that together take every transition."""
    r = random.Random(seed)
    todo = {a: list(range(len(es))) for a, es in g.items()}
    for v in todo.values():
        r.shuffle(v)
    left = sum(len(v) for v in todo.values())
    out = []
    tree, order = {init: None}, [init]
    for x in order:
        for o, y in g.get(x, ()):
            if y not in tree:
                tree[y] = (x, o)
                order.append(y)
    nxt = 0
    while left:
        # go straight to a state with something left to take
        while not todo.get(order[nxt]):
            nxt += 1
        s, walk = order[nxt], []
        x = s
        while tree[x]:
            x, o = tree[x]
            walk.append(o)
        walk.reverse()
        while len(walk) < maxlen:
            if todo.get(s):
                o, s = g[s][todo[s].pop()]
                left -= 1
                walk.append(o)
                continue
            # the nearest other one
            seen, q, hit = {s: None}, [s], None
            for x in q:
                if todo.get(x):
                    hit = x
                    break
                for o, y in g.get(x, ()):
                    if y not in seen:
                        seen[y] = (x, o)
                        q.append(y)
                if len(q) > 2000:
                    break
            if hit is None:
                break
            back, s = [], hit
            while seen[hit]:
                hit, o = seen[hit]
                back.append(o)
            walk += reversed(back)
        out.append(walk)
    return out


def tour_plans(init, g, slots, mode, cand, auto, seed, kind3, maxlen=60, probes=0):
    res = []
    for k, w in enumerate(tours(init, g, maxlen, seed)):
        nm = Namer(seed * 100003 + k, kind3)
        ops = [x for o in w for x in nm.op(o, auto)]
        res.append("%d %d %s %d %s" % (slots, mode, cand, probes, " ".join(ops)))
    return res


def rand_plans(chk, slots, mode, cand, kind3, nhist, length, peak, half, own=0, nproc=1, faulty=False, sizes="mixed", probes=4, seed=None):
    jvms = min(3, nhist)
    per = (nhist + jvms - 1) // jvms
    cfg = ("SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS NHist=%d Len1=%d Peak=%d Half=%d NOwn=%d NProc=%d Faulty=%s "
           "Sizes=\"%s\" Kinds3=%s\n" % (per, length, peak, half, own, nproc, str(faulty).upper(), sizes, str(kind3).upper()))
    base = vf.SEED * 1000 if seed is None else seed * 1000
    with ThreadPoolExecutor(jvms) as ex:
        ts = list(ex.map(lambda k: vf.tlc("ClosRand", cfg, seed=base + k, timeout=800), range(jvms)))
    res = []
    for t in ts:
        chk.model(t)
        for h in vf.tagged(t, "H"):
            ops = []
            for o in h:
                if o["o"] == "x":
                    ops.append("%d:x%s" % (o["p"], ",".join(str(v) for v in o["v"])))
                else:
                    ops.append("%d:%s%s" % (o["p"], o["o"], ",".join(str(v) for v in o["v"])))
            res.append("%d %d %s %d %s" % (slots, mode, cand, probes, " ".join(ops)))
    return res


# ------------------------------------------------------------------ judging
CFG = "SPECIFICATION Spec\nINVARIANT Report\nCHECK_DEADLOCK FALSE\nPOSTCONDITION Consumed\n"


def judge(chk, prog, plans, what, **kw):
    """Queues histories; plans may be a function that makes them."""
    if not hasattr(chk, "queue"):
        chk.queue = []
    chk.queue.append((prog, plans, what, kw))


def flush(chk):
    """Replays everything queued and lets TLC judge what was recorded."""
    def one(q):
        prog, plans, what, kw = q
        return collect(chk, prog, plans() if callable(plans) else plans, what, **kw)
    queue, chk.queue = chk.queue, []
    with ThreadPoolExecutor(vf.CPUS) as ex:
        recs = [e for es in ex.map(one, queue) for e in es]
    for k, e in enumerate(recs):
        e["i"] = k
    by = recs
    slim = [{k: v for k, v in e.items() if k not in ("plan", "what")} for e in recs]
    slim.sort(key=lambda e: -len(e["ev"]))
    rej, states = vf.validate("ClosTrace", CFG, slim, timeout=850, heap="3g", chunks=vf.CPUS)
    chk.states += states
    chk.validated += len(recs)
    for r in rej:
        mine = sorted(w for w in r["why"] if os.environ.get("VF_ALL") or w.startswith(chk.prop + ":"))
        if mine:
            e = by[r["i"]]
            chk.violation("%s %s history %s" % (" ".join(mine), e["what"], e["plan"][:400]),
                          {"what": e["what"], "why": r["why"], "plan": e["plan"], "seen": e["ev"][-4:], "lib": e["lib"]})


def collect(chk, prog, plans, what, lib="", soiled=False, nofail=False, env=None):
    if not plans:
        return []
    recs = replay(prog, plans, chunks=min(3, max(1, len(plans) // 4)), env=env)
    if len(recs) != len(plans):
        raise vf.Die("driver answered %d of %d histories" % (len(recs), len(plans)))
    for e in recs:
        pl = plans[e["i"]]
        e["plan"], e["what"] = pl, what
        e["cs"] = list(pl.split()[2].replace("S", "o"))
        e["probes"] = int(pl.split()[3])
        e["lib"], e["soiled"], e["nofail"] = lib, soiled or ":d" in pl, nofail
        e["faulty"] = ":x" in pl or ":d" in pl
        e["prop"] = chk.prop
    chk.add("operations", sum(len(e["ev"]) for e in recs))
    chk.add("histories_" + what.split("/")[0], len(recs))
    chk.sample({"plan": plans[0][:300], "seen": recs[0]["ev"][:2]})
    return recs


STATIC, DYN = "static", "dynamic"


def progs(names):
    """name -> driver; built in parallel"""
    how = {"static": dict(static=True), "dynamic": dict(static=False), "static0": dict(static=True, opt="-O0"),
           "nocet": dict(static=True, extra=["-fcf-protection=none"]), "clang": dict(static=True, cc="clang", opt="-O3"),
           "dynclang": dict(static=False, cc="clang", opt="-O1")}
    with ThreadPoolExecutor(len(names)) as ex:
        ps = list(ex.map(lambda n: build(n, **how[n]), names))
    return dict(zip(names, ps))


# ------------------------------------------------------------------ failures
def shortest(init, g):
    """The shortest walk to every state of the graph."""
    seen, q = {init: []}, [init]
    for x in q:
        for o, y in g.get(x, ()):
            if y not in seen:
                seen[y] = seen[x] + [o]
                q.append(y)
    return list(seen.values())


def fault_plans(chk, prog, slots, mode, cand, prefixes, deep, pre="", kind3=False):
    """Histories in which the system calls of one allocation fail: each one
    alone, everything from each one on, and sampled pairs, in every way."""
    r = random.Random(vf.SEED * 7 + slots + mode)
    heads = []
    for k, w in enumerate(prefixes):
        nm = Namer(k, kind3)
        ops = [x for o in w for x in nm.op(o, True)]
        live = set()
        for o in w:
            live = live | {o[2]} if o[0] == "a" else live - {o[2]}
        for size in (88, 30000):
            heads.append((ops, sorted(live), size))
    line = lambda ops: "%d %d %s 0 %s" % (slots, mode, cand, " ".join(([pre] if pre else []) + ops))
    base = replay(prog, [line(ops + ["0:a50,%d" % size]) for ops, _, size in heads])
    out = []
    for e, (ops, live, size) in zip(base, heads):
        nc = e["ev"][-1].get("nc", 0)
        fs = []
        for i in range(nc + 3):
            for c in "-pas":
                fs.append("0:x%d,999,999,%s" % (i, c))
            fs.append("0:x999,999,%d,%s" % (i, r.choice("-pas")))
        for _ in range(nc * (4 if deep else 1)):
            fs.append("0:x%d,%d,999,%s" % (r.randrange(nc + 1), r.randrange(nc + 6), r.choice("-pas")))
        nm = Namer(len(out), kind3)
        for f in fs:
            rep = r.choice((1, 1, 2, 6))
            t = list(ops)
            ids = range(50, 50 + rep)
            for i in ids:
                t += [f, "0:a%d,%d" % (i, size)]
            for i in ids:
                t += ["0:A%d,%d" % (i, size), nm.prep(0, i)]
            t += ["0:a60,88", nm.prep(0, 60), "0:q"] + ["0:f%d" % i for i in [60] + list(ids) + live] + ["0:q", "0:a61,88", nm.prep(0, 61), "0:f61"]
            out.append(line(t))
    return out


def deny_plans(slots, mode, cand, prefixes, kind3=False):
    """Kinds of system calls that fail for a while."""
    kinds = "MEOPAWRKNST"
    sets = list(kinds) + [a + b for a in kinds for b in kinds if a < b]
    out = []
    for k, w in enumerate(prefixes):
        for j, d in enumerate(sets):
            nm = Namer(k * 100 + j, kind3)
            t = [x for o in w for x in nm.op(o, True)]
            t.append("0:d" + d)
            for i in range(40, 46):
                t.append("0:a%d,%d" % (i, 88 if i % 2 else 20000))
            t += ["0:f41", "0:a46,88", "0:d-"]
            for i in range(40, 47):
                t += ["0:A%d,%d" % (i, 88 if i % 2 else 20000), nm.prep(0, i)]
            t += ["0:q"] + ["0:f%d" % i for i in range(40, 47)] + ["0:q"]
            out.append("%d %d %s 0 %s" % (slots, mode, cand, " ".join(t)))
    return out


# ------------------------------------------------------------------ backing files
def back_model(chk, deep):
    base = ("SPECIFICATION Spec\nINVARIANTS Found GaveUp Order Closed\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n"
            "CONSTANTS NSingle=%d NEnt=%d Classes={\"w\",\"n\",\"b\"} Bug=\"%s\"\n")
    chk.model(vf.tlc("Backing", base % ((7, 2, "none") if deep else (4, 2, "none")), workers=vf.CPUS, timeout=800, heap="6g"))
    for b in ("skip", "again", "give"):
        if vf.tlc("Backing", base % (3, 1, b), need_ok=False).ok:
            raise vf.Die("Backing with Bug=%s passes" % b)
    chk.add("negative_controls", 3)


def back_vectors(chk, deep):
    t = vf.tlc("BackGen", "SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS Pairs=TRUE Later=%s\n" % str(deep).upper())
    chk.model(t)
    return sorted("".join(c) for c in vf.tagged(t, "C"))


def first_working(c):
    return next((k for k, x in enumerate(c) if x in "ot"), -1)


def back_plans(vs, mode, seed):
    """One history per situation; afterwards the situation changes."""
    r = random.Random(seed)
    out = []
    for n, c in enumerate(vs):
        nm = Namer(seed * 77 + n, False)
        w = first_working(c)
        t = ["0:a1,88", "0:a2,5000"]
        if w >= 0:
            t += [nm.prep(0, 1), nm.prep(0, 2)]
            others = [k for k in range(11) if k != w]
            h = r.randrange(4)
            L = "abcdefghijk"
            for k in r.sample(others, 3):       # what becomes of the others does not matter
                t.append("0:s%s%s" % (L[k], r.choice("ofxu")))
            if h == 0:          # the file fills up, then there is room again
                t += ["0:s%su" % L[w], "0:a3,70000", "0:a4,88", "0:s%so" % L[w], "0:A3,70000", "0:A4,88", nm.prep(0, 3)]
            elif h == 1:        # the directory goes away: the open file is kept
                t += ["0:s%s%s" % (L[w], "a" if w else "f"), "0:a3,70000", "0:s%so" % L[w], "0:A3,70000", nm.prep(0, 3), "0:a4,88"]
            elif h == 2:
                t += ["0:s%sx" % L[w], "0:a3,90000", "0:s%so" % L[w], "0:A3,90000", nm.prep(0, 3), "0:a4,150000", nm.prep(0, 4)]
            else:
                t += ["0:a3,70000", "0:f1", "0:a4,140000", "0:f3", "0:a1,88", nm.prep(0, 4), nm.prep(0, 1)]
        else:
            k = r.choice(range(7))
            t += ["0:a3,70000", "0:s%so" % "abcdefghijk"[k], "0:a1,88", nm.prep(0, 1), "0:a3,70000", nm.prep(0, 3)]
        t += ["0:q"] + ["0:f%d" % i for i in (1, 2, 3, 4)] + ["0:a1,88", nm.prep(0, 1), "0:f1", "0:q"]
        out.append("2 %d %s 0 %s" % (mode, c, " ".join(t)))
    return out


NOTMP = "t" * 11
MIX = ("attooooooof"[:10] + "o", "aaaaaaannto", "xxxxxxxxxxo", "fUUXXTarnwt", "uoooooooooo", "ataaaaaaaaa")


def check(chk, deep):
    {"C15": c15, "C16": c16, "C17": c17, "C18": c18, "C19": c19, "C20": c20, "C22": c22, "C23": c23, "C24": c24}[chk.prop](chk, deep)
    flush(chk)
    chk.assumptions += ["the operating system is the one harness/vf_wrap.c presents; TLC, gcc/clang and objcopy are trusted"]


def c15(chk, deep):
    controls(chk)
    P = progs(["static", "dynamic"] + (["static0", "nocet", "clang", "dynclang"] if deep else ["clang"]))
    sd = vf.SEED
    g = graph(chk, 1, 4, 0, 4, 2, 1)
    for st, m in (("static", 0), ("dynamic", 0), ("dynamic", 1)) + ((("dynamic", 2), ("dynamic", 3), ("dynamic", 4), ("static", 5), ("static", 6)) if deep else ()):
        auto = m != 0
        judge(chk, P[st], tour_plans(*g, 2, m, OK, auto, sd + m, st == "static" or m == 0), "tour/%s%d" % (st, m))
    if deep:
        g = graph(chk, 1, 5, 0, 5, 2, 0)
        judge(chk, P["static"], tour_plans(*g, 2, 0, OK, True, sd, True), "tour5/static")
        g = graph(chk, 1, 6, 0, 3, 3, 0)
        judge(chk, P["clang"], tour_plans(*g, 3, 0, OK, True, sd, True), "tour6/clang")
    n = 8 if not deep else 40
    for st, m in ([("static", 0), ("dynamic", 0), ("dynamic", 1)] + ([("static0", 0), ("nocet", 0), ("clang", 0), ("dynclang", 0), ("dynclang", 2)] if deep else [("clang", 0)])):
        k3 = "dyn" not in st or m == 0
        for slots, peak in ((0, 300), (3, 30)):
            judge(chk, P[st], partial(rand_plans, chk, slots, m, OK, k3, n, 600, peak, peak * 2, own=6, seed=sd + slots + m), "rand/%s%d" % (st, m))


def c16(chk, deep):
    controls(chk)
    P = progs(["static", "dynamic"] + (["nocet", "clang"] if deep else []))
    sd = vf.SEED + 10
    for ids, n in ((5, 2), (6, 3)) if deep else ((5, 2),):
        g = graph(chk, 1, ids, 0, (ids + n - 1) // n + 1, n, 0)
        ps = tour_plans(*g, n, 0, OK, True, sd, True)
        judge(chk, P["static"], ps if deep else random.Random(sd).sample(ps, 1500), "tour/static")
        if deep:
            judge(chk, P["static"], tour_plans(*g, n, 5, OK, True, sd, True), "tour/static5")
    g = graph(chk, 1, 4, 0, 4, 2, 0)
    for st, m in (("static", 0), ("dynamic", 0), ("dynamic", 1)):
        judge(chk, P[st], tour_plans(*g, 2, m, OK, True, sd, m == 0), "tour/%s%d" % (st, m))
    k = 4 if deep else 1
    for st, slots, m, peak, half, ln in (("static", 0, 0, 240, 500, 1500), ("static", 3, 0, 25, 50, 2000), ("static", 1, 5, 12, 25, 1500),
                                        ("dynamic", 0, 0, 150, 300, 1500), ("dynamic", 0, 1, 60, 120, 2000), ("dynamic", 0, 2, 8, 30, 2000)):
        judge(chk, P[st], partial(rand_plans, chk, slots, m, OK, True, 8 * k, ln, peak, half, probes=1, seed=sd + peak), "rand/%s%d" % (st, m))
    if deep:
        for st in ("nocet", "clang"):
            judge(chk, P[st], partial(rand_plans, chk, 0, 0, OK, True, 16, 4000, 500, 1100, probes=1, seed=sd), "rand/%s" % st)


def c17(chk, deep):
    controls(chk)
    P = progs(["static", "dynamic"] + (["static0", "clang", "dynclang"] if deep else []))
    sd = vf.SEED + 20
    g = graph(chk, 1, 4, 0, 4, 2, 0)
    for st, m in (("static", 0), ("static", 1), ("static", 5), ("static", 6), ("dynamic", 1), ("dynamic", 2), ("dynamic", 3), ("dynamic", 4)):
        judge(chk, P[st], tour_plans(*g, 2, m, OK, True, sd + m, st == "static" and m < 6), "tour/%s%d" % (st, m))
    for st, m in (("static", 0), ("static", 5), ("dynamic", 1), ("dynamic", 2)) + ((("clang", 0), ("static0", 0), ("dynclang", 3)) if deep else ()):
        judge(chk, P[st], partial(rand_plans, chk, 0, m, OK, st == "static", 16 if deep else 8, 700, 250, 300, own=6, seed=sd + m), "rand/%s%d" % (st, m))
    pre = shortest(*graph(chk, 1, 3, 0, 3, 2, 0))
    pre = [[]] + pre[1::(2 if deep else 9)]
    for st, m, c in (("static", 0, OK), ("static", 1, OK), ("static", 6, NOTMP), ("dynamic", 1, OK), ("dynamic", 2, MIX[0]), ("dynamic", 3, OK)):
        judge(chk, P[st], partial(fault_plans, chk, P[st], 2, m, c, pre[:12 if deep else 3], deep), "fault/%s%d" % (st, m))
    vs = back_vectors(chk, False)
    random.Random(sd).shuffle(vs)
    for st, m in (("static", 6), ("dynamic", 1), ("dynamic", 2)):
        judge(chk, P[st], back_plans(vs[:2000 if deep else 200], m, sd), "backing/%s%d" % (st, m))


FAULTS = (("static", 0, OK, ""), ("static", 1, OK, "0:dP"), ("static", 5, NOTMP, ""), ("dynamic", 0, OK, ""), ("dynamic", 1, OK, ""),
          ("dynamic", 2, MIX[0], ""), ("dynamic", 4, MIX[1], ""), ("dynamic", 3, MIX[3], ""))


def c18(chk, deep):
    controls(chk)
    P = progs(["static", "dynamic"] + (["clang", "dynclang"] if deep else []))
    pre = shortest(*graph(chk, 1, 3, 0, 3, 2, 0))
    pre = [[]] + pre[1::(1 if deep else 7)]
    for st, m, c, pr in FAULTS + ((("clang", 6, OK, ""), ("dynclang", 1, MIX[4], "")) if deep else ()):
        judge(chk, P[st], partial(fault_plans, chk, P[st], 2, m, c, pre[:25 if deep else 4], deep, pr), "fault/%s%d" % (st, m))
        judge(chk, P[st], deny_plans(2, m, c, pre[:12 if deep else 2]), "deny/%s%d" % (st, m))
    for st, m in (("static", 0), ("static", 5), ("dynamic", 0), ("dynamic", 1)):
        judge(chk, P[st], partial(rand_plans, chk, 2, m, OK, False, 24 if deep else 8, 500, 30, 60, own=2, faulty=True, seed=vf.SEED + 30 + m), "rand/%s%d" % (st, m))


def c19(chk, deep):
    back_model(chk, deep)
    P = progs(["static", "dynamic"])
    vs = back_vectors(chk, deep)
    r = random.Random(vf.SEED + 40)
    for st, m in (("dynamic", 1), ("static", 5), ("static", 6), ("dynamic", 2), ("dynamic", 3), ("dynamic", 4)):
        r.shuffle(vs)
        judge(chk, P[st], back_plans(vs if deep or m in (1, 6) else vs[:500], m, vf.SEED + m), "backing/%s%d" % (st, m))


def c20(chk, deep):
    controls(chk)
    P = progs(["static", "dynamic"])
    sd = vf.SEED + 50
    g = graph(chk, 1, 4, 0, 4, 2, 0)
    for st, m, c in (("static", 5, NOTMP), ("static", 0, OK), ("dynamic", 1, NOTMP), ("dynamic", 2, OK)):
        judge(chk, P[st], tour_plans(*g, 2, m, c, True, sd + m, False), "tour/%s%d" % (st, m))
    pre = shortest(*graph(chk, 1, 3, 0, 3, 2, 0))
    pre = [[]] + pre[1::(2 if deep else 9)]
    for st, m, c in (("static", 0, OK), ("static", 5, NOTMP), ("static", 6, MIX[3]), ("dynamic", 1, NOTMP), ("dynamic", 4, MIX[3]), ("dynamic", 2, MIX[1])):
        judge(chk, P[st], partial(fault_plans, chk, P[st], 2, m, c, pre[:12 if deep else 3], deep), "fault/%s%d" % (st, m))
        judge(chk, P[st], deny_plans(2, m, c, pre[:6 if deep else 1]), "deny/%s%d" % (st, m))
    vs = back_vectors(chk, False)
    random.Random(sd).shuffle(vs)
    for st, m in (("static", 5), ("static", 6), ("dynamic", 1)):
        judge(chk, P[st], back_plans(vs[:3000 if deep else 500], m, sd + m), "backing/%s%d" % (st, m))
    judge(chk, P["dynamic"], partial(rand_plans, chk, 2, 1, NOTMP, False, 24 if deep else 8, 500, 30, 60, faulty=True, seed=sd), "rand/dynamic1")


def c22(chk, deep):
    controls(chk)
    P = progs(["static"] + (["static0", "clang", "nocet"] if deep else []))
    sd = vf.SEED + 60
    for procs, ids, n, b in ((2, 2, 1, 2), (3, 2, 1, 0), (2, 3, 2, 0)) + (((2, 4, 2, 0), (3, 3, 2, 0)) if deep else ()):
        g = graph(chk, procs, ids, 0, ids, n, b)
        for m in (0, 5):
            judge(chk, P["static"], tour_plans(*g, n, m, OK, b == 0, sd, True, maxlen=40), "fork/%d%d%d" % (procs, ids, m))
    for st in P:
        for slots, peak in ((0, 150), (2, 12)):
            judge(chk, P[st], partial(rand_plans, chk, slots, 0, OK, True, 40 if deep else 16, 400, peak, 100, own=4, nproc=4, seed=sd + slots), "rand/" + st)


def c23(chk, deep):
    controls(chk)
    P = progs(["static", "dynamic"] + (["static0", "clang", "nocet", "dynclang"] if deep else []))
    sd = vf.SEED + 70
    g = graph(chk, 1, 2, 2, 2, 1, 2)
    for st, m in (("static", 0), ("static", 5), ("dynamic", 0), ("dynamic", 1), ("dynamic", 2)):
        judge(chk, P[st], tour_plans(*g, 1, m, OK, False, sd + m, st == "static" or m == 0), "own/%s%d" % (st, m))
    for st, m in [(s, m) for s in P for m in ((0,) if "dyn" not in s else (0, 1))]:
        judge(chk, P[st], partial(rand_plans, chk, 2, m, OK, st == "static" or m == 0, 24 if deep else 8, 500, 10, 60, own=24, seed=sd + m), "rand/%s%d" % (st, m))


# ------------------------------------------------------------------ library file
KINDS = "del same ud last mid short empty other dir link".split()


def c24(chk, deep):
    cfg = ("SPECIFICATION Spec\nINVARIANTS Safe %s\nCHECK_DEADLOCK FALSE\nCONSTANTS Kinds={%s} N=2 MaxOps=%d MaxRep=%d TmpWorks=%s Bug=\"%s\"\n")
    ks = ",".join('"%s"' % k for k in KINDS)
    for b in ("trust", "reopen", "head"):
        if vf.tlc("LibFile", cfg % ("", ks, 5, 2, "TRUE", b), need_ok=False).ok:
            raise vf.Die("LibFile with Bug=%s passes" % b)
    chk.add("negative_controls", 3)
    chk.model(vf.tlc("LibFile", cfg % ("", ks, 7 if deep else 6, 2, "FALSE", "none"), workers=vf.CPUS))
    t = vf.tlc("LibFile", cfg % ("Emit", ks, 7 if deep else 6, 2, "TRUE", "none"))
    chk.model(t)
    hs = sorted(set(tuple(h) for h in vf.tagged(t, "H")))
    r = random.Random(vf.SEED + 80)
    # histories where something happens after a replacement
    hs = [h for h in hs if any(k in KINDS for k in h) and h[-1] == "a"]
    one = [h for h in hs if sum(k in KINDS for k in h) == 1]
    two = [h for h in hs if sum(k in KINDS for k in h) == 2]
    if not deep:
        one, two = r.sample(one, min(700, len(one))), r.sample(two, 700)
    prog, env = build_dl()
    for mode, cand, soil in ((0, OK, False), (1, OK, False), (0, "S" + OK[1:], False), (2, NOTMP[:1].replace("t", "o") + NOTMP[1:], False),
                             (0, "x" * 11, True), (1, "xxxuuxxoooo", True), (0, "S" + "f" * 10, True), (1, "SaTTTTTTnnw", True)):
        ps = []
        for n, h in enumerate(one + two if (deep or mode == 0) else r.sample(one, 250) + r.sample(two, 250)):
            nm = Namer(n, False)
            ops, ids, live = [], 0, []
            for k in h:
                if k == "a":
                    ids += 1
                    live.append(ids)
                    ops += ["0:a%d,%d" % (ids, nm.r.choice(SIZES)), nm.prep(0, ids)]
                elif k == "f":
                    ops.append("0:f%d" % live.pop(nm.r.randrange(len(live))))
                else:
                    ops.append("0:L" + k)
            ps.append("%d %d %s 0 %s" % (nm.r.choice((1, 2, 2, 0)), mode, cand, " ".join(ops + ["0:q"] + ["0:f%d" % i for i in live] + ["0:q"])))
        judge(chk, prog, ps, "lib/%d%s" % (mode, cand), lib="changed", soiled=soil, nofail=True, env=env)
