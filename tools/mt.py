"""C21: closure management and calls from several threads."""
import hashlib, json, os, random
from concurrent.futures import ThreadPoolExecutor
import vf, life

MORE = "pthread_once pthread_mutex_trylock pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock pthread_spin_lock pthread_spin_trylock pthread_spin_unlock sched_yield memcpy memmove memset".split()


def build(name, static=True, cc="gcc", opt="-O2", extra=()):
    rd = life.redefs()
    rd.update({w: "vf_" + w for w in MORE})
    L = vf.build_lib(name, cc=cc, opt=opt, static_tramp=static, pic=False, redefine=rd, extra=list(extra), cextra=["-fsanitize=thread"])
    o = [x for x in L.objs if "tramp_c" in x][0]
    vf.run(["objcopy", "--redefine-sym", "ffi_tramp_arch=vf_tramp_arch", o])
    return vf.build_prog(name, ["mt_driver.c", "vf_wrap.c"], L, flags=["-fno-pie", "-no-pie", "-DVF_STATIC=%d" % static] + list(extra))


MC = """---- MODULE %s ----
EXTENDS ClosuresMT
P == %s
T == DOMAIN P
====
"""
MCFG = ("SPECIFICATION Spec\nINVARIANTS Isolated Backed Bounded Once Memory Held Quiet\nPROPERTY Implements\n"
        "CONSTANTS Threads<-T Progs<-P Tabs={%s} N=%d Blocks={%s} Bug=\"%s\"\n")
A, F = '<<"a",%d>>', '<<"f",%d>>'
TWO = '(1 :> <<<<"a",1>>,<<"f",1>>,<<"a",2>>>>) @@ (2 :> <<<<"a",3>>,<<"a",4>>,<<"f",3>>>>)'
THREE = '(1 :> <<<<"a",1>>,<<"f",1>>>>) @@ (2 :> <<<<"a",2>>,<<"f",2>>>>) @@ (3 :> <<<<"a",3>>,<<"a",4>>>>)'
FOUR = '(1 :> <<<<"a",1>>,<<"f",1>>,<<"a",2>>>>) @@ (2 :> <<<<"a",3>>,<<"f",3>>>>) @@ (3 :> <<<<"a",4>>,<<"a",5>>,<<"f",4>>>>) @@ (4 :> <<<<"a",6>>>>)'
BUGS = ("nolock", "split", "once", "early", "heap", "order")


def model(chk, progs, n, nb, bug="", workers=1):
    name = "MT%s" % abs(hash((progs, n, bug)))
    d = os.path.dirname(vf.path("spec", "x"))
    open("%s/%s.tla" % (d, name), "w").write(MC % (name, progs))
    t = vf.tlc(name, MCFG % (",".join(map(str, range(1, nb + 1))), n, ",".join(map(str, range(1, nb + 1))), bug), spec_dir=d,
               props=["-DTLA-Library=" + vf.SPEC], need_ok=False, workers=workers, timeout=800, heap="4g")
    if not bug and not t.ok:
        raise vf.Die("ClosuresMT: " + t.raw[-3000:])
    if bug and not ("violated" in t.raw or "Deadlock" in t.raw):
        raise vf.Die("control %s of ClosuresMT went unnoticed: %s" % (bug, t.raw[-1500:]))
    return t


def replay(prog, plans):
    n = vf.CPUS

    def one(k):
        d = os.path.dirname(vf.path("scr", "%s-%d-%d" % (os.path.basename(prog), id(plans), k), "x"))
        inp = "".join("%d %s\n" % (i, plans[i]) for i in range(k, len(plans), n))
        r = vf.run([prog, d, str(k)], inp=inp.encode(), timeout=850)
        return [json.loads(x) for x in r.stdout.decode().splitlines()]
    with ThreadPoolExecutor(n) as ex:
        out = [e for rs in ex.map(one, range(n)) for e in rs]
    if len(out) != len(plans):
        raise vf.Die("mt driver answered %d of %d" % (len(out), len(plans)))
    out.sort(key=lambda e: e["i"])
    return out


CFG = "SPECIFICATION Spec\nINVARIANT Report\nCHECK_DEADLOCK FALSE\nPOSTCONDITION Consumed\n"


def batch(chk, deep, d, r, progs, built, jobs, nb, seen):
    # the same one after the other: the points there are, and what sequential orders leave behind
    plans = {bi: [] for bi in range(len(built))}
    for j in jobs:
        orders = ["-"] + ["0.0.0.%d" % u for u in range(1, j[1])]
        for o in orders:
            plans[j[0]].append((j, o))
    cnts, base, seqs = {}, {}, []
    for bi, ps in plans.items():
        out = replay(built[bi], ["%d %d 0 %s %s" % (j[2], j[3], o, j[4].lstrip()) for j, o in ps])
        for (j, o), e in zip(ps, out):
            c = cnts.setdefault(j, [[0, 0, 0] for _ in range(j[1])])
            for t in range(j[1]):
                c[t] = [max(x, y) for x, y in zip(c[t], e["cnt"][t])]
            b = base.setdefault(j, [0, 0])
            for z in e["ev"]:
                if z[0] == "z":
                    b[0] = max(b[0], z[3])
                    b[1] = max(b[1], z[5])
            seqs.append((j, o, e))
    jl = sorted(cnts)
    lim = (60, 40, 16, 6) if not deep else (400, 600, 200, 100)
    parts = [jl[k::vf.CPUS] for k in range(vf.CPUS)]

    def sched(k):
        f = "%s/counts%d" % (d, k)
        open(f, "w").write("".join(json.dumps({"i": x, "nt": j[1], "cnt": cnts[j]}) + "\n" for x, j in enumerate(parts[k])))
        t = vf.tlc("MtSched", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Max1=%d Max2=%d Max3=%d NTurn=%d\n" % lim,
                   env={"COUNTS": f}, seed=vf.SEED * 1000 + nb * 10 + k, heap="3g")
        return t, [(parts[k][x["i"]], s) for x in vf.tagged(t, "S") for s in x["s"]]
    with ThreadPoolExecutor(vf.CPUS) as ex:
        res = list(ex.map(sched, range(vf.CPUS)))
    todo = {bi: [] for bi in range(len(built))}
    for t, xs in res:
        chk.model(t)
        for j, s in xs:
            todo[j[0]].append((j, s, r.randint(0, 1)))
    uniq, nrun = [], 0

    def note(j, s, h, e):
        e.pop("cnt", None)
        key = hashlib.blake2b(json.dumps([j[0] != 1, base[j], e["ev"], e["done"], e["sig"]]).encode(), digest_size=12).digest()
        if key in seen:
            return
        seen.add(key)
        e.update(stat=int(j[0] != 1), fd=base[j][0], mb=base[j][1], j=j, s=s, h=h)
        uniq.append(e)
    for j, o, e in seqs:
        note(j, o, 0, e)
    for bi, ps in todo.items():
        out = replay(built[bi], ["%d %d %d %s %s" % (j[2], j[3], h, s, j[4].lstrip()) for j, s, h in ps])
        nrun += len(out)
        for (j, s, h), e in zip(ps, out):
            note(j, s, h, e)
    slim = []
    for k, e in enumerate(uniq):
        slim.append({"i": k, "done": e["done"], "sig": e["sig"], "stat": e["stat"], "fd": e["fd"], "mb": e["mb"], "ev": e["ev"]})
    rej, states = vf.validate("MtTrace", CFG, slim, timeout=850, heap="3g", chunks=vf.CPUS)
    chk.states += states
    chk.validated += nrun + len(seqs)
    chk.add("programs", len(jl))
    chk.add("schedules", nrun)
    chk.add("distinct_histories", len(uniq))
    if not nb:
        chk.sample({"program": jl[0][4], "schedule": todo[0][0][1] if todo[0] else "-"})
    for x in rej:
        e = uniq[x["i"]]
        chk.violation("%s: %s, slots %d, mode %d, schedule %s (handover %d): %s" % (x["why"], progs[e["j"][0]][0], e["j"][2], e["j"][3], e["s"], e["h"], e["j"][4]),
                      {"build": progs[e["j"][0]][0], "slots": e["j"][2], "mode": e["j"][3], "schedule": e["s"], "handover": e["h"], "program": e["j"][4], "events": e["ev"], "why": x["why"]})


def check(chk, deep):
    r = random.Random(vf.SEED)
    d = os.path.dirname(vf.path("mt", "x"))
    gcfg = "SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS NT=%d Kinds={%s} Pres={%s} Slots={%s} NRand=%d RLen=%d\n"
    q = lambda s: ",".join('"%s"' % x for x in s.split())
    KA, KB = "apcf apc aa f fa afaf call big mid ffi prep again", "apcf aa fa f call"
    gens = [(2, gcfg % (2, q(KA), "0,1,3", "2", 8 if not deep else 60, 12)), (2, gcfg % (2, q("apcf aa fa"), "0,4", "1", 8 if not deep else 60, 20)),
            (3, gcfg % (3, q(KB), "0,4", "2", 12 if not deep else 80, 10))] + ([(4, gcfg % (4, q("apcf f fa"), "0,5", "2", 40, 8))] if deep else [])
    progs = [("mt", dict()), ("mtdyn", dict(static=False))] + ([("mtclang", dict(cc="clang", opt="-O1")), ("mt0", dict(opt="-O0"))] if deep else [])
    with ThreadPoolExecutor(vf.CPUS) as ex:
        fp = [ex.submit(lambda a: build(a[0], **a[1]), a) for a in progs]
        fg = [ex.submit(lambda a: vf.tlc("MtGen", a[1], seed=vf.SEED), g) for g in gens]
        fm = [ex.submit(model, chk, TWO, 2, 4), ex.submit(model, chk, THREE, 2, 4), ex.submit(model, chk, TWO, 1, 4)]
        fb = [ex.submit(model, chk, TWO, 2, 4, b) for b in BUGS]
        built = [f.result() for f in fp]
        scen = []
        for g, f in zip(gens, fg):
            t = f.result()
            chk.model(t)
            scen += [(g[0], s["sl"], s["p"]) for s in vf.tagged(t, "P")]
        for f in fm:
            chk.model(f.result())
        for f in fb:
            f.result()
        chk.add("controls", len(fb))
    if deep:
        for n in (1, 2):
            chk.model(model(chk, FOUR, n, 6, workers=vf.CPUS))
    # which program under which build and restrictions
    jobs = []
    for k, (nt, sl, p) in enumerate(scen):
        for bi in range(len(built)):
            for mode in (0, 1, 3):
                if deep or nt == 2 and (mode == 0 or r.random() < .2) or nt == 3 and r.random() < (.25 if mode == 0 else .05):
                    jobs.append((bi, nt, sl, mode, p))
    cap, size = (2400, 120) if deep else (420, 420)
    if len(jobs) > cap:
        jobs = r.sample(jobs, cap)
    seen = set()
    for k in range(0, len(jobs), size):
        batch(chk, deep, d, r, progs, built, jobs[k:k + size], k // size, seen)
    chk.assumptions += ["sequential consistency; points are locks, system calls and compiler-instrumented memory accesses", "TLC, the scheduler in harness/mt_driver.c and the recording wrappers are trusted"]
