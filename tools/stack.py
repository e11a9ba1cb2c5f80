"""C11: nested and abandoned calls and callbacks."""
import json, random
from concurrent.futures import ThreadPoolExecutor
import vf

CFG = "SPECIFICATION Spec\nINVARIANT Report\nCHECK_DEADLOCK FALSE\nPOSTCONDITION Consumed\n"


def build(name, cc="gcc", opt="-O2", static=True, extra=(), cxx="g++"):
    L = vf.build_lib(name, cc=cc, opt=opt, static_tramp=static, pic=False, extra=list(extra))
    return vf.build_prog(name, ["stack_driver.cc"], L, cc=cxx, flags=["-O2", "-fno-pie", "-no-pie", "-std=gnu++17"] + list(extra))


def enc(s):
    o = []
    for x in s:
        o.append("E%d.%d.%d.%d" % (x["r"], x["s"], x["c"], x["f"]) if x["o"] == "E" else "R" if x["o"] == "R" else x["o"] + str(x["k"]))
    return " ".join(o)


def short(s):
    return [[x["o"], x["r"], x["s"], x["c"], x["f"]] if x["o"] == "E" else [x["o"]] if x["o"] == "R" else [x["o"], x["k"]] for x in s]


def run(prog, scripts):
    n = vf.CPUS

    def one(k):
        idx = range(k, len(scripts), n)
        inp = "".join("%d %d %s\n" % (i, scripts[i]["f"], enc(scripts[i]["s"])) for i in idx)
        r = vf.run([prog], inp=inp.encode(), timeout=800)
        return [json.loads(x) for x in r.stdout.decode().splitlines()]
    with ThreadPoolExecutor(n) as ex:
        out = [e for rs in ex.map(one, range(n)) for e in rs]
    if len(out) != len(scripts):
        raise vf.Die("stack driver answered %d of %d" % (len(out), len(scripts)))
    return out


def check(chk, deep):
    sd, r = vf.SEED, random.Random(vf.SEED)
    gens = []
    gcfg = ("SPECIFICATION Spec\nINVARIANTS Bottom Landed Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS RSet={%s} SigOf={%s} MaxLen=%d MaxDepth=%d Flag0={1,2} Fl={%s}\n")
    # every script within the bounds over representative routes
    for rs, sg, ln, dp, fl in (("0,3", "1", 4, 3, "0,1,2"), ("6,9,13", "2", 3, 2, "0,1,2"), ("1,3,5", "3", 3, 3, "0,1,2"), ("7,12,4", "0", 3, 3, "1,2")) + \
            ((("0,3,9", "1", 5, 4, "0,2"), ("4,6,13", "3", 4, 3, "0,1,2"), ("2,8,14,11", "0,2", 3, 3, "0,1,2")) if deep else ()):
        gens.append(("CallGen", gcfg % (rs, sg, ln, dp, fl), sd))
    mcfg = "SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS NRand=%d Len1=%d Depths<-D%d Deep=TRUE AllSigs=%s\n"
    for k in range(4):
        gens.append(("CallMoreI", mcfg % (40 if not deep else 400, 400 if k % 2 else 60, k, str(deep or k == 0).upper()), sd * 10 + k))
    d = vf.path("spec", "x").rsplit("/", 1)[0]
    open(d + "/CallMoreI.tla", "w").write(
        "---- MODULE CallMoreI ----\nEXTENDS CallMore\nD0 == <<3, 10>>\nD1 == <<40>>\nD2 == <<%d>>\nD3 == <<2, 5>>\n====\n" % (1500 if deep else 300))

    def gen(g):
        m, cfg, seed = g
        if m == "CallMoreI":
            return vf.tlc(m, cfg, seed=seed, spec_dir=d, props=["-DTLA-Library=" + vf.SPEC], timeout=600)
        return vf.tlc(m, cfg, seed=seed, timeout=600)
    names = [("stk", dict()), ("stkdyn", dict(static=False, opt="-O3")), ("stkclang", dict(cc="clang", opt="-O2"))]
    if deep:
        names += [("stk0", dict(opt="-O0")), ("stknocet", dict(extra=["-fcf-protection=none"])), ("stkclang0", dict(cc="clang", opt="-O1", static=False))]
    with ThreadPoolExecutor(vf.CPUS) as ex:
        fp = [ex.submit(lambda a: build(a[0], **a[1]), a) for a in names]
        ts = list(ex.map(gen, gens))
        progs = [f.result() for f in fp]
    exh, more = [], []
    for g, t in zip(gens, ts):
        chk.model(t)
        (more if g[0] == "CallMoreI" else exh).extend(vf.tagged(t, "S"))
    if not deep and len(exh) > 12000:
        exh = r.sample(exh, 12000)
    total = []
    for (name, _), prog in zip(names, progs):
        sc = exh + more if name == "stk" or deep else r.sample(exh, 2500) + more
        out = run(prog, sc)
        for e in out:
            s = sc[e["i"]]
            e["f"], e["s"], e["prog"] = s["f"], short(s["s"]), name
        total += out
    for k, e in enumerate(total):
        e["i"] = k
    slim = sorted(({k: v for k, v in e.items() if k != "prog"} for e in total), key=lambda e: -len(e["s"]))
    rej, states = vf.validate("CallTrace", CFG, slim, timeout=850, heap="3g", chunks=vf.CPUS)
    chk.states += states
    chk.validated += len(total)
    chk.add("scripts_bounded", len(exh))
    chk.add("scripts_pairs_deep_random", len(more))
    chk.add("activations", sum(sum(1 for x in e["s"] if x[0] == "E") for e in total))
    chk.sample({"script": total[0]["s"][:20], "seen": total[0]["ev"][:6]})
    for x in rej:
        e = total[x["i"]]
        chk.violation("%s at step %d (%s): want %s, saw %s; script %s" % (x["why"], x["at"], e["prog"], x["want"], x["got"], json.dumps(e["s"])[:300]),
                      {"prog": e["prog"], "flag0": e["f"], "script": e["s"], "seen": e["ev"], "reject": x})
    chk.assumptions += ["exceptions are thrown only through activations of the default ABI; TLC, gcc/g++ and the unwinder are trusted"]
