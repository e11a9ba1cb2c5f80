"""Type descriptions: histories from the specification, replayed and validated."""
import json
from concurrent.futures import ThreadPoolExecutor
import vf

CFG = "SPECIFICATION Spec\nINVARIANT Report\nPOSTCONDITION Consumed\nCHECK_DEADLOCK FALSE\n"
ABI_ALL = 4294967295


def ref(r):
    return "#%d" % r["n"] if r["n"] else r["s"]


def line(i, w, qs):
    t = [i, len(w)]
    for nd in w:
        t += [-1] if nd["null"] else [len(nd["e"])] + [ref(r) for r in nd["e"]]
    t.append(len(qs))
    for q in qs:
        if q["op"] == "cif":
            t += ["C", q["abi"], q["fx"], ref(q["ret"]), len(q["args"])] + [ref(r) for r in q["args"]]
        elif q["op"] == "off":
            t += ["O", q["abi"], ref(q["ref"]), 1 if q["null"] else 0]
        else:
            t += ["K", q["abi"], q["kind"]]
    return " ".join(map(str, t)) + "\n"


def model(nodes, mem, scal, chained, forget=True, ops=2, need_ok=True):
    c = ('SPECIFICATION Spec\nCONSTANTS Scalars={%s} NNodes=%d MaxMem=%d Chained=%s Forget=%s MaxOps=%d\nVIEW View\n'
         'INVARIANTS HistoryFree LaidOK AcceptedLaid Emit\nCHECK_DEADLOCK FALSE\n') % (
        ",".join('"%s"' % s for s in scal), nodes, mem, "TRUE" if chained else "FALSE", "TRUE" if forget else "FALSE", ops)
    return vf.tlc("DescrModel", c, workers=2, heap="4g", timeout=850, need_ok=need_ok)


def rand(n, nodes, mem, hist, seed):
    return vf.tlc("DescrRand", "SPECIFICATION Spec\nCONSTANTS N=%d MaxNodes=%d MaxMem=%d HistLen=%d\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n" % (
        n, nodes, mem, hist), seed=seed, heap="3g")


def check(chk, deep):
    variants = ("default", "clang", "debug") if not deep else ("default", "clang", "o0", "o2dyn", "debug")
    import abi

    def bld(v):
        return vf.build_prog("descr-" + v, ["descr_driver.c"], vf.build_lib("d-" + v, **abi.VARIANTS[v]))
    if deep:
        gens = [lambda: model(2, 3, ("u8", "s16", "d", "ld"), False, ops=3), lambda: model(3, 2, ("u8", "d"), True, ops=3),
                lambda: model(3, 2, ("u8", "ld"), False, ops=1), lambda: model(4, 2, ("u8",), True, ops=2)] + \
               [lambda k=k: rand(2500, 14, 40, 25, vf.SEED * 100 + k) for k in range(4)]
    else:
        gens = [lambda: model(2, 2, ("u8", "s32", "ld"), False), lambda: model(3, 2, ("d",), True),
                lambda: rand(400, 12, 30, 20, vf.SEED), lambda: rand(40, 30, 300, 30, vf.SEED + 1)]
    with ThreadPoolExecutor(6) as ex:
        fb = {v: ex.submit(bld, v) for v in variants}
        fn = ex.submit(model, 2, 2, ("u8",), False, False, 2, False)
        fg = [ex.submit(g) for g in gens]
        progs = {v: f.result() for v, f in fb.items()}
        neg = fn.result()
        gs = [f.result() for f in fg]
    if "Invariant HistoryFree is violated" not in neg.raw and "Invariant LaidOK is violated" not in neg.raw:
        raise vf.Die("the model does not distinguish the keep-partial-layout defect")
    cases = []
    for t in gs:
        chk.model(t)
        pl = vf.tagged(t, "PLAN")
        if not pl:
            raise vf.Die("no histories generated")
        for p in pl:
            if max_size(p["w"]) > 20000000:
                continue
            for qs in p["qs"]:
                cases.append((p["w"], qs))
    chk.add("histories", len(cases))
    chk.add("requests", sum(len(q) for _, q in cases))
    chk.sample({"history": line(0, *cases[len(cases) // 2]).strip()[:500]})
    for v in variants:
        sub = dict(enumerate(cases if deep or v == "default" else cases[::5]))
        obs = drive(progs[v], sub)
        if len(obs) < len(sub) and not any("crash" in o for o in obs.values()):
            raise vf.Die("driver lost histories")
        ev = [dict(o, w=sub[i][0], q=sub[i][1]) for i, o in sorted(obs.items())]
        b = vf.run([progs[v], "-b"]).stdout.decode().splitlines()
        bi = [json.loads(x) for x in b]
        for x in bi:        # the specification's scalar table must be the compiler's
            if x["sz"] != x["csz"] or x["al"] != x["cal"]:
                chk.add("builtin_mismatch", 1)
        rej, st = vf.validate("DescrTrace", CFG, ev + bi)
        chk.validated += len(ev) + len(bi)
        chk.states += st
        chk.transitions += st
        mine = [r for r in rej if any(w.startswith(chk.prop + ":") for w in r["why"])]
        again = {r["i"]: sub[r["i"]] for r in mine[:60] if r["i"] >= 0}
        o2 = drive(progs[v], again) if again else {}
        rj2, _ = vf.validate("DescrTrace", CFG, [dict(o, w=sub[i][0], q=sub[i][1]) for i, o in sorted(o2.items())])
        ok2 = {r["i"] for r in rj2 if any(w.startswith(chk.prop + ":") for w in r["why"])}
        for r in mine:
            if r["i"] < 0 or r["i"] in ok2:
                why = sorted({w for w in r["why"] if w.startswith(chk.prop + ":")})
                ln = line(r["i"], *sub[r["i"]]) if r["i"] >= 0 else "builtin"
                chk.violation("%s variant=%s history=%s" % (" ".join(why), v, ln.strip()[:400]), {"line": ln, "why": r["why"][:20], "observed": obs.get(r["i"])})


def max_size(w):
    sz = []
    for nd in w:
        t = 0
        for r in nd["e"]:
            t += sz[r["n"] - 1] if r["n"] else 32
        sz.append(t)
    return max(sz) if sz else 0


def drive(prog, sub):
    ids = sorted(sub)
    n = min(vf.CPUS, max(1, len(ids) // 50))
    parts = [ids[i::n] for i in range(n)]

    def one(k):
        f = vf.path("plans", "d%d-%d" % (k, id(parts[k])))
        with open(f, "w") as h:
            for i in parts[k]:
                h.write(line(i, *sub[i]))
        r = vf.run([prog, f], timeout=600)
        return [json.loads(x) for x in r.stdout.decode().splitlines()]
    with ThreadPoolExecutor(n) as ex:
        return {o["i"]: o for os_ in ex.map(one, range(n)) for o in os_}
