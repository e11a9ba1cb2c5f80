"""Calls and closures: plans from the specification, observations from the real
code, verdicts from the specification."""
import json, os, subprocess
from concurrent.futures import ThreadPoolExecutor
import vf

TRACE_CFG = "SPECIFICATION Spec\nINVARIANT Report\nPOSTCONDITION Consumed\nCHECK_DEADLOCK FALSE\n"


def tystr(t):
    if t["k"] == "un":
        return "[ %d %d %s ]" % (t["sz"], t["al"], tystr(t["e"][0]))
    return t["k"] if t["k"] != "st" else "{ " + " ".join(tystr(x) for x in t["e"]) + " }"


def plan_line(i, p):
    f = [i, p["abi"], p["mode"], p["fx"], p["rm"], p["rsz"], p["ral"], p["x87"], p["stb"], p["rw"], len(p["args"]), tystr(p["ret"])]
    for j, a in enumerate(p["args"]):
        f += [tystr(a), p["sz"][j], p["al"][j], p["br"][j], p["ro"][j] if p["ro"] else 0, p["ri"][j]]
    return "\t".join(map(str, f)) + "\n"


def drive(prog, plans, seed=None, timeout=600, env=None, line=None):
    """Run the driver over {id: plan}; returns {id: observation}."""
    ids = sorted(plans)
    n = min(vf.CPUS, max(1, len(ids) // 100))
    parts = [ids[i::n] for i in range(n)]

    def one(k):
        f = vf.path("plans", "p%d-%d-%d" % (os.getpid(), k, id(parts[k])))
        with open(f, "w") as h:
            for i in parts[k]:
                h.write((line or plan_line)(i, plans[i]))
        r = vf.run([prog, f, str(vf.SEED if seed is None else seed)], timeout=timeout, check=False, env=env)
        os.unlink(f)
        if r.returncode not in (0,):
            raise vf.Die("driver exit %d: %s" % (r.returncode, r.stderr[-2000:]))
        ds = []
        for ln in r.stdout.decode("latin1").splitlines():
            try:
                d = json.loads(ln)
            except ValueError:
                raise vf.Die("driver wrote: " + ln[:300])
            if d.get("i") == -1:
                d["i"] = parts[k][d["k"]]
            ds.append(d)
        return ds
    with ThreadPoolExecutor(n) as ex:
        outs = list(ex.map(one, range(n)))
    obs, toomany = {}, False
    for o in outs:
        for d in o:
            if "toomany" in d:
                toomany = True
            else:
                obs[d["i"]] = d
    return obs, toomany


def judge(plans, obs):
    ev = []
    for i in sorted(obs):
        if i in plans:
            ev.append({"i": i, "p": plans[i], "o": obs[i]})
    return vf.validate("AbiTrace", TRACE_CFG, ev)


def dedupe(items):
    seen, out = set(), []
    for it in items:
        k = json.dumps(it["key"])
        if k not in seen:
            seen.add(k)
            out.append(it["p"])
    return out


# ---------------------------------------------------------------- plans
INV = "\nCHECK_DEADLOCK FALSE\n"


def gen(kind, mode, ab, workers=2, **kw):
    """Run one generator of the specification; returns (plans, TlcResult)."""
    java = mode.startswith("jraw")
    seed = None
    if kind == "gen":
        c = ('SPECIFICATION Spec\nCONSTANTS MaxStack=%d MaxArgs=%d Universe="%s" Mode="%s" Abi="%s"\nCONSTRAINT Bounded\nVIEW View\n'
             'INVARIANTS InRange LastOK EmitCase') % (kw.get("stack", 16), kw.get("maxargs", 17 if ab == "unix64" else 6),
                                                     "java" if java else kw.get("uni", "narrow"), mode, ab)
        t = vf.tlc("AbiGen", c + INV, workers=workers, timeout=kw.get("timeout", 800), heap="4g")
    elif kind == "shape":
        kinds = kw.get("kinds", ("u8", "s16", "s32", "p", "f", "d", "ld"))
        c = ('SPECIFICATION Spec\nCONSTANTS Kinds={%s} MaxFields=%d Nest=%s Arrs={%s} Mode="%s" Abi="%s"\nINVARIANTS ShapeOK EmitCase'
             ) % (",".join('"%s"' % k for k in kinds), kw.get("fields", 3), "TRUE" if kw.get("nest", True) else "FALSE",
                  ",".join(map(str, kw.get("arrs", (4, 8, 9)))), mode, ab)
        t = vf.tlc("ShapeGen", c + INV, workers=workers, timeout=kw.get("timeout", 800), heap="4g")
    elif kind == "big":
        return gen("shape", mode, ab, workers, kinds=("u8", "d"), fields=2, nest=False, arrs=kw.get("arrs", (100, 255, 511)))
    elif kind == "rand":
        seed = kw.get("seed", vf.SEED)
        c = 'SPECIFICATION Spec\nCONSTANTS N=%d MaxArgs=%d Mode="%s" Abi="%s" Base="%s"\nINVARIANTS EmitCase' % (
            kw.get("n", 600), kw.get("maxargs", 14), mode, ab, "java" if java else kw.get("base", "all"))
        t = vf.tlc("RandGen", c + INV, workers=1, timeout=kw.get("timeout", 800), seed=seed)
    else:
        raise vf.Die("no generator " + kind)
    return dedupe(vf.tagged(t, "PLAN")), t


VARIANTS = {
    "default": dict(),
    "clang": dict(cc="clang", opt="-O2", extra=["-fcf-protection=none"], static_tramp=False),
    "o0": dict(opt="-O0", extra=["-fcf-protection=none"]),
    "o2dyn": dict(opt="-O2", static_tramp=False),
    "clang0": dict(cc="clang", opt="-O0"),
    "debug": dict(opt="-O1", extra=["-DFFI_DEBUG"], srcs=vf.LIB_SRC + ["src/debug.c"]),
}


def build(variant):
    L = vf.build_lib("abi-" + variant, **VARIANTS[variant])
    return vf.build_prog("abi-" + variant, ["abi_driver.c", "abi_asm.S"], L)


def check_abi(chk, jobs):
    """jobs: list of (kind, mode, abi, variants, kwargs).  Generates, drives, judges; reports reasons of chk.prop."""
    variants = sorted({v for j in jobs for v in j[3]})
    with ThreadPoolExecutor(max(1, vf.CPUS // 2)) as ex:
        fb = {v: ex.submit(build, v) for v in variants}
        fg = [ex.submit(gen, k, m, a, **kw) for k, m, a, vs, kw in jobs]
        progs = {v: f.result() for v, f in fb.items()}
        gens = [f.result() for f in fg]
    pre = chk.prop + ":"
    sets = {}
    for (k, m, a, vs, kw), (pl, t) in zip(jobs, gens):
        chk.model(t)
        if not pl:
            raise vf.Die("generator %s %s %s produced no case" % (k, m, a))
        chk.add("cases_%s_%s_%s" % (k, m, a), len(pl))
        chk.sample({"case": plan_line(0, pl[len(pl) // 2]).strip()[:600]})
        for v in vs:
            sets.setdefault((v, m, a), []).extend(pl)
    bad = []
    for (v, m, a), pl in sorted(sets.items()):
        plans = dict(enumerate(pl))
        obs, toomany = drive(progs[v], plans)
        rej, st = judge(plans, obs)
        chk.validated += len(obs)
        chk.states += st
        chk.transitions += st
        if toomany:
            chk.notes.append("too many crashes in %s/%s/%s" % (v, m, a))
        if len(obs) < len(plans) and not toomany:
            raise vf.Die("driver lost %d cases of %s/%s/%s" % (len(plans) - len(obs), v, m, a))
        mine = [r for r in rej if any(w.startswith(pre) for w in r["why"])]
        for r in mine[:40]:
            bad.append((v, m, a, plans, r, obs[r["i"]]))
    for v, m, a, plans, r, o in confirm(progs, bad, pre):
        why = sorted({w for w in r["why"] if w.startswith(pre)})
        chk.violation("%s variant=%s mode=%s abi=%s ret=%s args=%s" % (
            " ".join(why), v, m, a, tystr(plans[r["i"]]["ret"])[:200], [tystr(x)[:60] for x in plans[r["i"]]["args"]]),
            {"variant": v, "plan": plan_line(r["i"], plans[r["i"]]), "case": plans[r["i"]], "why": r["why"][:20], "observation": o})


def confirm(progs, bad, pre):
    """A rejection counts only if the real code repeats it: alone, or failing that in the whole sequence."""
    out = []
    by = {}
    for b in bad:
        by.setdefault(b[:3], []).append(b)
    for (v, m, a), bs in by.items():
        plans = bs[0][3]
        again = {b[4]["i"]: plans[b[4]["i"]] for b in bs}
        rej, _ = judge(again, drive(progs[v], again)[0])
        ids = {r["i"] for r in rej if any(w.startswith(pre) for w in r["why"])}
        if not ids:
            rej, _ = judge(plans, drive(progs[v], plans)[0])
            ids = {r["i"] for r in rej if any(w.startswith(pre) for w in r["why"])}
        got = [b for b in bs if b[4]["i"] in ids]
        if not got and bs:
            print("  note: %d rejections of %s did not repeat" % (len(bs), (v, m, a)))
        out += got
    return out
