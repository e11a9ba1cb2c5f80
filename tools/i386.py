"""32-bit x86: calls and closures, decided by the I386 specification."""
import json, os
from concurrent.futures import ThreadPoolExecutor
import vf, abi

SRC = ["src/prep_cif.c", "src/types.c", "src/raw_api.c", "src/java_raw_api.c", "src/closures.c", "src/tramp.c",
       "src/x86/ffi.c", "src/x86/sysv.S"]
CONF = (("#define SIZEOF_SIZE_T 8", "#define SIZEOF_SIZE_T 4"), ("#define SIZEOF_LONG_DOUBLE 16", "#define SIZEOF_LONG_DOUBLE 12"))
LIBC = ["/usr/lib32/libc.so.6", "/usr/lib32/libpthread.so.0"]
VARIANTS = {
    "o2": dict(opt="-O2", pic=False),
    "o2dyn": dict(opt="-O2", pic=False, static_tramp=False),
    "pic0": dict(opt="-O0"),
    "nocet": dict(opt="-O3", pic=False, extra=["-fcf-protection=none"]),
    "clang": dict(cc="clang", opt="-O2", pic=False, static_tramp=False, extra=["-fno-integrated-as"]),
}
TRACE_CFG = abi.TRACE_CFG


def build(v):
    kw = dict(VARIANTS[v])
    stub = vf.path("inc32", "gnu", "stubs-32.h")
    open(stub, "w").write("")
    inc = ["-I" + os.path.dirname(os.path.dirname(stub)), "-I/usr/include/x86_64-linux-gnu"]
    ex = list(kw.pop("extra", [])) + ["-m32", "-msse2", "-fno-stack-protector"] + inc
    if kw.get("pic", True) is False:
        ex += ["-fno-pic"]
    L = vf.build_lib("i386-" + v, srcs=SRC, target="X86", config=CONF, extra=ex, **kw)
    out = vf.path("bin", "i386-" + v)
    vf.run(["gcc", "-m32", "-msse2", "-D_GNU_SOURCE", "-g", "-O1", "-w", "-fno-pic", "-no-pie", "-fno-stack-protector", "-fcf-protection=none",
            "-mstackrealign"] + inc + L.inc + ["-nostdlib", os.path.join(vf.HARN, "i386_driver.c"), os.path.join(vf.HARN, "i386_asm.S")] + L.objs
           + LIBC + ["/usr/lib32/libgcc_s.so.1"] * os.path.exists("/usr/lib32/libgcc_s.so.1")
           + ["-Wl,-dynamic-linker,/usr/lib32/ld-linux.so.2", "-o", out], timeout=200)
    return out


def available():
    return all(os.path.exists(x) for x in LIBC + ["/usr/lib32/ld-linux.so.2"])


def plan_line(i, p):
    f = [i, p["abi"], p["mode"], p["rm"], p["hr"], p["cr"], p["rsz"], p["ral"], p["x87"], p["stb"], p["pops"], p["rw"], len(p["args"]),
         abi.tystr(p["ret"])]
    for j, a in enumerate(p["args"]):
        f += [abi.tystr(a), p["sz"][j], p["al"][j], p["ro"][j] if p["ro"] else 0]
    return "\t".join(map(str, f)) + "\n"


def judge(plans, obs):
    return vf.validate("I386Trace", TRACE_CFG, [{"i": i, "p": plans[i], "o": obs[i]} for i in sorted(obs) if i in plans])


def gen(kind, mode, conv=None, **kw):
    if kind == "gen":
        c = ('SPECIFICATION Spec\nCONSTANTS Abi="%s" Mode="%s" MaxStack=%d MaxArgs=%d\nCONSTRAINT Bounded\nVIEW View\n'
             'INVARIANTS InRange Disjoint EmitCases EmitRets') % (conv, mode, kw.get("stack", 12), kw.get("maxargs", 8))
        t = vf.tlc("I386Gen", c + abi.INV, workers=2, timeout=800, heap="4g")
    else:
        c = 'SPECIFICATION Spec\nCONSTANTS N=%d MaxArgs=%d Mode="%s"\nINVARIANTS EmitCase' % (kw.get("n", 1500), kw.get("maxargs", 14), mode)
        t = vf.tlc("I386Rand", c + abi.INV, seed=kw.get("seed", vf.SEED), timeout=800)
    return abi.dedupe(vf.tagged(t, "PLAN")), t


def jobs(clo, deep):
    cs = ("sysv", "mscdecl", "stdcall", "thiscall", "fastcall")
    j = []
    for m in (("clo", "goclo") if clo else ("call", "go")):
        for c in cs:
            j.append(("gen", m, c, dict(stack=24 if deep else 12, maxargs=12 if deep else 8)))
        for s in range(6 if deep else 1):
            j.append(("rand", m, None, dict(n=4000 if deep else 1500, seed=vf.SEED + s, maxargs=14 if s < 3 else 60)))
    for c in (("sysv", "thiscall") if clo else cs):
        j.append(("gen", "rawclo" if clo else "raw", c, {}))
    j.append(("rand", "rawclo" if clo else "raw", None, dict(n=4000 if deep else 600)))
    return j


def check(chk, clo, deep):
    if not available():
        raise vf.Die("no 32-bit C library")
    vs = ["o2", "o2dyn", "pic0", "nocet", "clang"] if deep else ["o2", "pic0", "clang"]
    js = jobs(clo, deep)
    with ThreadPoolExecutor(max(1, vf.CPUS // 2)) as ex:
        fb = {v: ex.submit(build, v) for v in vs}
        fg = [ex.submit(gen, k, m, c, **kw) for k, m, c, kw in js]
        progs = {v: f.result() for v, f in fb.items()}
        gens = [f.result() for f in fg]
    sets = {}
    for (k, m, c, kw), (pl, t) in zip(js, gens):
        chk.model(t)
        if not pl:
            raise vf.Die("generator produced no case: %s %s %s" % (k, m, c))
        chk.add("cases_%s_%s" % (k, m), len(pl))
        chk.sample({"case": plan_line(0, pl[len(pl) // 2]).strip()[:400]})
        sets.setdefault(m, []).extend(pl)
    pre = chk.prop + ":"
    for m, pl in sorted(sets.items()):
        plans = dict(enumerate(pl))
        for v in vs:
            obs, toomany = abi.drive(progs[v], plans, line=plan_line)
            if len(obs) < len(plans) and not toomany:
                raise vf.Die("driver lost %d cases of %s/%s" % (len(plans) - len(obs), v, m))
            rej, st = judge(plans, obs)
            chk.validated += len(obs)
            chk.states += st
            chk.transitions += st
            mine = [r for r in rej if any(w.startswith(pre) for w in r["why"])][:40]
            again = {r["i"]: plans[r["i"]] for r in mine}
            ids = set()
            if again:
                rj, _ = judge(again, abi.drive(progs[v], again, line=plan_line)[0])
                ids = {r["i"] for r in rj}
            for r in mine:
                if r["i"] in ids:
                    p = plans[r["i"]]
                    why = sorted({w for w in r["why"] if w.startswith(pre)})
                    chk.violation("%s variant=%s mode=%s abi=%s ret=%s args=%s" % (
                        " ".join(why), v, m, p["abi"], abi.tystr(p["ret"])[:200], [abi.tystr(x)[:60] for x in p["args"]]),
                        {"variant": v, "plan": plan_line(r["i"], p), "case": p, "why": r["why"][:20], "observation": obs[r["i"]]})
