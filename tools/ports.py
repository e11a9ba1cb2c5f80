"""Other processors, interpreted: calls and closures decided by the Ports specification."""
import json, os, shutil
from concurrent.futures import ThreadPoolExecutor
import vf, abi

PDIR = os.path.join(vf.HARN, "port")
ARCH = {
    "a64": dict(triple="aarch64-linux-gnu", dir="aarch64", target="AARCH64", defs=["-DVF_HAVE_WIN64"], emu="emu_a64.c", static=True,
                conf=()),
    "rv64": dict(triple="riscv64-linux-gnu", dir="riscv", target="RISCV", defs=["-D__riscv"], emu="emu_rv64.c", static=False,
                 flags=["-march=rv64imafd_zicsr_zifencei", "-mabi=lp64d", "-mno-relax"], conf=()),
    "la64": dict(triple="loongarch64-linux-gnu", dir="loongarch64", target="LOONGARCH64",
                 defs=["-D__loongarch__", "-D__loongarch64", "-D__loongarch_double_float"], emu="emu_la64.c", static=True,
                 flags=["-mabi=lp64d", "-mno-relax"], conf=()),
}
VARIANTS = {
    "o2": ["-O2"], "o0": ["-O0"], "os": ["-Os", "-fPIC"],
    "pac": ["-O1", "-mbranch-protection=standard"],
}


def build(arch, variant):
    a = ARCH[arch]
    name = "port-%s-%s" % (arch, variant)
    d = os.path.dirname(vf.path("lib-" + name, "x"))
    inc = vf.headers(d, a["static"], a["target"], a["conf"])
    shutil.copy(os.path.join(vf.REPO, "src", a["dir"], "ffitarget.h"), os.path.join(d, "include"))
    srcs = ["src/prep_cif.c", "src/types.c", "src/raw_api.c", "src/java_raw_api.c", "src/%s/ffi.c" % a["dir"], "src/%s/sysv.S" % a["dir"]]
    fl = ["clang", "--target=" + a["triple"], "-ffreestanding", "-nostdlibinc", "-I" + os.path.join(PDIR, "include"), "-DHAVE_CONFIG_H", "-w",
          "-fno-stack-protector", "-fno-vectorize", "-fno-slp-vectorize", "-ffast-math", "-fomit-frame-pointer"] + a.get("flags", []) + inc + VARIANTS[variant]
    objs = []
    for s in srcs + [os.path.join(PDIR, "rt.c")]:
        o = os.path.join(d, os.path.basename(s).replace(".", "_") + ".o")
        vf.run(fl + ["-c", os.path.join(vf.REPO, s), "-o", o], timeout=200)
        objs.append(o)
    out = vf.path("bin", name)
    vf.run(["ld.lld", "-static", "--image-base=0x60000000", "-e", "0", "--no-relax"] + objs + ["-o", out + ".img"], timeout=100)
    vf.run(["gcc", "-D_GNU_SOURCE", "-g", "-O2", "-w", "-fno-strict-aliasing"] + a["defs"] + ["-DVF_BTI"] * (variant == "pac") + inc + ["-I" + PDIR, os.path.join(PDIR, "port_driver.c"), os.path.join(PDIR, a["emu"]), "-o", out], timeout=200)
    return out


def plan_line(i, p):
    f = [i, p["abi"], p["mode"], p["fx"], p["rm"], p["rsz"], p["ral"], p["stb"], len(p["args"]), abi.tystr(p["ret"])]
    for j, a in enumerate(p["args"]):
        f += [abi.tystr(a), p["sz"][j], p["al"][j], p["ref"][j]]
    return "\t".join(map(str, f)) + "\n"


def judge(arch, props, plans, obs):
    cfg = 'SPECIFICATION Spec\nCONSTANTS Arch="%s" PCall="%s" PClo="%s"\nINVARIANT Report\nPOSTCONDITION Consumed\nCHECK_DEADLOCK FALSE\n' % ((arch,) + props)
    return vf.validate("PortTrace", cfg, [{"i": i, "p": plans[i], "o": obs[i]} for i in sorted(obs) if i in plans])


def gen(arch, kind, mode, ab="sysv", **kw):
    c = 'SPECIFICATION Spec\nCONSTANTS Arch="%s" Abi="%s" Mode="%s"' % (arch, ab, mode)
    if kind == "gen":
        c += (' MaxStack=%d MaxArgs=%d Var=%s\nCONSTRAINT Bounded\nVIEW View\nINVARIANTS InRange Disjoint EmitCases EmitRets'
              ) % (kw.get("stack", 16), kw.get("maxargs", 20), "TRUE" if kw.get("var") else "FALSE")
        t = vf.tlc("PortGen", c + abi.INV, workers=2, timeout=800, heap="4g")
    elif kind == "shape":
        t = vf.tlc("PortShape", c + " MaxFields=%d\nINVARIANTS ShapeOK EmitCase" % kw.get("fields", 3) + abi.INV, workers=2, timeout=800)
    else:
        t = vf.tlc("PortRand", c + " N=%d MaxArgs=%d\nINVARIANTS EmitCase" % (kw.get("n", 1500), kw.get("maxargs", 14)) + abi.INV,
                   seed=kw.get("seed", vf.SEED), timeout=800)
    return abi.dedupe(vf.tagged(t, "PLAN")), t


def jobs(arch, clo, deep):
    """(kind, mode, abi, parameters, build variants)"""
    all_v = sorted(set(VARIANTS) - ({"pac"} if arch != "a64" else set()))
    main, other = ("clo", ["goclo"] + (["stclo"] if ARCH[arch]["static"] else [])) if clo else ("call", ["go"])
    j = []

    def job(kind, mode, vs, ab="sysv", **kw):
        j.append((kind, mode, ab, kw, all_v if deep else vs))
    job("gen", main, ["o2"], **(dict(stack=32, maxargs=24) if deep else dict(stack=16)))
    job("gen", main, ["os"], var=True, **(dict(stack=24) if deep else dict(stack=8, maxargs=12)))
    job("shape", main, ["o0"], fields=4 if deep else 3)
    n = 6000 if deep else 1200
    for s in range(4 if deep else 1):
        job("rand", main, ["pac" if arch == "a64" else "o0", "o2"], n=n, seed=vf.SEED + s, maxargs=40 if s % 2 else 18)
        for k, m in enumerate(other):
            job("rand", m, [all_v[(k + 1) % len(all_v)], all_v[k]], n=n, seed=vf.SEED + s, maxargs=40 if s % 2 else 18)
    for m in other:
        job("gen", m, [], **(dict(stack=16) if deep else dict(stack=8, maxargs=12)))
        job("shape", m, [], fields=3)
    if arch == "a64":
        job("gen", main, ["o2"], "win64", stack=16 if deep else 8)
        job("gen", main, ["os"], "win64", var=True, stack=16 if deep else 8, maxargs=20 if deep else 10)
        job("rand", main, ["o0"], "win64", n=n)
    return [x for x in j if x[4]]


def check(chk, arch, clo, deep):
    js = jobs(arch, clo, deep)
    vs = sorted({v for x in js for v in x[4]})
    with ThreadPoolExecutor(max(1, vf.CPUS // 2)) as ex:
        fb = {v: ex.submit(build, arch, v) for v in vs}
        fg = [ex.submit(gen, arch, k, m, ab, **kw) for k, m, ab, kw, _ in js]
        progs = {v: f.result() for v, f in fb.items()}
        gens = [f.result() for f in fg]
    ids = (chk.prop, chk.prop)
    pre = chk.prop + ":"
    ev, plans, prog, lost = {}, {}, {}, {v: [0, 0] for v in vs}
    for (k, m, ab, kw, uses), (pl, t) in zip(js, gens):
        chk.model(t)
        if not pl:
            raise vf.Die("generator produced no case: %s %s %s" % (k, m, ab))
        chk.add("cases_%s_%s_%s" % (k, m, ab), len(pl))
        chk.sample({"case": plan_line(0, pl[len(pl) // 2]).strip()[:400]})
        for v in uses:
            base = len(plans)
            mine = {base + i: p for i, p in enumerate(pl)}
            plans.update(mine)
            obs, toomany = abi.drive(progs[v], mine, line=plan_line)
            if len(obs) < len(mine) and not toomany:
                raise vf.Die("driver lost %d cases of %s/%s" % (len(mine) - len(obs), v, m))
            for i, o in obs.items():
                lost[v][1] += 1
                prog[i] = v
                if "emu" in o:
                    lost[v][0] += 1
                else:
                    ev[i] = o
    for v, (a, b) in lost.items():
        if a:
            chk.add("cases_left_out_instruction_unknown_to_interpreter_" + v, a)
        if 2 * a > b:
            raise vf.Die("the interpreter does not know the instructions of build %s/%s" % (arch, v))
    rej, st = judge(arch, ids, plans, ev)
    chk.validated += len(ev)
    chk.states += st
    chk.transitions += st
    mine = [r for r in rej if any(w.startswith(pre) for w in r["why"])]
    pick = []
    for v in vs:                             # a few of every build
        pick += [r for r in mine if prog[r["i"]] == v][:20]
    again = {}
    for v in {prog[r["i"]] for r in pick}:
        o, _ = abi.drive(progs[v], {r["i"]: plans[r["i"]] for r in pick if prog[r["i"]] == v}, line=plan_line)
        again.update({i: x for i, x in o.items() if "emu" not in x})
    sure = {r["i"] for r in judge(arch, ids, plans, again)[0]} if again else set()
    for r in pick:
        if r["i"] in sure:
            p = plans[r["i"]]
            why = sorted({w for w in r["why"] if w.startswith(pre)})
            chk.violation("%s arch=%s variant=%s mode=%s abi=%s fixed=%s ret=%s args=%s" % (
                " ".join(why), arch, prog[r["i"]], p["mode"], p["abi"], p["fx"], abi.tystr(p["ret"])[:200], [abi.tystr(x)[:60] for x in p["args"]]),
                {"arch": arch, "variant": prog[r["i"]], "plan": plan_line(r["i"], p), "case": p, "why": r["why"][:20], "observation": ev[r["i"]]})
