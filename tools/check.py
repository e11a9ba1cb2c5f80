#!/usr/bin/env python3
"""check.py <property> : decides one property; see DESIGN.md."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf

D, X = ("default",), ("default", "clang")
ALL = ("default", "clang", "o0", "o2dyn", "clang0", "debug")


def abi_jobs(p, deep):
    """(generator, mode, abi, build variants, bounds)"""
    U, G, W = "unix64", "gnuw64", "win64"
    many = dict(n=60 if not deep else 600, maxargs=120, base="java")
    J = []

    def full(mode, ab, shape=True):
        if deep:
            J.append(("gen", mode, ab, ALL, dict(uni="wide", stack=32)))
            if shape:
                J.append(("shape", mode, ab, X, dict(kinds=("u8", "s16", "s32", "p", "f", "d", "ld", "cf", "cs8"), fields=4, arrs=(4, 5, 7, 8, 9, 15, 16, 17, 33))))
            for k in range(6):
                J.append(("rand", mode, ab, ALL, dict(n=4000, seed=vf.SEED * 100 + k)))
        else:
            J.append(("gen", mode, ab, D, {}))
            if shape:
                J.append(("shape", mode, ab, D, {}))
            J.append(("rand", mode, ab, X + ("debug",), {}))
        J.append(("rand", mode, ab, X, many))
        if shape:
            J.append(("big", mode, ab, X, dict(arrs=(100, 255, 511) if not deep else (100, 255, 256, 257, 511, 512, 600))))

    def some(mode, ab, n=500):
        J.append(("rand", mode, ab, ALL if deep else X, dict(n=n * (8 if deep else 1))))
    if p == "C03":
        full("call", U, False)
        J.append(("shape", "call", G, D, {})), some("call", G)
        some("call", W), some("raw", U, 300), some("jraw", U, 300), some("go", U, 300), some("clo", U, 300)
        J.append(("shape", "call", U, D, {}))
        J.append(("shape", "call", W, D, dict(fields=2)))
    elif p in ("C04", "C05"):
        full("call", U)
    elif p in ("C06", "C07"):
        full("clo", U)
    elif p in ("C08", "C09"):
        m = "call" if p == "C08" else "clo"
        full(m, G)
        if deep:
            full(m, W)
        else:
            J.append(("shape", m, W, D, dict(fields=2)))
            J.append(("gen", m, W, D, dict(maxargs=5)))
            some(m, W, 500)
    elif p == "C10":
        full("call", U, deep), full("clo", U, False)
        for m in ("call", "clo"):
            J.append(("shape", m, G, D, dict(fields=2)))
            some(m, G), some(m, W)
        for m in ("go", "goclo", "raw", "rawclo"):
            some(m, U, 300)
        some("go", W, 200), some("goclo", G, 200)
    elif p == "C12":
        full("go", U, False), full("goclo", U, False)
        for m in ("go", "goclo"):
            some(m, G), some(m, W)
    elif p == "C13":
        full("raw", U), full("rawclo", U)
        if deep:
            some("raw", G), some("rawclo", W)
    elif p == "C14":
        full("jraw", U, False), full("jrawclo", U, False)
    return J


def abi_check(chk, deep):
    import abi
    abi.check_abi(chk, abi_jobs(chk.prop, deep))
    chk.assumptions += ["TLC, gcc/clang and the register probes in harness/abi_asm.S are trusted"]


def main():
    prop = sys.argv[1]
    if len(sys.argv) > 2:
        vf.TIER = sys.argv[2]
    deep = vf.TIER == "thorough"
    chk = vf.Check(prop)
    try:
        REG[prop](chk, deep)
        sys.exit(chk.finish())
    except vf.Die as e:
        print("ERROR: %s" % e)
        sys.exit(2)


REG = {p: abi_check for p in ("C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C12", "C13", "C14")}
FAMILY = {p: "abi" for p in REG}


def descr_check(chk, deep):
    import descr
    descr.check(chk, deep)


for p in ("C01", "C02"):
    REG[p], FAMILY[p] = descr_check, "descr"



def life_check(chk, deep):
    import life
    life.check(chk, deep)


for p in ("C15", "C16", "C17", "C18", "C19", "C20", "C22", "C23", "C24"):
    REG[p], FAMILY[p] = life_check, "life"



def stack_check(chk, deep):
    import stack
    stack.check(chk, deep)


REG["C11"], FAMILY["C11"] = stack_check, "stack"


def mt_check(chk, deep):
    import mt
    mt.check(chk, deep)


REG["C21"], FAMILY["C21"] = mt_check, "mt"


def i386_check(chk, deep):
    import i386
    i386.check(chk, chk.prop == "C26", deep)
    chk.assumptions += ["TLC, gcc and the register probes in harness/i386_asm.S are trusted", "pascal and register conventions are not covered (no compiler for them here)"]


for p in ("C25", "C26"):
    REG[p], FAMILY[p] = i386_check, "i386"


PORT = {"C27": ("a64", False), "C28": ("a64", True), "C29": ("rv64", None), "C30": ("la64", None)}


def port_check(chk, deep):
    import ports
    arch, clo = PORT[chk.prop]
    for c in ((False, True) if clo is None else (clo,)):
        ports.check(chk, arch, c, deep)
    chk.assumptions += ["TLC, clang and the instruction interpreter in harness/port (checked against clang-compiled code) are trusted"]


for p in PORT:
    REG[p], FAMILY[p] = port_check, "ports"
NA = {}

if __name__ == "__main__":
    main()
