#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry of checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import check
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
T = {
 "abi": "TLA+ specification of the calling conventions (TLC): exhaustive bounded case generation, replay into the real code, trace validation by TLC",
 "descr": "TLA+ specification of type descriptions and their preparation (TLC): exhaustive histories replayed into the real code, trace validation by TLC",
 "life": "TLA+ specification of the closure allocator and bindings (TLC): behaviours replayed into the real code, trace validation by TLC",
 "back": "TLA+ specification of backing storage and faults (TLC): fault schedules replayed into the real code, trace validation by TLC",
 "stack": "TLA+ specification of activation chains (TLC): chains replayed through the real code, trace validation by TLC",
 "i386": "TLA+ specification of the 32-bit x86 calling conventions (TLC): exhaustive bounded case generation, replay into the real code built for 32 bits, trace validation by TLC",
 "ports": "TLA+ specification of the AArch64, RISC-V and LoongArch calling conventions (TLC): exhaustive bounded case generation, replay into the real code compiled for the processor and interpreted instruction by instruction, trace validation by TLC",
 "mt": "TLA+ specification of concurrent closure management (TLC): controlled schedules of the real code, trace validation by TLC",
}
N = {
 "abi": "Bounded-exhaustive over the assignment machine's reachable states and the structure shapes, sampled beyond; argument bits are sampled per case. Trusts TLC, the compilers, the register probes, and the convention as specified.",
 "descr": "Exhaustive over bounded histories and description graphs, sampled beyond. Trusts TLC, the compiler and the recording driver.",
 "life": "Exhaustive over bounded histories of the model, sampled long histories beyond; every recorded step is checked by TLC. Trusts TLC, the kernel's memory map report and the recording driver.",
 "back": "Every single fault point (and sampled multiple faults) of bounded histories. Trusts TLC, the recording wrappers substituted for libc calls, and the kernel.",
 "stack": "Bounded chains exhaustive, longer ones sampled. Trusts TLC and the recording driver.",
 "i386": "Bounded-exhaustive over the assignment machine's reachable states, sampled beyond; argument bits are sampled per case. Pascal and register conventions have no compiler here and are left out. Trusts TLC, gcc, the register probes, and the conventions as specified (checked against gcc).",
 "ports": "Bounded-exhaustive over the assignment machine's reachable states and the structure shapes, sampled beyond; argument bits are sampled per case. The processor is an interpreter of the instructions clang emits; caches and memory ordering are not modelled. Trusts TLC, clang, the interpreter, and the conventions as specified (checked against clang).",
 "mt": "Controlled schedules at synchronisation and shared-access points up to the stated bounds; weak-memory effects are not explored. Trusts TLC and the scheduler harness.",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in check.REG:
        f = check.FAMILY[i]
        checks.append({"property": i, "quick_cmd": "python3 tools/check.py " + i, "thorough_cmd": "python3 tools/check.py %s thorough" % i,
                       "technique": T[f], "level": "fault_enumeration" if False else "model_checking", "level_note": N[f]})
    else:
        na.append({"property": i, "reason": check.NA.get(i, "check under construction")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks are needed in /repo: the checks compile its sources themselves and observe them through symbol redirection in the object files and register probes."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
