#!/usr/bin/env python3
"""setup_cmd: checks that the toolchain is usable, parses every specification module and clears old scratch directories."""
import glob, os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf
b = os.path.join(vf.VERIF, "build")
shutil.rmtree(b, ignore_errors=True)
os.makedirs(b)
bad = 0
for f in sorted(glob.glob(os.path.join(vf.SPEC, "*.tla"))):
    r = vf.run(["java", "-cp", vf.JAR + ":" + vf.cm_jar(), "tla2sany.SANY", os.path.basename(f)], cwd=vf.SPEC, check=False)
    ok = r.returncode == 0 and b"Semantic errors" not in r.stdout and b"Parse Error" not in r.stdout
    print(os.path.basename(f), "ok" if ok else "FAILED")
    bad += not ok
sys.exit(bad != 0)
