#!/usr/bin/env python3
"""Nothing is prebuilt: every check compiles the library from the working tree.  Setup only makes sure that the tools
are there and that all specifications parse."""
import glob, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core

for d in ("evidence", "out"):
    os.makedirs(os.path.join(core.VERIF, d), exist_ok=True)


def sany(f):
    r = subprocess.run(["java", "-cp", core.JARS, "tla2sany.SANY", os.path.basename(f)], cwd=os.path.dirname(f),
                       capture_output=True, text=True)
    return f, r.returncode, r.stdout + r.stderr


bad = 0
with ThreadPoolExecutor(core.WORKERS) as ex:
    for f, rc, out in ex.map(sany, sorted(glob.glob(core.VERIF + "/spec/*.tla"))):
        if rc:
            bad += 1
            print(f, rc, out[-1500:])
subprocess.run(["g++", "--version"], check=True, stdout=subprocess.DEVNULL)
print("setup: %d specifications parsed, %d failed" % (len(glob.glob(core.VERIF + "/spec/*.tla")), bad))
sys.exit(1 if bad else 0)
