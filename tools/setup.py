#!/usr/bin/env python3
"""setup_cmd: checks that the tools are there and that every specification parses. Builds nothing that is kept."""
import glob, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mbv import JAR, SPECS, VERIF
os.makedirs(os.path.join(VERIF, ".work"), exist_ok=True)
os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
bad = 0
mods = sorted(glob.glob(os.path.join(SPECS, "*.tla")))
r = subprocess.run(["java", "-cp", JAR, "tla2sany.SANY"] + mods, cwd=SPECS, capture_output=True, text=True)
if r.returncode or "*** Errors" in r.stdout or "Parse Error" in r.stdout:
    print(r.stdout[-3000:], r.stderr[-2000:])
    bad = 1
r = subprocess.run(["g++", "--version"], capture_output=True, text=True)
bad |= r.returncode
print("setup", "failed" if bad else "ok:", len(mods), "specifications parse")
sys.exit(bad)
