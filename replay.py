#!/usr/bin/env python3
"""replay.py <replay file>: recompiles the one failing program against /repo's current tree and re-runs the one failing case.
Exit 1 if it still disagrees with the reference, 0 if not."""
import json, os, subprocess, sys, tempfile, shutil
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from mc.core import REPO, HARNESS
j = json.load(open(sys.argv[1]))
f = j["fail"]
d = tempfile.mkdtemp(prefix="verif-replay-")
try:
    src = d + "/r.cpp"
    open(src, "w").write(j["source"])
    ex = [x.replace("@DIR@", d).replace("@HARNESS@", HARNESS) for x in j["extra"]]
    ok = False
    for c in ("clang++", "g++"):
        r = subprocess.run([c, "-std=c++20", j["opt"], "-w", "-I" + HARNESS, "-I" + REPO + "/include"] + ex + ["-c", src, "-o", d + "/r.o"])
        if r.returncode == 0:
            ok = True
            break
    if not ok:
        print("REPRODUCED: the program does not compile")
        sys.exit(1)
    subprocess.run(["g++", "-std=c++20", "-w", "-I" + HARNESS, HARNESS + "/main.cpp", d + "/r.o", "-o", d + "/r"] + j["libs"], check=True)
    r = subprocess.run([d + "/r", "--prog", f["prog"], "--params", f["params"]] + (["--wide"] if f.get("wide") else []), stdout=subprocess.PIPE, text=True)
    print(r.stdout)
    print("reference program:", j["reference_program"])
    bad = '"fail"' in r.stdout
    print("REPRODUCED" if bad else "not reproduced on the current tree")
    sys.exit(1 if bad else 0)
finally:
    shutil.rmtree(d, ignore_errors=True)
