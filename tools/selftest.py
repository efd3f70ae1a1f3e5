#!/usr/bin/env python3
"""setup_cmd: the framework compiles itself on every run; here only the toolchain and the reference model are checked."""
import os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for t in ("clang++", "g++", "git"):
    if not shutil.which(t):
        print("missing tool:", t)
d = tempfile.mkdtemp(prefix="verif-setup-")
try:
    subprocess.run(["g++", "-std=c++20", "-O1", "-w", "-I" + V + "/harness", V + "/harness/main.cpp", "-o", d + "/m"], check=True)
    subprocess.run([d + "/m"], check=True, stdout=subprocess.DEVNULL)
finally:
    shutil.rmtree(d, ignore_errors=True)
print("setup ok")
