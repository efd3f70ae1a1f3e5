#!/usr/bin/env python3
"""Runs quick checks on scratch copies of the headers, each with one hand-written change (not a check).
usage: ideas.py FILE.py [NAME...]   FILE defines I = [(name, "Pxx [Pyy..]", [(file, old, new[, nth])...]), ...]"""
import os, runpy, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
todo = runpy.run_path(sys.argv[1])["I"]
names = sys.argv[2:]
for name, props, edits in todo:
    if names and name not in names:
        continue
    w = tempfile.mkdtemp(prefix="idea-", dir="/tmp/w")
    shutil.copytree(R + "/include", w + "/include")
    ok = True
    for e in edits:
        p = f"{w}/include/noarr/structures/{e[0]}"
        t = open(p).read()
        n = e[3] if len(e) > 3 else 0
        if e[1] not in t or (len(e) < 4 and t.count(e[1]) != 1):
            print(f"{name}: pattern occurs {t.count(e[1])} times in {e[0]}", flush=True)
            ok = False
            break
        i = -1
        for _ in range(n + 1):
            i = t.index(e[1], i + 1)
        open(p, "w").write(t[:i] + e[2] + t[i + len(e[1]):])
    if ok:
        out = []
        for c in props.split():
            r = subprocess.run([sys.executable, V + "/check.py", c, "quick"], env=dict(os.environ, VERIF_REPO=w, VERIF_TMP=w), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            first = next((l for l in r.stdout.splitlines() if l.startswith("# ")), "")[:230]
            out.append(f"{c}:" + ("MISSED" if r.returncode == 0 else "caught " + first if r.returncode == 1 else f"rc{r.returncode} {r.stdout[-300:]}"))
        print(name, " ".join(out), flush=True)
    shutil.rmtree(w)
