#!/usr/bin/env python3
"""builds seeded/<id>/ from tools/bugs.py: patch, demo and meta, confirming that the demo separates the trees and the stable tests still pass"""
import json, os, subprocess, sys, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUGS = []
def bug(id, prop, edits, demo, needs, breaks): BUGS.append((id, prop, edits, demo, needs, breaks))
exec(open(os.path.join(HERE, "tools", "bugs.py")).read())
src = open(os.path.join(HERE, "replay", "rt.py")).read()
PRE = 'import os, sys\nsys.path.insert(0, os.getcwd())\nsys.dont_write_bytecode = True\nos.environ.setdefault("MPLBACKEND", "Agg")\nimport numpy as np, torch\n' + src[src.index("NPDT = {"):src.index("def T(a")]
want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def run(cmd, cwd, **env): return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", **env), timeout=600)
only = sys.argv[1:]
for id, prop, edits, demo, needs, breaks in BUGS:
    d = os.path.join(HERE, "seeded", id)
    if only and id not in only: continue
    if not only and os.path.exists(d): continue
    w = "/tmp/seedwork"
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["git", "-C", "/repo", "worktree", "prune"]); 
    subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
    for f, old, new in edits:
        s = open(os.path.join(w, f)).read()
        assert s.count(old) == 1, (id, f, old, s.count(old))
        open(os.path.join(w, f), "w").write(s.replace(old, new))
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(subprocess.run(["git", "-C", w, "diff"], capture_output=True, text=True).stdout)
    open(os.path.join(d, "demo.py"), "w").write(PRE + demo.strip("\n") + "\n")
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    a = run(["bash", os.path.join(d, "demo.sh")], "/repo"); b = run(["bash", os.path.join(d, "demo.sh")], w)
    t = subprocess.run("sed 's#/repo#/tmp/seedwork#g' /opt/vp/test.sh > /tmp/seedtest.sh; PYTHONPATH=/tmp/seedwork bash /tmp/seedtest.sh /tmp/seed_o.json", shell=True, capture_output=True, text=True, cwd=w)
    o = json.load(open("/tmp/seed_o.json"))
    lost = want - set(o["passed"])
    ok = a.returncode == 0 and b.returncode != 0 and not lost
    print(id, prop, "OK" if ok else "BAD", "clean", a.returncode, "patched", b.returncode, "lost", sorted(lost)[:3])
    if not ok or b.returncode != 1 or "AssertionError" not in b.stderr: print("  clean:", a.stderr[-400:], "\n  patched:", b.stderr[-400:])
    shutil.rmtree(w, ignore_errors=True)
