#!/usr/bin/env python3
"""Generates seeded/<id>/ from tools/seeds_spec.py and validates: demo ok on HEAD, fails with the patch; check catches it.
usage: seed.py [--tests] [--nocheck] ID...   (work copy /tmp/seedw)"""
import sys, os, json, subprocess, importlib.util, shutil
V = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
spec = importlib.util.spec_from_file_location("s", os.path.join(V, "tools", "seeds_spec.py")); S = importlib.util.module_from_spec(spec); spec.loader.exec_module(S)
W = "/tmp/seedw"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
args = [a for a in sys.argv[1:] if not a.startswith("--")] or list(S.SEEDS)
if not os.path.exists(W): sh(f"cp -a /repo {W}")
for i in args:
    d = S.SEEDS[i]
    sh(f"git -C {W} fetch -q /repo HEAD && git -C {W} checkout -q -f FETCH_HEAD && git -C {W} clean -fdq")
    for f, old, new in d["edits"]:
        p = os.path.join(W, f); s = open(p).read()
        assert s.count(old) == 1, (i, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    o = os.path.join(V, "seeded", i); os.makedirs(o, exist_ok=True)
    open(os.path.join(o, "patch.diff"), "w").write(sh(f"git -C {W} diff").stdout)
    if "demo_py" in d:
        open(os.path.join(o, "demo.py"), "w").write(d["demo_py"])
        open(os.path.join(o, "demo.sh"), "w").write('#!/bin/sh\nPYTHONPATH=flatdata-py:flatdata-generator /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
    else:
        open(os.path.join(o, "demo.sh"), "w").write(d["demo_sh"])
        for n, t in d.get("files", {}).items(): open(os.path.join(o, n), "w").write(t)
    json.dump(dict(property=d["property"], needs=d["needs"], what_it_breaks=d["breaks"]), open(os.path.join(o, "meta.json"), "w"))
    a = sh(f"sh {o}/demo.sh", cwd="/repo"); b = sh(f"sh {o}/demo.sh", cwd=W)
    msg = f"{i}: demo clean={a.returncode} patched={b.returncode}"
    if a.returncode or not b.returncode: msg += " BAD " + a.stderr[-500:]
    if "--tests" in sys.argv:
        sh(f"git -C /repo apply {o}/patch.diff")
        try:
            x = sh("bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/seedo.json"); st = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); p = set(json.load(open("/tmp/seedo.json"))["passed"])
            msg += f" tests: {'ok' if st <= p else 'BROKEN ' + str(sorted(st - p)[:2])}"
        finally: sh("git -C /repo checkout -- . && bash /opt/vp/build.sh")
    if "--nocheck" not in sys.argv:
        r = sh(f"{V}/bin/check {d['property']}", env=dict(os.environ, VERIF_REPO=W))
        msg += f" check rc={r.returncode} {[l for l in r.stdout.splitlines() if 'VIOLATION' in l]} {r.stdout.splitlines()[0][:200] if r.returncode else ''}"
    print(msg, flush=True)
shutil.rmtree(W)
