#!/usr/bin/env python3
"""Prints a table of which checks catch which seeded bugs. Works on scratch copies of /repo."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.abspath(os.path.join(os.path.dirname(__file__), ".."))
props = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
seeds = [s for s in sorted(os.listdir(V + "/seeded")) if not sys.argv[1:] or any(a in s for a in sys.argv[1:])]
def one(s):
    t = tempfile.mkdtemp(prefix="catch")
    try:
        w, v = t + "/repo", t + "/v"
        shutil.copytree("/repo", w, symlinks=True); os.makedirs(v + "/evidence")
        shutil.copy(V + "/known-findings.txt", v)
        r = subprocess.run(["git", "apply", V + "/seeded/" + s + "/patch.diff"], cwd=w, capture_output=True, text=True)
        if r.returncode: return s, "patch does not apply", []
        o = subprocess.run([V + "/bin/an", "-property", ",".join(props), "-repo", w, "-verif", v], capture_output=True, text=True)
        got = [p for p in props if "VIOLATION property=%s " % p in o.stdout]
        if o.returncode > 1: got.append("!")
        return s, json.load(open(V + "/seeded/" + s + "/meta.json"))["property"], got
    finally:
        shutil.rmtree(t, ignore_errors=True)
with ThreadPoolExecutor(6) as ex:
    for s, p, got in ex.map(one, seeds):
        print("| %s | %s | %s | %s |" % (s, p, "yes" if p in got else "**no**", " ".join(g for g in got if g != p) or "-"))
