#!/usr/bin/env python3
"""Sensitivity of the registered checks: apply each planted change (seeded/*, and the named mutants of tools/mutants.py) to /repo, run check.py, undo.
usage: python3 tools/catch.py [seed-or-mutant-name ...]     (/repo must be clean; it is left clean)"""
import importlib.util, json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location("mm", os.path.join(V, "tools", "mutants.py"))
mm = importlib.util.module_from_spec(spec); spec.loader.exec_module(mm)
if subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], capture_output=True, text=True).stdout.strip():
    sys.exit("/repo is not clean")
jobs = []
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    jobs.append((d, m["property"], os.path.join(V, "seeded", d, "patch.diff"), None))
picked = sys.argv[1:]
muts = [(n, p, None, e) for n, p, e in mm.MUTANTS if n in picked]
jobs = [j for j in jobs if not picked or any(j[0].startswith(a) for a in picked)] + muts
for name, prop, patch, edits in jobs:
    try:
        if patch:
            subprocess.run(["git", "-C", "/repo", "apply", patch], check=True)
        else:
            for f, o, n in edits:
                p = os.path.join("/repo", f); s = open(p).read()
                if o not in s:
                    print(name, "DOES NOT APPLY"); break
                open(p, "w").write(s.replace(o, n))
        t = time.time()
        r = subprocess.run([sys.executable, "check.py", prop, "--tier", "quick"], cwd=V, capture_output=True, text=True, env={**os.environ, "VERIF_SEED": "1", "VERIF_TIER": "quick"})
        line = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
        print(name, prop, "caught" if r.returncode == 1 and line else "MISSED rc=%d" % r.returncode, "%.0fs" % (time.time() - t), " | ".join(line)[:200], flush=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
