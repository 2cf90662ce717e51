#!/usr/bin/env python3
"""Regression for quietness: apply each behaviour-preserving edit of tools/refactorings.py to a scratch copy of /repo and verify the units concerned.
usage: python3 tools/refactor.py [name-substring ...] [--nocheck]"""
import importlib.util, os, shutil, subprocess, sys, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location("rf", os.path.join(V, "tools", "refactorings.py"))
rf = importlib.util.module_from_spec(spec); spec.loader.exec_module(rf)
pick = [a for a in sys.argv[1:] if not a.startswith("--")]
D = "/tmp/rf-src" + os.environ.get("RF", "")
for name, units, edits in rf.REFACTORINGS:
    if pick and not any(p in name for p in pick):
        continue
    if not os.path.exists(D):
        os.makedirs(D)
    subprocess.run(["rsync", "-a", "--delete", "--exclude=target", "--exclude=.git", "/repo/", D + "/"], check=True) if shutil.which("rsync") else \
        (shutil.rmtree(D + "/src", ignore_errors=True), [subprocess.run(["cp", "-a", os.path.join("/repo", x), D + "/"], check=True) for x in os.listdir("/repo") if x not in ("target", ".git") and (x == "src" or not os.path.exists(os.path.join(D, x)))])
    for file, old, new in edits:
        p = os.path.join(D, file)
        s = open(p).read()
        if s.count(old) < 1:
            print(name, "EDIT DOES NOT APPLY:", old[:80]); break
        open(p, "w").write(s.replace(old, new))
    else:
        if "--nocheck" not in sys.argv:
            c = subprocess.run(["cargo", "check", "--offline", "-q", "--features", "ndarray,tokio"], cwd=D, env={**os.environ, "CARGO_TARGET_DIR": "/tmp/rf-target" + os.environ.get("RF", ""), "RUSTUP_TOOLCHAIN": "stable", "CARGO_NET_OFFLINE": "true"}, capture_output=True, text=True)
            if c.returncode:
                print(name, "DOES NOT COMPILE", c.stderr[-1500:]); continue
        p = subprocess.run([sys.executable, "-m", "vlib.verify", *units], cwd=V, env={**os.environ, "VERIF_REPO": D}, capture_output=True, text=True)
        bad = [l for l in p.stdout.split("\n") if l.startswith("    ") and (" failed" in l[:90] or " unsupported" in l or " unknown" in l) and not l.startswith("     ")]
        fatal = [l for l in p.stdout.split("\n") if "errors fatal=" in l and "fatal=None" not in l]
        inl = [l.strip() for l in p.stdout.split("\n") if l.startswith("    ") and l.rstrip().endswith(" inlined")]
        print(name, "OK" if not bad and not fatal and p.returncode == 0 else "NOT QUIET", inl, "\n".join(bad + fatal)[:1500], p.stderr[-800:] if p.returncode else "", flush=True)
        if bad or fatal:
            open("/tmp/rf-%s.out" % name, "w").write(p.stdout)
