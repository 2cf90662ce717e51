#!/usr/bin/env python3
"""Sensitivity regression: applies each small behaviour-changing edit of tools/mutants.py to a scratch copy of /repo's sources and asks whether the obligations of the
property it names fail (the deductive part of check.py only, without the input search).
usage: python3 tools/mutate.py [name-substring ...] [-j N]"""
import concurrent.futures as cf, importlib.util, json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)


def worker(prop, d):
    os.environ["VERIF_REPO"] = d
    os.chdir(V)
    from vlib import verify as VV
    units = [u for u in VV.load_units() if any(prop in f.props and not (f.trusted or '').startswith('@') for f in u.fns)]
    ext = VV.extract(units)
    failed, other = [], []
    for u in units:
        r, x = VV.verify(u, ext["units"][u.name], os.path.join(d, "verus"), prop=prop)
        if r.get("fatal"):
            other.append(f"{u.name}: fatal {str(r['fatal'])[:200]}")
        for f in u.fns:
            st = r["status"].get(f.spec, {"status": "unknown"})
            if prop not in f.props:
                continue
            if st["status"] == "failed":
                mine = [e["obligation"] for e in st["errors"] if not (m := re.match(r"^(C\d+(?:,C\d+)*):", e["obligation"])) or prop in m.group(1).split(",")]
                if mine:
                    failed.append(f.spec + ": " + "; ".join(mine)[:160])
            elif st["status"] in ("unsupported", "unknown"):
                other.append(f.spec + " " + st["status"] + " " + str(st.get("why"))[:200])
    print("RESULT " + json.dumps([failed, other]))


def one(m):
    name, prop, edits = m
    d = tempfile.mkdtemp(prefix="mut-")
    try:
        for x in os.listdir("/repo"):
            if x not in ("target", ".git", "fixtures"):
                subprocess.run(["cp", "-a", os.path.join("/repo", x), d + "/"], check=True)
        for file, old, new in edits:
            p = os.path.join(d, file)
            s = open(p).read()
            if old not in s:
                return name, prop, "EDIT DOES NOT APPLY " + old[:60]
            open(p, "w").write(s.replace(old, new, 1))
        c = subprocess.run(["cargo", "check", "--offline", "-q", "--features", "ndarray,tokio,object_store,reqwest,lzma,webp"], cwd=d, env={**os.environ, "CARGO_TARGET_DIR": "/tmp/mut-target-%s" % os.environ.get("MUT", "0"), "RUSTUP_TOOLCHAIN": "stable", "CARGO_NET_OFFLINE": "true"}, capture_output=True, text=True)
        if c.returncode:
            return name, prop, "DOES NOT COMPILE " + c.stderr[-800:]
        p = subprocess.run([sys.executable, os.path.abspath(__file__), "--worker", prop, d], capture_output=True, text=True)
        l = [x for x in p.stdout.split("\n") if x.startswith("RESULT ")]
        if not l:
            return name, prop, "BROKEN " + p.stderr[-600:]
        failed, other = json.loads(l[0][7:])
        return name, prop, ("caught " + " | ".join(failed)[:300] if failed else "MISSED " + " | ".join(other)[:600])
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1:2] == ["--worker"]:
        worker(*sys.argv[2:4]); sys.exit()
    spec = importlib.util.spec_from_file_location("mu", os.path.join(V, "tools", "mutants.py"))
    mu = importlib.util.module_from_spec(spec); spec.loader.exec_module(mu)
    a = sys.argv[1:]
    j = int(a[a.index("-j") + 1]) if "-j" in a else 2
    pick = [x for i, x in enumerate(a) if not x.startswith("-") and (i == 0 or a[i - 1] != "-j")]
    ms = [m for m in mu.MUTANTS if not pick or any(p in m[0] or p == m[1] for p in pick)]
    with cf.ThreadPoolExecutor(j) as ex:
        for r in ex.map(one, ms):
            print(*r, flush=True)
