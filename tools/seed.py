"""Plants one bug: checks it in a scratch copy (/tmp/seedw/repo) and stores it in /verif/seeded/<id>.
usage: seed.py SPEC.py   (SPEC.py defines SEEDS: list of dicts id, prop, edits [(file, old, new)], main, needs, breaks, features)
"""
import importlib.util, json, os, shutil, subprocess, sys
W = "/tmp/seedw/repo"
V = "/verif"
DEMO = r'''#!/bin/bash
# exit 0: behaves as specified; nonzero: the defect is present.  Run with the repository as working directory.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here"/*.rs "$d/src/"
cp "$repo/Cargo.lock" "$d/"
cat > "$d/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
async-tiff = { path = "$repo", default-features = false, features = [FEATURES] }
async-trait = "0.1"
bytes = "1"
flate2 = "1"
futures = "0.3"
tokio = { version = "1", features = ["rt", "macros", "io-util"] }
weezl = "0.2.1"
zstd = "0.13"
EXTRA
[profile.dev]
debug = 0
incremental = false
TOML
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target" LIBCLANG_PATH=/usr/lib/llvm-18/lib
cd "$d" && cargo run --offline -q 2>"$d/err" || { tail -5 "$d/err"; exit 1; }
'''

def sh(cmd, cwd=W, env=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

def main():
    sp = importlib.util.spec_from_file_location("s", sys.argv[1]); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    only = sys.argv[2:]
    head = sh("git rev-parse HEAD", "/repo").stdout.strip()
    if sh("git rev-parse HEAD").stdout.strip() != head:
        print("scratch copy is not at /repo HEAD"); sys.exit(1)
    env = dict(os.environ, CARGO_NET_OFFLINE="true", LIBCLANG_PATH="/usr/lib/llvm-18/lib", RUSTUP_TOOLCHAIN="stable")
    base = set(t for t in json.load(open("/opt/vp/BASELINE.json")).get("stable", []))
    for s in m.SEEDS:
        if only and s["id"] not in only: continue
        sh("git checkout -q -- .")
        ok = True
        for f, a, b in s["edits"]:
            t = open(f"{W}/{f}").read()
            if t.count(a) != 1:
                print(s["id"], "edit matches", t.count(a), "times:", a[:60]); ok = False; break
            open(f"{W}/{f}", "w").write(t.replace(a, b))
        if not ok: continue
        diff = sh("git diff").stdout
        r = sh("cargo test --workspace --all-features --no-fail-fast --offline --locked -- --test-threads 8 --skip test::geotiff_test_data --skip test::ome_tiff", env=env)
        failed = [l for l in r.stdout.splitlines() if "... FAILED" in l and "test_header_byte_size" not in l]
        if "error: could not compile" in r.stdout or failed or "test result" not in r.stdout:
            print(s["id"], "TESTS:", failed or r.stdout[-1500:]); continue
        d = f"{V}/seeded/{s['id']}"
        os.makedirs(d, exist_ok=True)
        open(f"{d}/patch.diff", "w").write(diff)
        open(f"{d}/demo.sh", "w").write(DEMO.replace("FEATURES", ", ".join('"%s"' % f for f in s.get("features", ["tokio"]))).replace("EXTRA", s.get("extra", "")))
        open(f"{d}/main.rs", "w").write(s["main"])
        shutil.copy(f"{V}/harness/src/util.rs", f"{d}/util.rs")
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
        bad = sh(f"bash {d}/demo.sh", env=env)
        sh("git checkout -q -- .")
        good = sh(f"bash {d}/demo.sh", env=env)
        st = "OK" if bad.returncode != 0 and good.returncode == 0 else "DEMO-WRONG"
        print(s["id"], st, "| bug:", bad.stdout.strip().replace("\n", " ")[-200:], "| clean:", good.returncode, good.stdout.strip()[-600:] if good.returncode else "")
        if st != "OK": shutil.rmtree(d)
main()
