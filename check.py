#!/usr/bin/env python3
"""check.py <property> --tier quick|thorough

1. extracts the functions under contract from /repo's current source (vx) and has Verus discharge their obligations;
2. builds the replay harness against /repo's current tree and searches for a failing input with it.
Exit 0: every obligation accepted (or the function is out of reach: then the bounded search stands in) and no failing input.
Exit 1: VIOLATION line.  Exit 2: no verdict (tooling broken)."""
import argparse, concurrent.futures as cf, json, os, re, resource, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
os.chdir(VERIF)
from vlib import verify as V

FEAT = {"C03": "codecs", "C17": "codecs", "C22": "codecs", "C24": "codecs", "C18": "net", "C21": "nd"}


def hdir(prop):
    return os.path.join(V.BUILD, "harness-" + FEAT.get(prop, "base"))


EVID = os.path.join(VERIF, "evidence")
SECS = {"quick": 20, "thorough": 240}


def build_harness(prop, out):
    t = time.time()
    try:
        p = subprocess.run(["cargo", "build", "--offline", "-q", *(["--features", FEAT[prop]] if prop in FEAT else [])], cwd=os.path.join(VERIF, "harness"),
                           env={**V.env(), "CARGO_TARGET_DIR": hdir(prop)}, capture_output=True, text=True, timeout=800)
        out["ok"], out["log"] = p.returncode == 0, p.stderr[-4000:]
    except Exception as e:  # noqa
        out["ok"], out["log"] = False, repr(e)
    out["wall"] = time.time() - t


def limits():
    g = 1 << 30
    resource.setrlimit(resource.RLIMIT_AS, (14 * g, 14 * g))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_harness(prop, seed, secs, extra=(), timeout=None):
    prog = os.path.join(V.BUILD, f"progress-{prop}-{os.getpid()}")
    cmd = [os.path.join(hdir(prop), "debug", "harness"), prop, "--seed", str(seed), "--secs", str(secs), "--min", "200", "--progress", prog, *extra]
    e = {**V.env(), "RUST_BACKTRACE": "0", "NO_PROXY": "*"}
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, errors="replace", timeout=timeout or secs * 3 + 240, preexec_fn=limits, env=e)
        rc, so, se = p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired:
        rc, so, se = "hang", "", ""
    at = None
    try:
        at = open(prog).read().split()
        os.remove(prog)
    except Exception:
        pass
    res = None
    for l in so.splitlines():
        if l.startswith("{"):
            try:
                res = json.loads(l)
            except Exception:
                pass
    if rc in (0, 1) and res is not None:
        return res
    return {"abnormal": rc, "at": at, "stderr": se[-1500:], "cmd": " ".join(cmd)}


def harness_verdict(prop, seed, secs):
    r = run_harness(prop, seed, secs)
    if "abnormal" not in r:
        return r
    if not r["at"]:
        return {"broken": r}
    suite, case = r["at"]
    # confirm on that one case, so that a killed run is not taken for a finding
    c = run_harness(prop, seed, 5, ["--suite", suite, "--only", case], timeout=120)
    if "abnormal" in c:
        return {"fail": True, "property": prop, "suite": suite, "seed": seed, "case": int(case), "input": f"generated by suite {suite}, seed {seed}, case {case}",
                "observed": f"the process did not survive this input (status {c['abnormal']}): {c['stderr'][-600:]}", "evaluations": int(case) + 1}
    if c.get("fail"):
        return c
    # not reproducible on that case alone: search once more
    r = run_harness(prop, seed, max(5, secs / 2))
    return r if "abnormal" not in r else {"broken": r}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    prop, tier = a.prop, a.tier if a.tier in SECS else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(V.BUILD, exist_ok=True)
    hb = {}
    hx = {}

    def search():
        build_harness(prop, hb)
        hx.update(harness_verdict(prop, seed, SECS[tier]) if hb.get("ok") else {"broken": {"build": hb.get("log")}})
    th = threading.Thread(target=search)
    th.start()

    units = [u for u in V.load_units() if any(prop in f.props and not (f.trusted or '').startswith('@') for f in u.fns)]
    results, ext = {}, {"units": {}}
    tool_error = None
    try:
        V.build_vx()
        if units:
            ext = V.extract(units)
    except Exception as e:  # noqa
        tool_error = str(e)
    if not tool_error and units:
        def go(u):
            try:
                r, x = V.verify(u, ext["units"][u.name], os.path.join(V.BUILD, "verus-%s" % prop), log=lambda s: print(s, flush=True), prop=prop)
                ext["units"][u.name] = x
                return u, r
            except Exception as e:  # noqa
                import traceback
                return u, {"status": {f.spec: {"status": "unknown", "why": "driver: " + traceback.format_exc()[-800:]} for f in u.fns}, "fatal": "driver"}
        with cf.ThreadPoolExecutor(4) as ex:
            for u, r in ex.map(go, units):
                results[u.name] = (u, r)
    th.join()
    hv = hx or {"broken": "the search did not run"}

    # ---- collect
    verified, failed, bounded, trusted, elsewhere = [], [], [], [], {}
    smt_ms = 0
    n_oblig = n_disch = 0
    for name, (u, r) in results.items():
        smt_ms += ((r.get("times") or {}).get("smt") or {}).get("smt-run", 0) or 0
        n_disch += r.get("verified") or 0
        n_oblig += (r.get("verified") or 0) + (r.get("errors") or 0)
        for f in u.fns:
            st = r["status"].get(f.spec, {"status": "unknown"})
            e = ext["units"][u.name]["fns"].get(f.spec, {})
            where = f"{e.get('file')}:{e.get('line')}" if e.get("ok") else None
            rec = {"unit": name, "function": f.spec, "where": where}
            if st["status"] == "inlined":
                continue
            if st["status"] == "trusted" and f.trusted and f.trusted.startswith("@"):
                elsewhere.setdefault(f.trusted[1:], []).append(f.spec)
                continue
            if prop not in f.props:
                # callee or sibling: its contract is assumed when it is not itself discharged here
                if st["status"] in ("unsupported", "unknown", "trusted", "failed"):
                    trusted.append({**rec, "why": st.get("why") or st["status"]})
                continue
            if st["status"] == "verified":
                verified.append({**rec, "contract": [x[0] if isinstance(x, tuple) else x for x in f.ensures], "inlined": e.get("inlined")})
            elif st["status"] == "failed":
                mine = []
                for er in st["errors"]:
                    m = re.match(r"^(C\d+(?:,C\d+)*):", er["obligation"])
                    if m and prop not in m.group(1).split(","):
                        continue
                    mine.append(er)
                if mine:
                    failed.append({**rec, "errors": mine})
                else:
                    verified.append({**rec, "contract": "the clauses of this property"})
            elif st["status"] == "trusted":
                trusted.append({**rec, "why": st.get("why")})
            else:
                bounded.append({**rec, "why": st.get("why")})

    hfail = bool(hv.get("fail"))
    replay = None
    if hfail or failed:
        replay = os.path.join(EVID, f"replay-{prop}.json")
        json.dump({"property": prop, "failing_input": ({k: hv.get(k) for k in ("suite", "seed", "case", "input", "observed")} if hfail else None),
                   "replay_cmd": (f"cd {VERIF} && python3 check.py {prop} (builds the harness), then {os.path.join(hdir(prop), "debug", "harness")} {prop} --seed {hv.get('seed')} --suite {hv.get('suite')} --only {hv.get('case')}" if hfail else None),
                   "failed_obligations": [{"function": x["function"], "where": x["where"], "obligations": [{"name": e["obligation"], "message": e["msg"], "verifier_output": e["rendered"]} for e in x["errors"]]} for x in failed]},
                  open(replay, "w"), indent=1)

    assumptions = []
    seen = set()
    for name, (u, r) in results.items():
        for t in u.trusted_base:
            if t not in seen:
                seen.add(t)
                assumptions.append(t)
    coq = {}
    for name, (u, r) in results.items():
        for n, f in u.lemmas.items():
            coq.setdefault(n, V.coq_lemma(f))
    for n, c in coq.items():
        assumptions.append(f"{n} is stated in the verifier's text without proof; {c['file']} proves it of IEEE 754 binary64 (coqc: {'accepted' if c['accepted'] else 'NOT accepted, so assumed here'}), given that the host's f64 division, conversion and ceil are those of IEEE 754")
    for name, (u, r) in results.items():
        ti = V.trusted_items(r.get("file", ""))
        if ti:
            assumptions.append(f"assumed contracts on std, dependencies and shims used in unit {name} (body not verified): {', '.join(ti['assumed'])}")
            if ti["uninterpreted"]:
                assumptions.append(f"uninterpreted in unit {name} (nothing assumed but that they are functions): {', '.join(ti['uninterpreted'])}")
    for t in trusted:
        assumptions.append(f"assumed contract (not discharged here): {t['unit']}/{t['function']}: {t['why']}")
    for n, fs in elsewhere.items():
        assumptions.append(f"contracts discharged in unit {n} (in this check if it lists that unit, else in the check of another property): {', '.join(fs)}")
    for name, (u, r) in results.items():
        for k, v in (r.get("loops") or {}).items():
            if not all(v.values()):
                assumptions.append(f"termination not shown: {sum(not x for x in v.values())} loop(s) of {name}/{k}")
    for b in bounded:
        assumptions.append(f"bounded stand-in (search only): {b['unit']}/{b['function']}: {b['why']}")
    assumptions += COMMON
    proof_ok = bool(verified) and not failed and not bounded
    hcov = {"evaluations": hv.get("evaluations", 0), "distinct_nontrivial": hv.get("distinct", 0),
            "rule": "a case is one generated input (file, tag set, request history); distinct = distinct generated structure hashes",
            "samples": hv.get("samples", []) or [str(hv.get("input", ""))[:300]]}
    manifest_level = next((c["level"] for c in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"] if c["property"] == prop), "proof")
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": manifest_level,
        "coverage": {
            "obligations": n_oblig, "discharged": n_disch,
            "checker_cmd": "; ".join(r.get("cmd", "") for _, r in results.values() if r.get("cmd")) or "none",
            "trusted_base": sorted({"Verus 0.2026.09.13 + its bundled Z3", "rustc front end of Verus", "vx extraction (EXTRACTION.md)"} | set(a for a in assumptions if a.startswith("assumed"))),
            "functions_under_contract": verified, "functions_bounded_only": bounded, "failed": [{k: x[k] for k in ("unit", "function", "where")} for x in failed],
            "solver_ms": smt_ms,
            "back_end": "Verus/Z3",
            "lemmas": list(coq.values()),
            "termination": {n: {"loops": sum(len(v) for v in (r.get("loops") or {}).values()), "with_accepted_measure": sum(sum(v.values()) for v in (r.get("loops") or {}).values())} for n, (u, r) in results.items()},
            "dropped_candidates": {n: len(r.get("dropped") or {}) for n, (u, r) in results.items()},
            "bounded_search": hcov,
            **hcov,
        },
        "assumptions": assumptions, "wall_s": round(time.time() - t0, 1), "violations": int(hfail or bool(failed)),
    }
    if tool_error:
        ev["assumptions"].append("extraction failed: " + tool_error[:500])
    if hv.get("broken"):
        ev["assumptions"].append("replay harness gave no answer: " + str(hv["broken"])[:500])
    json.dump(ev, open(os.path.join(EVID, f"{prop}.json"), "w"), indent=1)

    kf = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(kf):
        for l in open(kf):
            if l.startswith(f"finding: property={prop} "):
                print("KNOWN-FINDING: " + l[len("finding: "):].strip())
    print(f"{prop}: {len(verified)} functions proved, {len(failed)} failed, {len(bounded)} bounded only, {len(trusted)} assumed; "
          f"search {hcov['evaluations']} cases; {time.time() - t0:.0f}s")
    for b in bounded:
        print("  bounded:", b["unit"], b["function"], "-", str(b["why"])[:200])
    if hfail:
        print(f"  failing input ({hv['suite']} #{hv['case']}): {hv['observed'][:600]}")
        print(f"VIOLATION property={prop} replay={replay}")
        return 1
    if failed:
        for x in failed:
            for e in x["errors"]:
                print("  failed obligation:", x["function"], "-", e["obligation"], "-", e["msg"])
        print(f"VIOLATION property={prop} replay={replay} no-failing-input-found")
        return 1
    if tool_error or (hv.get("broken") and not verified):
        print("no verdict:", tool_error or str(hv.get("broken"))[:2000])
        return 2
    return 0


COMMON = [
    "async/await is erased in the verified text: every await point is treated as a call (the functions hold no state across awaits other than what their contracts mention)",
    "64-bit targets (usize is 64 bits)",
    "allocation never fails",
]

if __name__ == "__main__":
    sys.exit(main())
