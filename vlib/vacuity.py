"""Development check: no contract holds vacuously. Every verified function is verified again with `ensures false` added
(in a copy nobody calls); a copy that verifies means contradictory assumptions."""
import copy, os, sys
from vlib.verify import load_units, build_vx, extract, verify_unit, BUILD


def main():
    units = load_units([a for a in sys.argv[1:]] or None)
    build_vx()
    ext = extract(units)
    bad = 0
    for u in units:
        x = {**ext["units"][u.name], "fns": dict(ext["units"][u.name]["fns"])}
        v = copy.copy(u)
        v.name, v.fns = u.name + "_vac", []
        for f in u.fns:
            v.fns.append(f)
            if f.trusted or not x["fns"][f.spec].get("ok"):
                continue
            g = copy.copy(f)
            g.spec = f.spec + "~vac"
            g.name = (f.name or x["fns"][f.spec]["name"]) + "__vac"
            g.ensures = [("vacuous", "false")]
            g.decr = None
            v.fns.append(g)
            x["fns"][g.spec] = x["fns"][f.spec]
            h = copy.copy(f)
            v.fns[-2] = h
            h.trusted, h.cases = "assumed", None
        r = verify_unit(v, x, os.path.join(BUILD, "verus"))
        for k, s in r["status"].items():
            if k.endswith("~vac") and s["status"] != "failed":
                bad += 1
                print(u.name, k, s["status"], s.get("why", ""))
        print(u.name, r.get("fatal"), sum(1 for k, s in r["status"].items() if s["status"] == "failed"), "not vacuous")
    sys.exit(1 if bad else 0)


main()
