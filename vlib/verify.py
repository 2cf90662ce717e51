"""Contract driver: extract -> annotate -> Houdini over candidate loop invariants -> Verus verdict per function."""
import functools, shutil, copy, json, os, re, subprocess, sys, time, hashlib, itertools, importlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
VERUS = os.environ.get("VERUS", "verus")

sys.path.insert(0, VERIF)


def env():
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = "stable"
    e["CARGO_NET_OFFLINE"] = "true"
    e.setdefault("LIBCLANG_PATH", "/usr/lib/llvm-18/lib")
    return e


SCALE = {}   # unit -> function -> resource limit factor of the current attempt


class Fn:
    def __init__(self, spec, props, **kw):
        self.spec = spec
        self.props = props if isinstance(props, list) else [props]
        self.requires = kw.pop("requires", [])
        self.ensures = kw.pop("ensures", [])      # list of str or (label, str)
        self.inv = kw.pop("inv", [])
        self.xinv = kw.pop("xinv", [])            # invariants that need not hold at `break`
        self.lens = kw.pop("lens", [])            # what holds after the loop, however it is left
        self.end = kw.pop("end", [])
        self.entry = kw.pop("entry", [])
        self.start = kw.pop("start", [])          # hints at the start of every loop body
        self.alt = kw.pop("alt", None)            # {"inv": [..], "end": [..], ..}: further templates, only tried when the function fails without them
        self.tail = kw.pop("tail", [])            # hints before the tail expression
        self.attrs = kw.pop("attrs", [])
        self.header = kw.pop("header", None)      # override of the emitted signature position: 'free' | 'inherent'
        self.trusted = kw.pop("trusted", None)    # reason: contract assumed, body not verified
        self.rlimit = kw.pop("rlimit", None)
        self.ret = kw.pop("ret", None)            # override return type text
        self.decr = kw.pop("decr", None)
        self.self_as = kw.pop("self_as", None)    # emit a method as a free function with this self parameter
        self.ptypes = kw.pop("ptypes", {})        # override parameter types by position
        self.generics = kw.pop("generics", None)  # override generics text
        self.name = kw.pop("name", None)          # emitted name
        self.impl = kw.pop("impl", None)          # override impl header type
        self.cases = kw.pop("cases", None)        # (type, expression, [conditions over x]): verify one copy per condition; the conditions must cover the type
        self.spinoff = kw.pop("spinoff", None)
        self.of = None                            # the contract a case belongs to
        assert not kw, kw


class Unit:
    def __init__(self, name, **kw):
        self.name = name
        self.prelude = kw.pop("prelude", ["base"])
        self.types = kw.pop("types", {})
        self.consts = kw.pop("consts", [])
        self.spec = kw.pop("spec", "")
        self.pre_types = kw.pop("pre_types", "")
        self.shims = kw.pop("shims", [])
        self.rename_methods = kw.pop("rename_methods", {})
        self.rename_paths = kw.pop("rename_paths", {})
        self.rename_types = kw.pop("rename_types", {})
        self.extra_contracted = kw.pop("extra_contracted", [])
        self.rlimit = kw.pop("rlimit", 10)
        self.uses = kw.pop("uses", "")
        self.trusted_base = kw.pop("trusted_base", [])
        self.type_edit = kw.pop("type_edit", {})   # name -> function(text, members)->text
        self.broadcast = kw.pop("broadcast", [])
        self.gen_spec = kw.pop("gen_spec", None)   # function(extracted unit) -> text
        self.code_uses = kw.pop("code_uses", "")
        self.lemmas = kw.pop("lemmas", {})   # assumed lemma -> Coq file proving it
        self.alloc_limit = kw.pop("alloc_limit", None)   # elements allocated on the say-so of a number alone: an obligation (C23)
        self.fns = []
        assert not kw, kw

    def fn(self, spec, props, **kw):
        self.fns.append(Fn(spec, props, **kw))


def build_vx():
    t = time.time()
    p = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=os.path.join(VERIF, "vx"),
                       env={**env(), "CARGO_TARGET_DIR": os.path.join(BUILD, "vx")},
                       capture_output=True, text=True)
    if p.returncode != 0:
        raise RuntimeError("vx build failed:\n" + p.stderr[-4000:])
    return time.time() - t


def extract(units):
    job = {"repo": REPO, "expand": ["src/tags.rs"], "units": {}}
    for u in units:
        contracted = [f.spec.replace(" as ", "@@") for f in u.fns]
        c2 = []
        for f in u.fns:
            s = f.spec
            if " as " in s:
                ty, rest = s.split(" as ")
                s = ty + "::" + rest.split("::")[1]
            c2.append(s)
            if f.name:
                c2.append(f.name)
        job["units"][u.name] = {
            "contracted": c2 + u.extra_contracted, "shims": u.shims, "rename_methods": u.rename_methods,
            "rename_paths": {"drop": "vx_drop", "mem::drop": "vx_drop", "std::mem::drop": "vx_drop", **u.rename_paths}, "rename_types": u.rename_types,
            "fns": [f.spec for f in u.fns], "types": u.types, "consts": u.consts,
        }
    os.makedirs(BUILD, exist_ok=True)
    jp = os.path.join(BUILD, "job-%d.json" % os.getpid())
    with open(jp, "w") as f:
        json.dump(job, f)
    p = subprocess.run([os.path.join(BUILD, "vx", "debug", "vx"), jp], capture_output=True, text=True, env=env())
    os.remove(jp)
    if p.returncode != 0:
        raise RuntimeError("vx failed:\n" + p.stderr[-4000:])
    return json.loads(p.stdout)


PLACE = re.compile(r"%([iasfnqe])(\d?)\b")


def field_var(ext, loop, field):
    """The loop variable that ends up in a field of the value the function builds."""
    names = loop["assigned"] + loop["pushed"]
    for m in reversed(list(re.finditer(r"(?m)^\s*%s(,|: ([\s\S]{0,200}))$" % re.escape(field), ext["body"]))):
        if m.group(1) == ",":
            if field in names:
                return field
        else:
            for w in re.findall(r"\w+", m.group(2)):
                if w in names:
                    return w
    return None


@functools.lru_cache(maxsize=1 << 18)
def _search(pat, text):
    return re.search(pat, text)


@functools.lru_cache(maxsize=1 << 16)
def related(c, q, body):
    """Can a counter have to do with a sequence? Not if it runs up to the length of another one and never indexes this one."""
    m = re.search(r"while %s < (\w+)\b" % c, body)
    m = m and re.search(r"let %s = (\w+)\.len\(\);" % m.group(1), body)
    if not m or m.group(1) == q:
        return True
    al = {c}
    for _ in range(2):
        al |= {x for a in list(al) for x in re.findall(r"let (?:mut )?(\w+)(?:: \w+)? = %s;" % a, body)}
    al = "|".join(al)
    return bool(re.search(r"\b%s\s*\[[^\]]*\b(?:%s)\b" % (q, al), body) or re.search(r"\b%s,\s*(?:%s)\b" % (q, al), body) or re.search(r"\b%s\.vx_\w+\([^)]*\b(?:%s)\b" % (q, al), body))


def instantiate(t, loop, nonint=(), ext=None):
    """Instantiate a candidate template over the names visible at a loop."""
    # the variable assigned in a match arm
    for k in re.findall(r"%k\{([^}]*)\}", t):
        m = _search(r"%s => (?:\{\s*)?(\w+) = " % re.escape(k), ext["body"])
        if not m or m.group(1) not in loop["scope"]:
            return []
        t = t.replace("%k{" + k + "}", m.group(1))
    vs = {f: field_var(ext, loop, f) for f in re.findall(r"%v\{(\w+)\}", t)}
    if None in vs.values():
        return []
    t = re.sub(r"%v\{(\w+)\}", lambda m: vs[m.group(1)], t)
    keys = []
    for m in PLACE.finditer(t):
        k = m.group(1) + m.group(2)
        if k not in keys:
            keys.append(k)
    pools = {
        "i": [n for n in loop["assigned"] if n != "self" and n not in nonint],
        "n": [n for n in loop["assigned"] if ext and _search(r"\b%s (\+=|= %s \+)" % (n, n), ext["body"])],
        "a": loop["pushed"],
        "s": loop["assigned"] + [p for p in loop["pushed"] if p not in loop["assigned"]],
        "f": [n for n in loop["scope"] if n not in loop["assigned"] and n not in loop["pushed"] and n != "self"],
    }
    # fixed names something is read from by index or reference
    pools["q"] = [n for n in pools["f"] if ext and _search(r"&%s\b|\b%s\[" % (n, n), ext["body"])]
    # fixed names a loop counter runs up to
    pools["e"] = [n for n in pools["f"] if ext and any(_search(r"\b%s < %s\b" % (i, n), ext["body"]) for i in pools["i"])]
    out = []
    for combo in itertools.product(*[pools[k[0]] for k in keys]):
        if len(set(combo)) != len(combo):
            continue
        d = dict(zip(keys, combo))
        if ext and any(not related(d[c], d[q], ext["body"]) for c in d if c[0] in "ni" for q in d if q[0] == "q"):
            continue
        out.append(PLACE.sub(lambda m: d[m.group(1) + m.group(2)], t))
    return out


def measure(head):
    """What shrinks in `while a < b && ...`, by the shape of its condition."""
    m = re.match(r"^\s*while\s+\(*([^<>=!&|]+?)\s*(<=?|>=?|!=)\s*([^<>=!&|]+?)\)*\s*(?:&&.*)?$", head)
    if not m:
        return []
    a, o, b = m.group(1).strip(), m.group(2), m.group(3).strip()
    if a.count("(") != a.count(")") or b.count("(") != b.count(")"):
        return []
    up, down = f"({b}) as int - ({a}) as int", f"({a}) as int - ({b}) as int"
    if o.endswith("=") and o != "!=":
        up, down = up + " + 1", down + " + 1"
    return [up] if o[0] == "<" else [down] if o[0] == ">" else [up, down]


class Emit:
    """Text with a line -> (kind, fn, label) map."""

    def __init__(self):
        self.lines = []
        self.map = {}
        self.heads = {}   # line of a loop head -> (function, loop)
        self.loops = {}   # function -> loop -> it has a measure

    def add(self, text, tag=None):
        for l in text.split("\n"):
            self.lines.append(l)
            if tag is not None:
                self.map[len(self.lines)] = tag

    def text(self):
        return "\n".join(self.lines) + "\n"


def subst(s, ext, fn=None):
    """$0.. -> parameter names, $r -> result, $in0 -> ghost snapshot"""
    def r(m):
        k = m.group(1)
        if k == "r":
            return "vx_res"
        if k.startswith("in"):
            return "vx_in" + k[2:]
        i = int(k)
        ps = [p for p in ext["params"]]
        if i >= len(ps):
            return "vx_missing_param"
        return ps[i]["name"]
    return re.sub(r"\$(in\d+|r\b|\d+)", r, s)


def norm_ty(t):
    return re.sub(r"\s+", "", t)


ANNOT = {}   # (unit, function) -> variable -> type, as the compiler infers it from the code alone
NEWVEC = re.compile(r"^(\s*let mut (\w+)) = (Vec::new\(\)|Vec::with_capacity\(.*\)|vx_vec_cap\(.*\)|vx_vec_room\(.*\)|None);$")


def emit_fn(E, u, f, ext, dropped, external, probe=False):
    """Emit one function; `dropped`: set of candidate keys removed so far."""
    name = f.name or ext["name"]
    nonint = {p["name"] for p in ext["params"] if not re.match(r"^(&mut)?[ui](8|16|32|64|size)$", norm_ty(p["ty"]))}
    ens = [(e if isinstance(e, tuple) else ("ensures%d" % i, e)) for i, e in enumerate(f.ensures)]
    tag = ("fn", f.spec, None)
    params = []
    for i, p in enumerate(ext["params"]):
        txt = p["text"]
        if i in f.ptypes:
            m = "mut " if p.get("mut") else ""
            txt = f"{m}{p['name']}: {f.ptypes[i]}"
        if external:
            txt = re.sub(r"^mut ", "", txt)
        params.append(txt)
    ret = f.ret or ext["ret"]
    gen = f.generics if f.generics is not None else ext["generics"].replace("'a", "'a")
    where = ext["where"]
    im = ext["impl"]
    if f.impl:
        E.add(f"impl {f.impl} {{", tag)
    elif im is not None:
        E.add(f"impl{im['generics']} {im['ty']} {im['where']} {{", tag)
    if external:
        E.add("#[verifier::external_body]", tag)
    else:
        E.add("#[verifier::exec_allows_no_decreases_clause]", tag)
        E.add("#[verifier::loop_isolation(false)]", tag)
        if f.xinv or f.lens:
            E.add("#[verifier::allow_complex_invariants]", tag)
        E.add("#[allow(unused_mut, unused_parens, unused_variables, unreachable_code)]", tag)
        E.add("#[verifier::rlimit(%d)]" % ((f.rlimit or u.rlimit) * SCALE.get(u.name, {}).get(f.spec, 1)), tag)
        if f.spinoff if f.spinoff is not None else f.of or f.inv or f.rlimit:   # a solver of its own: faster, and other functions cannot disturb it
            E.add("#[verifier::spinoff_prover]", tag)
        for a in f.attrs:
            E.add(a, tag)
    E.add(f"pub fn {name}{gen}({', '.join(params)}) -> (vx_res: {ret})" if ret != "()" else f"pub fn {name}{gen}({', '.join(params)})", tag)
    if where.strip():
        E.add(where, tag)
    if f.requires:
        E.add("requires", tag)
        for i, r in enumerate(f.requires):
            E.add("    " + subst(r, ext).replace("\n", " ") + ",", ("req", f.spec, "requires%d" % i))
    if ens:
        E.add("ensures", tag)
        for (l, e) in ens:
            E.add("    " + subst(e, ext).replace("\n", " ") + ",", ("ens", f.spec, l))
    E.add("{", tag)
    if external:
        E.add("    unimplemented!()", tag)
    else:
        for i, p in enumerate(ext["params"]):
            if p["name"] != "self":
                nt = norm_ty(f.ptypes.get(i, p["ty"]))
                if re.match(r"^(&(mut)?)?(\[|Vec<)", nt):
                    E.add(f"    let ghost vx_in{i} = {p['name']}@;", tag)
                elif nt.startswith("&"):
                    E.add(f"    let ghost vx_in{i} = *{p['name']};", tag)
                else:
                    E.add(f"    let ghost vx_in{i} = {p['name']};", tag)
            else:
                E.add("    let ghost vx_in0 = *self;" if "&" in p["text"] else "    let ghost vx_in0 = self;", tag)
        for j, h in enumerate(f.entry if not probe else []):
            emit_hint(E, subst(h, ext), (f.spec, "entry", 0, j, 0), dropped)
        seen = {}   # name -> how many declarations without a type so far
        for line in ext["body"].strip("\n").split("\n"):
            m = re.match(r"^(\s*)__vx_(inv|end)!\((\d+)\);\s*$", line)
            if not m:
                d = NEWVEC.match(line)
                if d:
                    seen[d.group(2)] = seen.get(d.group(2), 0) + 1
                ty = d and ANNOT.get((u.name, f.spec), {}).get((d.group(2), seen[d.group(2)]))
                E.add(f"{d.group(1)}: {ty} = {d.group(3)};" if ty else line, tag)
                continue
            if probe:
                if m.group(2) == "end":
                    for nm in set(seen) & set(ext["loops"][int(m.group(3))]["pushed"] + ext["loops"][int(m.group(3))]["assigned"]):
                        E.add(f"let vx_probe: VxProbe = {nm};", ("probe", f.spec, (nm, seen[nm])))
                continue
            k = int(m.group(3))
            loop = ext["loops"][k]
            if m.group(2) == "inv":
                # take back the opening brace
                idx = len(E.lines) - 1
                assert E.lines[idx].rstrip().endswith("{"), E.lines[idx]
                E.lines[idx] = E.lines[idx].rstrip()[:-1].rstrip()
                E.heads[idx + 1] = (f.spec, k)
                for kw, kind, cands in (("invariant_except_break", "xinv", f.xinv), ("invariant", "inv", f.inv), ("ensures", "lens", f.lens)):
                    any_inv = False
                    for j, t in enumerate(cands):
                        for n, c in enumerate(instantiate(subst(t, ext), loop, nonint, ext)):
                            key = (f.spec, kind, k, j, n)
                            if key in dropped:
                                continue
                            if not any_inv:
                                E.add("        " + kw, tag)
                                any_inv = True
                            E.add("            " + c.replace("\n", " ") + ",", ("cand", f.spec, key))
                decr = [c for t in f.decr or [] for c in instantiate(subst(t, ext), loop, nonint, ext)] + measure(E.lines[idx])
                E.loops.setdefault(f.spec, {})[k] = False
                for n, c in enumerate(decr):
                    if (f.spec, "decr", k, 0, n) not in dropped:
                        E.add("        decreases " + c.replace("\n", " ") + ",", ("cand", f.spec, (f.spec, "decr", k, 0, n)))
                        E.loops[f.spec][k] = True
                        break
                E.add("        {", tag)
                # snapshots of the loop state at the head of the body: vp_X (view), vi_X (integer)
                used = " ".join(c for t in f.start + f.end for c in instantiate(subst(t, ext), loop, nonint, ext))
                for n, nm in enumerate(sorted(set(loop["assigned"] + loop["pushed"]))):
                    if nm == "self":
                        E.add("    let ghost vp_self = *self;", tag)
                        continue
                    for kind, e in (("vp", nm + "@"), ("vi", nm + " as int")):
                        if kind == "vi" and nm in loop["pushed"] or not re.search(r"\b%s_%s\b" % (kind, nm), used):
                            continue
                        key = (f.spec, kind, k, 0, n)
                        if key not in dropped:
                            E.add(f"    let ghost {kind}_{nm} = {e};", ("cand", f.spec, key))
                for j, t in enumerate(f.start):
                    for n, c in enumerate(instantiate(subst(t, ext), loop, nonint, ext)):
                        emit_hint(E, c, (f.spec, "start", k, j, n), dropped)
            else:
                for j, t in enumerate(f.end):
                    for n, c in enumerate(instantiate(subst(t, ext), loop, nonint, ext)):
                        emit_hint(E, c, (f.spec, "end", k, j, n), dropped)
    E.add("}", tag)
    if f.impl or im is not None:
        E.add("}", tag)
    E.add("")


def emit_hint(E, h, key, dropped):
    if key in dropped:
        return
    E.add("    proof { " + h.replace("\n", " ") + " }", ("cand", key[0], key))


def place_tail_hints(body, hints):
    return body


def read_prelude(name):
    from contracts import _prelude
    return _prelude.ALL[name]


def infer(u, ext, path, external):
    """Ask the compiler for the types of fresh vectors and options, so that candidates cannot influence them."""
    for f in u.fns:
        ANNOT.pop((u.name, f.spec), None)
    E = gen(u, ext, {}, external, {}, True, probe=True)
    if not any(v[0] == "probe" for v in E.map.values()):
        return
    with open(path, "w") as fh:
        fh.write(E.text())
    r = run_verus(path, ("--no-verify",), timeout=120)
    for e in r["errors"]:
        for s in e["spans"]:
            t = E.map.get(s["line"])
            m = re.search(r"expected `VxProbe`, found `(.*)`$", s["label"] or "")
            if t and t[0] == "probe" and m and not re.search(r"\.\.\.|\b_\b|[{}'#]", m.group(1)):
                ANNOT.setdefault((u.name, t[1]), {})[t[2]] = m.group(1)


def gen(u, ext, dropped, external, removed, typed=True, probe=False):
    E = Emit()
    E.add("#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_braces, non_snake_case, unused_assignments, unreachable_patterns, unreachable_code, non_upper_case_globals, non_camel_case_types)]")
    E.add("use vstd::prelude::*;\n" + u.uses)
    E.add("verus! {")
    for n in u.prelude:
        E.add(read_prelude(n), ("prelude", n, None))
    E.add("pub open spec fn vx_cap_limit() -> int { %d }" % (u.alloc_limit or 2 ** 64), ("spec", None, None))
    E.add(u.pre_types, ("spec", None, None))
    for n, t in ext["types"].items():
        if t.get("ok"):
            txt = t["text"]
            if n in u.type_edit:
                txt = u.type_edit[n](txt, t["members"])
            E.add(txt, ("type", n, None))
    for n, t in ext["consts"].items():
        if t.get("ok"):
            E.add(t["text"], ("const", n, None))
    E.add(u.spec, ("spec", None, None))
    if u.gen_spec:
        E.add(u.gen_spec(ext), ("spec", None, None))
    E.add("pub mod vx_code {\nuse super::*;\n" + u.code_uses)
    if "base" in u.prelude:
        E.add("broadcast use {%s};" % ", ".join(["vx_lemmas::lemma_subrange2"] + u.broadcast))
    for f in u.fns:
        x = ext["fns"][f.spec]
        if f.spec in removed or not x.get("ok") or (f.of and not typed and not f.spec.endswith("#0")):
            continue
        emit_fn(E, u, f, x, dropped, f.spec in external, probe)
        if f.cases and not f.of:
            E.add(f"pub proof fn vx_cases_{re.sub('[^A-Za-z0-9]', '_', f.spec)}(x: {f.cases[0]}) ensures {' || '.join('(' + c + ')' for c in f.cases[2])}, {{}}", ("fn", f.spec, None))
    if probe:
        E.add("pub struct VxProbe;")
    E.add("} // mod vx_code")
    E.add("fn main() {}")
    E.add("} // verus!")
    return E


def run_verus(path, extra=(), timeout=600):
    t = time.time()
    cmd = [VERUS, path, "--output-json", "--time", "--multiple-errors", "40", "--error-format=json", "--num-threads", "8", "--rlimit", "60", *extra]   # the limit of the lemmas; functions have their own
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=env(), cwd=os.path.dirname(path))
        out, err, rc = p.stdout, p.stderr, p.returncode
    except subprocess.TimeoutExpired:
        return {"timeout": True, "errors": [], "wall": time.time() - t, "results": {}, "raw": "timeout", "cmd": " ".join(cmd)}
    errs = []
    for line in err.split("\n"):
        line = line.strip()
        if not line.startswith("{"):
            continue
        try:
            m = json.loads(line)
        except Exception:
            continue
        if m.get("level") in ("error",) and m.get("spans"):
            errs.append({"msg": m["message"], "code": (m.get("code") or {}).get("code") if m.get("code") else None,
                         "spans": [{"line": s["line_start"], "end": s["line_end"], "primary": s["is_primary"], "label": s.get("label"), "text": (s["text"][0]["text"].strip() if s.get("text") else ""),
                                    "file": s["file_name"]} for s in m["spans"]],
                         "rendered": m.get("rendered", "")})
        elif m.get("level") == "error" and not m.get("spans"):
            errs.append({"msg": m["message"], "code": None, "spans": [], "rendered": m.get("rendered", "")})
    res = {}
    try:
        res = json.loads(out[out.index("{"):])
    except Exception:
        pass
    return {"errors": errs, "wall": time.time() - t, "results": res, "raw": err, "rc": rc, "cmd": " ".join(cmd)}


def is_compile_failure(r):
    vr = r["results"].get("verification-results", {})
    if bool(vr.get("encountered-vir-error")) or "verified" not in vr:
        return True
    # rustc errors come with an error code or no verification at all
    if any(e["code"] for e in r["errors"]):
        return True
    return bool(r["errors"]) and not vr.get("verified") and not vr.get("errors")


def crashed(r):
    return r["rc"] not in (0, 1) or "panicked at" in r["raw"]


def culprits(u, ext_unit, dropped, external, removed, path):
    """The functions the verifier itself fails on, found by giving it one body at a time."""
    from concurrent.futures import ThreadPoolExecutor
    todo = [f.spec for f in u.fns if f.spec not in external and f.spec not in removed and ext_unit["fns"][f.spec].get("ok")]

    def one(k):
        p = "%s__%s.rs" % (path[:-3], re.sub(r"\W", "_", k))
        E = gen(u, ext_unit, dropped, {**external, **{o: "set aside" for o in todo if o != k}}, removed, False)
        with open(p, "w") as fh:
            fh.write(E.text())
        try:
            return k, run_verus(p, ("--no-verify",), timeout=120)
        finally:
            os.remove(p)
    with ThreadPoolExecutor(8) as ex:
        return {k: "the verifier stops on it: " + next((l for l in r["raw"].split("\n") if "panicked" in l), "")[:100] + " "
                + next((b for a, b in zip(r["raw"].split("\n"), r["raw"].split("\n")[1:]) if "panicked" in a), "")[:100]
                for k, r in ex.map(one, todo) if not r.get("timeout") and crashed(r)}


def verify_unit(u, ext_unit, workdir, log=None, max_rounds=40, prop=None, deadline=480):
    """Returns per-function verdicts; a function with cases is verified one copy per case."""
    if not any(f.cases for f in u.fns):
        return verify_unit1(u, ext_unit, workdir, log, max_rounds, prop, deadline)
    v = copy.copy(u)
    v.fns, ext = [], {**ext_unit, "fns": dict(ext_unit["fns"])}
    for f in u.fns:
        v.fns.append(f)
        if not f.cases or not ext_unit["fns"][f.spec].get("ok"):
            continue
        for k, c in enumerate(f.cases[2]):
            g = copy.copy(f)
            g.of, g.spec = f.spec, "%s#%d" % (f.spec, k)
            g.requires = f.requires + [re.sub(r"\bx\b", lambda m: f.cases[1], c)]
            g.name = "%s__case%d" % (f.name or ext_unit["fns"][f.spec]["name"], k)
            v.fns.append(g)
            ext["fns"][g.spec] = ext_unit["fns"][f.spec]
    r = verify_unit1(v, ext, workdir, log, max_rounds, prop, deadline)
    st = r["status"]
    for f in u.fns:
        if f.cases and any(g.of == f.spec for g in v.fns):
            parts = [st.pop(g.spec) for g in v.fns if g.of == f.spec] + ([st[f.spec]] if st[f.spec]["status"] == "failed" else [])
            bad = [x for x in parts if x["status"] == "failed"]
            rest = [x for x in parts if x["status"] != "verified"]
            if bad:
                st[f.spec] = {"status": "failed", "errors": [e for x in bad for e in x["errors"]]}
            else:
                st[f.spec] = rest[0] if rest else {"status": "verified", "cases": len(parts)}
    return r


def verify_unit1(u, ext_unit, workdir, log=None, max_rounds=40, prop=None, deadline=480):
    os.makedirs(workdir, exist_ok=True)
    path = os.path.join(workdir, u.name + ".rs")
    dropped, external, removed = {}, {}, {}
    rounds, started = 0, time.time()
    SCALE.pop(u.name, None)
    status = {f.spec: {"status": "unknown"} for f in u.fns}
    for f in u.fns:
        x = ext_unit["fns"][f.spec]
        if not x.get("ok"):
            status[f.spec] = {"status": "unsupported", "why": x["error"]}
        elif f.trusted:
            external[f.spec] = "trusted: " + f.trusted
        elif f.cases and not f.of:
            external[f.spec] = "cases"
    last = None
    typed = False     # candidates that do not type-check are dropped first, in rounds without the solver
    sibs = {}
    for f in u.fns:
        if f.of:
            sibs.setdefault(f.of, []).append(f.spec)
    infer(u, ext_unit, path, external)
    while rounds < max_rounds:
        rounds += 1
        E = gen(u, ext_unit, dropped, external, removed, typed)
        with open(path, "w") as fh:
            fh.write(E.text())
        left = deadline - (time.time() - started)
        if left < 5:
            break
        r = run_verus(path, () if typed else ("--no-verify",), timeout=left)
        last = r
        if log:
            log(f"  [{u.name}] round {rounds}: {len(r['errors'])} errors, {r['wall']:.1f}s, dropped {len(dropped)}")
        if r.get("timeout"):
            return {"status": {f.spec: {"status": "unknown", "why": "verus timed out"} for f in u.fns}, "rounds": rounds, "last": r, "file": path, "fatal": "timeout"}
        if crashed(r):
            bad = culprits(u, ext_unit, dropped, external, removed, path)
            for k in list(bad):
                for o in sibs.get(k.split("#")[0], []):
                    bad[o] = bad[k]
            if bad:
                external.update(bad)
                continue
            return {"status": {f.spec: {"status": "unsupported", "why": "verus failed: " + r["raw"][-600:]} for f in u.fns}, "rounds": rounds, "last": r, "file": path, "fatal": "crash"}
        comp = is_compile_failure(r)
        if not typed and not comp:
            typed = True
            continue
        newdrop, newext, hard = {}, {}, []
        for e in r["errors"]:
            tags = []
            for s in e["spans"]:
                if os.path.basename(s["file"]) == os.path.basename(path):
                    if s["line"] == 1:
                        continue
                    for ln in ([s["line"]] if s["end"] - s["line"] > 5 else range(s["line"], s["end"] + 1)):
                        if ln in E.map:
                            tags.append((E.map[ln], s["primary"], s))
            if e["msg"].startswith("aborting due to"):
                continue
            prim = [t for t in tags if t[1]]
            if "decreases not satisfied" in e["msg"]:
                # termination is a claim of its own: given up, not failed
                heads = [E.heads[t[2]["line"]] for t in tags if t[2]["line"] in E.heads]
                for f in u.fns:
                    if any(t[0][1] == f.spec for t in tags):
                        for k in {v[2] for v in E.map.values() if v[0] == "cand" and v[1] == f.spec and v[2][1] == "decr"}:
                            if not heads or (k[0], k[2]) in heads:
                                newdrop[k] = (rounds, e["msg"], "decreases")
                continue
            cand = [t for t in prim if t[0][0] == "cand"] or ([t for t in tags if t[0][0] == "cand"] if comp or not prim else [])
            if "invariant not satisfied" in e["msg"] and not cand:
                cand = [t for t in tags if t[0][0] == "cand"]
            if cand:
                newdrop[cand[0][0][2]] = (rounds, e['msg'], E.lines[cand[0][2]['line'] - 1].strip())
                continue
            fnt = [t for t in prim if t[0][0] in ("fn", "req", "ens")] or [t for t in tags if t[0][0] in ("fn", "req", "ens")]
            if comp:
                if fnt:
                    newext[fnt[0][0][1]] = e["msg"] + " at: " + fnt[0][2]["text"][:160]
                else:
                    hard.append(e)
            else:
                hard.append((e, fnt))
        if comp:
            for k in list(newdrop):
                for o in sibs.get(k[0].split("#")[0], []):
                    newdrop[(o, *k[1:])] = newdrop[k]
            for k in list(newext):
                for o in sibs.get(k.split("#")[0], []):
                    newext[o] = newext[k]
        if newdrop and comp:
            # a candidate of the wrong type can make the code around it ill-typed
            newext = {k: w for k, w in newext.items() if not any(d[0] == k for d in newdrop)}
        if newdrop and not (comp and newext):
            dropped.update(newdrop)
            continue
        if comp:
            if newext:
                prog = False
                for k, why in newext.items():
                    if k not in external:
                        external[k] = why
                        prog = True
                    elif k not in removed:
                        removed[k] = why
                        prog = True
                if prog:
                    continue
            return {"status": {f.spec: {"status": "unsupported", "why": "unit does not compile: " + "; ".join(e["msg"] for e in r["errors"][:4])} for f in u.fns},
                    "rounds": rounds, "last": r, "file": path, "fatal": "compile", "external": external}
        # verification verdict
        failed = {}
        stray = []
        for (e, fnt) in hard:
            # the function containing the primary span
            ens = [t for t in fnt if t[0][0] in ("ens",)]
            pf = [t for t in fnt if t[0][0] == "fn"]
            tgt = None
            if "postcondition not satisfied" in e["msg"] and ens:
                tgt = (ens[0][0][1], ens[0][0][2])
            elif pf and "vx_cap_limit" in e["rendered"]:
                tgt = (pf[0][0][1], "C23:allocation-bounded")
            elif pf:
                tgt = (pf[0][0][1], e["msg"])
            elif fnt:
                tgt = (fnt[0][0][1], e["msg"])
            if tgt is None:
                stray.append(e)
                continue
            failed.setdefault(tgt[0], []).append({"obligation": tgt[1], "msg": e["msg"], "rendered": e["rendered"]})
        # out of resources is not yet a refusal: once more with a larger limit
        again = [k for k, v in failed.items() if any("esource limit" in e["msg"] for e in v) and k not in SCALE.get(u.name, {})]
        if again and time.time() - started < deadline / 2:
            for k in again:
                SCALE.setdefault(u.name, {})[k] = 6
            continue
        # nor is a failure with the usual templates: once more with the rarer ones
        more = [f for f in u.fns if f.spec in failed and f.alt]
        if more and time.time() - started < deadline / 2:
            u = copy.copy(u)
            u.fns = list(u.fns)
            for f in more:
                g = copy.copy(f)
                for k, v in f.alt.items():
                    setattr(g, k, getattr(g, k) + v)
                g.alt = None
                u.fns[u.fns.index(f)] = g
                for k in [k for k in dropped if k[0] == f.spec]:
                    del dropped[k]
            typed = False
            continue
        for f in u.fns:
            s = f.spec
            if status[s]["status"] == "unsupported" and not ext_unit["fns"][s].get("ok"):
                continue
            if s in removed:
                status[s] = {"status": "unsupported", "why": removed[s]}
            elif s in external and external[s] == "cases":
                status[s] = {"status": "failed", "errors": failed[s]} if s in failed else {"status": "verified"}
            elif s in external:
                status[s] = {"status": "trusted" if external[s].startswith("trusted: ") else "unsupported", "why": external[s]}
            elif s in failed:
                status[s] = {"status": "failed", "errors": failed[s]}
            else:
                status[s] = {"status": "verified"}
        vr = r["results"].get("verification-results", {})
        # nothing counts as verified unless the verifier says so itself
        if not (stray or failed) and not (vr.get("success") and vr.get("verified")):
            return {"status": {k: (v if v["status"] != "verified" else {"status": "unknown", "why": "no verdict of the verifier"}) for k, v in status.items()}, "rounds": rounds, "last": r, "file": path, "fatal": "no verdict"}
        if stray:
            # a lemma that is not proved: what was proved with it does not count
            status = {k: (v if v["status"] != "verified" else {"status": "unknown", "why": "a lemma of the unit was not proved: " + stray[0]["msg"]}) for k, v in status.items()}
            return {"status": status, "rounds": rounds, "last": r, "file": path, "fatal": "stray", "stray": stray, "dropped": dropped}
        return {"status": status, "rounds": rounds, "last": r, "file": path, "verified": vr.get("verified"), "errors": vr.get("errors"),
                "times": r["results"].get("times-ms", {}), "dropped": dropped, "cmd": r["cmd"], "loops": E.loops}
    return {"status": status, "rounds": rounds, "last": last, "file": path, "fatal": "rounds"}


def verify(u, ext_unit, workdir, log=None, prop=None, deadline=480):
    """verify_unit, and if the contract of an internal function is not met (its interface may have been reworked), once more
    without that function: its callers then inline it, and what they promise has to follow from its body."""
    t = time.time()
    r = verify_unit(u, ext_unit, workdir, log, prop=prop, deadline=deadline)
    bad = [k for k, v in r["status"].items() if v["status"] == "failed"]
    soft = [k for k in bad if not ext_unit["fns"][k].get("public", True)]
    if not soft or time.time() - t > deadline / 2:
        return r, ext_unit
    v = copy.copy(u)
    v.fns = [f for f in u.fns if f.spec not in soft]
    if not v.fns:
        return r, ext_unit
    ext2 = extract([v])["units"][u.name]
    if not all(any(k.split("::")[-1] in str(i) for f in v.fns for i in (ext2["fns"][f.spec].get("inlined") or [])) for k in soft):
        return r, ext_unit
    r2 = verify_unit(v, ext2, workdir, log, prop=prop, deadline=deadline - (time.time() - t))
    if r2.get("fatal") or any(x["status"] != "verified" and r["status"][k]["status"] in ("verified", "failed") for k, x in r2["status"].items()):
        return r, ext_unit
    for k in soft:
        r2["status"][k] = {"status": "inlined"}
    return r2, {**ext2, "fns": {**ext_unit["fns"], **ext2["fns"]}}


def coq_lemma(rel):
    """Have coqc check a lemma file, outside the source tree."""
    d = os.path.join(BUILD, "coq-%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, os.path.basename(rel))
    try:
        shutil.copy(os.path.join(VERIF, rel), f)
        t = time.time()
        p = subprocess.run(["coqc", os.path.basename(f)], cwd=d, capture_output=True, text=True, timeout=300)
        return {"file": rel, "back_end": "coqc (Flocq)", "accepted": p.returncode == 0, "wall_s": round(time.time() - t, 1), "axioms": re.findall(r"^(?!Axioms)([\w.]+)\s*:", p.stdout, re.M) or re.findall(r"^[\w.]+$", p.stdout, re.M),
                "output": "" if p.returncode == 0 else (p.stderr or p.stdout)[-500:]}
    except Exception as e:  # noqa
        return {"file": rel, "back_end": "coqc (Flocq)", "accepted": False, "output": repr(e)}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def trusted_items(path):
    """Names of the functions and lemmas whose body the verifier does not look at (external_body, assume_specification, admit,
    uninterpreted spec functions) and that are used elsewhere in the generated text: the assumptions behind the accepted obligations."""
    try:
        text = open(path).read()
    except OSError:
        return {}
    out = {"assumed": set(), "uninterpreted": set()}
    owner, pend = "", False
    for l in text.split("\n"):
        m = re.match(r"impl\b(?:<[^{]*?>)?\s*([^{]*?)\s*(?:where[^{]*)?\{", l)
        if m:
            owner = re.sub(r"^.* for ", "", m.group(1)).strip().lstrip("&").replace("mut ", "")
        elif l.startswith("}") or re.match(r"(pub |#\[)", l):
            owner = "" if l.startswith("}") or not m else owner
        pend = pend or "external_body" in l
        if pend:
            m = re.search(r"external_body.*?\bfn\s+(\w+)", l) or (re.search(r"\bfn\s+(\w+)", l) if "external_body" not in l else None)
            if m:
                out["assumed"].add((owner + "::" if owner else "") + m.group(1))
                pend = False
    for m in re.finditer(r"assume_specification(?:<[^\[]*>)?\s*\[\s*([^\]]+?)\s*\]", text):
        out["assumed"].add(m.group(1))
    for m in re.finditer(r"uninterp\s+spec\s+fn\s+(\w+)", text):
        out["uninterpreted"].add(m.group(1))
    for k in out:
        keep = []
        for n in out[k]:
            w = re.escape(n.split("::")[-1].split("<")[0].strip())
            decl = len(re.findall(r"\bfn\s+%s\b" % w, text)) + (1 if re.search(r"assume_specification[^\n]*\b%s\b" % w, text) else 0)
            if len(re.findall(r"\b%s\b" % w, text)) > decl:
                keep.append(n)
        out[k] = sorted(keep)
    return out


def load_units(names=None):
    d = os.path.join(VERIF, "contracts")
    out = []
    for fn in sorted(os.listdir(d)):
        if fn.endswith(".py") and not fn.startswith("_"):
            n = fn[:-3]
            if names is None or n in names:
                out.append(importlib.import_module("contracts." + n).UNIT)
    from contracts._assume import ASSUME
    for u in out:
        u.trusted_base = u.trusted_base + [a for a in ASSUME.get(u.name, []) if a not in u.trusted_base]
    return out


if __name__ == "__main__":
    verbose = "-v" in sys.argv
    units = load_units([a for a in sys.argv[1:] if a != "-v"] or None)
    build_vx()
    ext = extract(units)
    if ext["index_errors"]:
        print("index errors", ext["index_errors"])
    for u in units:
        r, _ = verify(u, ext["units"][u.name], os.path.join(BUILD, "verus"), log=print)
        ls = r.get("loops") or {}
        print(u.name, "loops with a measure: %d of %d" % (sum(sum(v.values()) for v in ls.values()), sum(len(v) for v in ls.values())), [(k, l) for k, v in ls.items() for l, x in v.items() if not x])
        print(u.name, r.get("verified"), "verified", r.get("errors"), "errors", "fatal=%s" % r.get("fatal"), r["file"])
        for k, v in r["status"].items():
            print("   ", k, v["status"], v.get("why", ""))
            for e in v.get("errors", []):
                print("        *", e["obligation"])
                print(e["rendered"])
        if verbose:
            for k, v in (r.get("dropped") or {}).items():
                print("   dropped", k, v)
        if r.get("fatal"):
            for e in r["last"]["errors"][:10]:
                print(e["rendered"])
            if not r["last"]["errors"]:
                print(r["last"]["raw"][-3000:])
