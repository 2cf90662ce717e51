//! vx: mechanical extraction of functions of the crate in /repo into Verus text.
//!
//! usage: vx JOB.json  (writes JSON on stdout)
mod index;
mod xform;
use index::*;
use quote::{quote, ToTokens};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::{self, Visit};
use syn::visit_mut::VisitMut;
use syn::*;
use xform::*;

fn strs(v: &Value) -> Vec<String> {
    v.as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(String::from)).collect()).unwrap_or_default()
}
fn smap(v: &Value) -> BTreeMap<String, String> {
    v.as_object()
        .map(|o| o.iter().filter_map(|(k, v)| v.as_str().map(|s| (k.clone(), s.to_string()))).collect())
        .unwrap_or_default()
}

/// Which in-scope names does each loop assign, push to, or mutably borrow?
struct LoopInfo {
    stack: Vec<usize>,
    assigned: BTreeMap<usize, BTreeSet<String>>,
    pushed: BTreeMap<usize, BTreeSet<String>>,
    kinds: BTreeMap<usize, String>,
    /// parameters that are mutable references
    muts: BTreeSet<String>,
}
fn root(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
        Expr::Field(f) => root(&f.base),
        Expr::Index(i) => root(&i.expr),
        Expr::Paren(p) => root(&p.expr),
        Expr::Unary(u) => root(&u.expr),
        Expr::Reference(r) => root(&r.expr),
        _ => None,
    }
}
impl LoopInfo {
    fn note(&mut self, e: &Expr, push: bool) {
        if let Some(r) = root(e) {
            for k in self.stack.clone() {
                let m = if push { &mut self.pushed } else { &mut self.assigned };
                m.entry(k).or_default().insert(r.clone());
            }
        }
    }
    fn enter(&mut self, b: &Block, kind: &str) -> bool {
        for s in &b.stmts {
            if let Stmt::Macro(m) = s {
                if m.mac.path.is_ident("__vx_inv") {
                    let k: usize = m.mac.tokens.to_string().trim().parse().unwrap();
                    self.stack.push(k);
                    self.kinds.insert(k, kind.to_string());
                    return true;
                }
            }
        }
        false
    }
}
impl<'a> Visit<'a> for LoopInfo {
    fn visit_expr_while(&mut self, w: &'a ExprWhile) {
        let p = self.enter(&w.body, "while");
        visit::visit_expr_while(self, w);
        if p {
            self.stack.pop();
        }
    }
    fn visit_expr_loop(&mut self, w: &'a ExprLoop) {
        let p = self.enter(&w.body, "loop");
        visit::visit_expr_loop(self, w);
        if p {
            self.stack.pop();
        }
    }
    fn visit_expr_assign(&mut self, a: &'a ExprAssign) {
        self.note(&a.left, false);
        visit::visit_expr_assign(self, a);
    }
    fn visit_expr_binary(&mut self, b: &'a ExprBinary) {
        use BinOp::*;
        if matches!(b.op, AddAssign(_) | SubAssign(_) | MulAssign(_) | DivAssign(_) | RemAssign(_) | BitXorAssign(_) | BitAndAssign(_) | BitOrAssign(_) | ShlAssign(_) | ShrAssign(_)) {
            self.note(&b.left, false);
        }
        visit::visit_expr_binary(self, b);
    }
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        let n = m.method.to_string();
        if matches!(n.as_str(), "push" | "extend" | "vx_extend" | "extend_from_slice" | "append") {
            self.note(&m.receiver, true);
        } else if matches!(n.as_str(), "insert" | "copy_from_slice" | "remove" | "swap" | "reverse" | "fill" | "push_str" | "clear" | "truncate" | "pop" | "resize" | "next" | "vx_take" | "drain" | "entry") || n.starts_with("vx_slm") {
            self.note(&m.receiver, false);
        }
        visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_path(&mut self, p: &'a ExprPath) {
        if let Some(i) = p.path.get_ident() {
            if self.muts.contains(&i.to_string()) {
                self.note(&Expr::Path(p.clone()), false);
            }
        }
    }
    fn visit_expr_reference(&mut self, r: &'a ExprReference) {
        if r.mutability.is_some() {
            self.note(&r.expr, false);
        }
        visit::visit_expr_reference(self, r);
    }
}

fn ret_kind(o: &ReturnType) -> Option<bool> {
    match o {
        ReturnType::Type(_, t) => match type_name(t).as_deref() {
            Some("Option") => Some(true),
            Some(n) if n.ends_with("Result") => Some(false),
            _ => None,
        },
        _ => None,
    }
}

fn do_fn(ix: &Crate, cfg: &Config, spec: &str) -> std::result::Result<Value, String> {
    let f = ix.find(spec).ok_or(format!("function {spec} not found"))?;
    let mut x = X::new(cfg, ix, f.self_ty.clone());
    let mut params = vec![];
    let mut names = vec![];
    let mut pre: Vec<Stmt> = vec![];
    let mut mut_self = false;
    for (i, a) in f.sig.inputs.iter().enumerate() {
        match a {
            FnArg::Receiver(r) => {
                let text = match (&r.reference, &r.mutability) {
                    (Some(_), Some(_)) => "&mut self",
                    (Some(_), None) => "&self",
                    (None, Some(_)) => {
                        mut_self = true;
                        "self"
                    }
                    (None, None) => "self",
                };
                params.push(json!({"name": "self", "text": text, "ty": "Self"}));
                names.push("self".to_string());
            }
            FnArg::Typed(t) => {
                let ty = x.ty((*t.ty).clone());
                match &*t.pat {
                    Pat::Ident(p) => {
                        let n = p.ident.to_string();
                        let m = if p.mutability.is_some() { "mut " } else { "" };
                        params.push(json!({"name": n, "text": format!("{m}{n}: {}", quote!(#ty)), "ty": quote!(#ty).to_string(), "mut": p.mutability.is_some()}));
                        names.push(n);
                    }
                    Pat::Wild(_) => {
                        let n = format!("vx_arg{i}");
                        params.push(json!({"name": n, "text": format!("{n}: {}", quote!(#ty)), "ty": quote!(#ty).to_string()}));
                        names.push(n);
                    }
                    p => {
                        let n = quote::format_ident!("vx_arg{}", i);
                        pre.push(parse_quote!(let #p = #n;));
                        params.push(json!({"name": n.to_string(), "text": format!("{n}: {}", quote!(#ty)), "ty": quote!(#ty).to_string()}));
                        names.push(n.to_string());
                    }
                }
            }
        }
    }
    let ret = match &f.sig.output {
        ReturnType::Default => "()".to_string(),
        ReturnType::Type(_, t) => {
            let t = x.ty((**t).clone());
            quote!(#t).to_string()
        }
    };
    let mut block = f.block.clone();
    for s in pre.into_iter().rev() {
        block.stmts.insert(0, s);
    }
    let body = x.body(block, ret_kind(&f.sig.output))?;
    let mut body = body;
    if mut_self {
        // `mut self`: a local copy
        struct S;
        impl syn::visit_mut::VisitMut for S {
            fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
                if p.path.is_ident("self") {
                    p.path = parse_quote!(vx_self);
                }
            }
        }
        syn::visit_mut::VisitMut::visit_block_mut(&mut S, &mut body);
        body.stmts.insert(0, parse_quote!(let mut vx_self = self;));
        names.push("vx_self".to_string());
    }
    let body = body;
    let scopes = loop_scopes(&body, &names);
    let muts: BTreeSet<String> = params
        .iter()
        .filter(|p| p["ty"].as_str().unwrap_or("").replace(' ', "").starts_with("&mut") || p["text"] == "&mut self")
        .map(|p| p["name"].as_str().unwrap().to_string())
        .collect();
    let mut li = LoopInfo { stack: vec![], assigned: Default::default(), pushed: Default::default(), kinds: Default::default(), muts };
    li.visit_block(&body);
    let mut loops = vec![];
    for k in 0..x.loops {
        let sc = scopes.get(&k).cloned().unwrap_or_default();
        let scs: BTreeSet<String> = sc.iter().cloned().collect();
        let fl = |m: &BTreeMap<usize, BTreeSet<String>>| -> Vec<String> {
            m.get(&k).map(|s| s.iter().filter(|n| scs.contains(*n)).cloned().collect()).unwrap_or_default()
        };
        loops.push(json!({"k": k, "scope": sc, "assigned": fl(&li.assigned), "pushed": fl(&li.pushed), "kind": li.kinds.get(&k)}));
    }
    let gen = {
        let g = &f.sig.generics;
        let w = &g.where_clause;
        (quote!(#g).to_string(), quote!(#w).to_string())
    };
    let im = match (&f.impl_generics, &f.impl_self) {
        (Some(g), Some(s)) => {
            let w = &g.where_clause;
            let s2 = x.ty(s.clone());
            json!({"generics": quote!(#g).to_string(), "where": quote!(#w).to_string(), "ty": quote!(#s2).to_string()})
        }
        _ => Value::Null,
    };
    let name = f.sig.ident.clone();
    let wrapped: File = parse_quote!(fn #name() #body);
    let text = prettyplease::unparse(&wrapped);
    let text = text.splitn(2, '{').nth(1).unwrap().trim_end().trim_end_matches('}').to_string();
    let src = {
        let s = &f.sig;
        let b = &f.block;
        quote!(#s #b).to_string()
    };
    Ok(json!({
        "ok": true, "spec": spec, "name": f.sig.ident.to_string(), "file": f.file, "line": f.line, "public": f.public,
        "trait": f.trait_, "impl": im, "generics": gen.0, "where": gen.1,
        "params": params, "ret": ret, "body": text, "loops": loops, "async": f.sig.asyncness.is_some(),
        "inlined": x.inlined, "notes": x.notes, "source_tokens": src,
    }))
}

fn do_type(ix: &Crate, cfg: &Config, name: &str, opts: &Value) -> std::result::Result<Value, String> {
    let it = ix.types.get(name).ok_or(format!("type {name} not found"))?;
    let x = X::new(cfg, ix, None);
    let derives = opts.get("derive").map(strs).unwrap_or_default();
    let opaque: BTreeSet<String> = opts.get("opaque_fields").map(strs).unwrap_or_default().into_iter().collect();
    let keep: Option<BTreeSet<String>> = opts.get("fields").map(|v| strs(v).into_iter().collect());
    let fix_fields = |fs: &mut Fields, make_pub: bool| {
        for f in fs.iter_mut() {
            f.attrs.clear();
            if make_pub {
                f.vis = parse_quote!(pub);
            }
            f.ty = x.ty(f.ty.clone());
            if f.ident.as_ref().map(|i| opaque.contains(&i.to_string())).unwrap_or(false) {
                f.ty = parse_quote!(VxOpaque);
            }
        }
        if let Some(k) = &keep {
            if let Fields::Named(n) = fs {
                n.named = n.named.clone().into_iter().filter(|f| k.contains(&f.ident.as_ref().unwrap().to_string())).collect();
            }
        }
    };
    let d: Vec<Path> = derives.iter().map(|s| parse_str(s).unwrap()).collect();
    let attr: Vec<Attribute> = if d.is_empty() { vec![] } else { vec![parse_quote!(#[derive(#(#d),*)])] };
    let mut variants = vec![];
    let item = match it.clone() {
        Item::Struct(mut s) => {
            s.attrs = attr;
            s.vis = parse_quote!(pub);
            fix_fields(&mut s.fields, true);
            for f in s.fields.iter() {
                if let Some(i) = &f.ident {
                    let t = &f.ty;
                    variants.push(json!({"name": i.to_string(), "ty": quote!(#t).to_string()}));
                }
            }
            if let Some(r) = cfg.rename_types.get(name) {
                s.ident = parse_str(r).unwrap();
            }
            Item::Struct(s)
        }
        Item::Enum(mut s) => {
            s.attrs = attr;
            s.vis = parse_quote!(pub);
            for v in s.variants.iter_mut() {
                v.attrs.clear();
                fix_fields(&mut v.fields, false);
                let disc = v.discriminant.as_ref().map(|d| d.1.to_token_stream().to_string());
                let fields: Vec<String> = v.fields.iter().map(|f| { let t = &f.ty; quote!(#t).to_string() }).collect();
                variants.push(json!({"name": v.ident.to_string(), "disc": disc, "fields": fields}));
            }
            if let Some(r) = cfg.rename_types.get(name) {
                if let Ok(i) = parse_str::<Ident>(r) {
                    s.ident = i;
                }
            }
            Item::Enum(s)
        }
        _ => return Err(format!("type {name} is not a struct or enum")),
    };
    let text = prettyplease::unparse(&File { shebang: None, attrs: vec![], items: vec![item] });
    Ok(json!({"ok": true, "text": text, "members": variants}))
}

fn do_const(ix: &Crate, cfg: &Config, name: &str) -> std::result::Result<Value, String> {
    let it = ix.consts.get(name).ok_or(format!("const {name} not found"))?;
    let x = X::new(cfg, ix, None);
    if let Item::Const(mut c) = it.clone() {
        c.attrs.clear();
        c.vis = parse_quote!(pub);
        c.ty = Box::new(x.ty(*c.ty));
        struct M;
        impl VisitMut for M {
            fn visit_path_mut(&mut self, p: &mut Path) {
                *p = strip_mods(p);
            }
        }
        M.visit_expr_mut(&mut c.expr);
        let text = prettyplease::unparse(&File { shebang: None, attrs: vec![], items: vec![Item::Const(c)] });
        return Ok(json!({"ok": true, "text": text}));
    }
    Err("not a const".into())
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let job: Value = serde_json::from_str(&std::fs::read_to_string(&a[1]).unwrap()).unwrap();
    let repo = job["repo"].as_str().unwrap_or("/repo");
    let ix = Crate::load(repo, &strs(&job["expand"]));
    let mut out = Map::new();
    out.insert("index_errors".into(), json!(ix.errors));
    out.insert("files".into(), json!(ix.files));
    let mut units = Map::new();
    for (uname, u) in job["units"].as_object().unwrap() {
        let cfg = Config {
            contracted: strs(&u["contracted"]).into_iter().collect(),
            shims: strs(&u["shims"]).into_iter().collect(),
            rename_methods: smap(&u["rename_methods"]),
            rename_paths: smap(&u["rename_paths"]),
            rename_types: smap(&u["rename_types"]),
            max_inline: 4,
        };
        let mut fns = Map::new();
        for s in strs(&u["fns"]) {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| do_fn(&ix, &cfg, &s)));
            fns.insert(s.clone(), match r {
                Ok(Ok(v)) => v,
                Ok(Err(e)) => json!({"ok": false, "error": e, "found": ix.find(&s).is_some()}),
                Err(_) => json!({"ok": false, "error": "extractor panicked", "found": ix.find(&s).is_some()}),
            });
        }
        let mut types = Map::new();
        if let Some(o) = u["types"].as_object() {
            for (n, opts) in o {
                types.insert(n.clone(), do_type(&ix, &cfg, n, opts).unwrap_or_else(|e| json!({"ok": false, "error": e})));
            }
        }
        let mut consts = Map::new();
        for n in strs(&u["consts"]) {
            consts.insert(n.clone(), do_const(&ix, &cfg, &n).unwrap_or_else(|e| json!({"ok": false, "error": e})));
        }
        units.insert(uname.clone(), json!({"fns": fns, "types": types, "consts": consts}));
    }
    out.insert("units".into(), Value::Object(units));
    let all: Vec<Value> = ix
        .fns
        .iter()
        .map(|f| json!({"file": f.file, "line": f.line, "self": f.self_ty, "trait": f.trait_, "name": f.sig.ident.to_string()}))
        .collect();
    out.insert("all_fns".into(), json!(all));
    println!("{}", serde_json::to_string(&Value::Object(out)).unwrap());
}
