//! The mechanical translation of one function of the crate into the Verus dialect.
//! Every rewrite is listed in /verif/EXTRACTION.md.
use crate::index::*;
use proc_macro2::Span;
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub type R<T> = std::result::Result<T, String>;

#[derive(Default, Clone)]
pub struct Config {
    /// functions that have a contract in this unit (kept as calls): `name` or `Type::name`
    pub contracted: BTreeSet<String>,
    /// identifiers defined by the prelude (kept as calls)
    pub shims: BTreeSet<String>,
    pub rename_methods: BTreeMap<String, String>,
    pub rename_paths: BTreeMap<String, String>,
    pub rename_types: BTreeMap<String, String>,
    /// fields / locals / methods known to be Result-valued (default is Option)
    pub max_inline: usize,
}

pub struct X<'a> {
    pub cfg: &'a Config,
    pub ix: &'a Crate,
    n: usize,
    pub loops: usize,
    inline_depth: usize,
    self_ty: Option<String>,
    /// local closures: name -> closure
    closures: Vec<(String, ExprClosure)>,
    floats: BTreeSet<String>,
    /// names bound to a reference to an item of an iterated sequence
    refs: BTreeSet<String>,
    results: BTreeSet<String>,
    pub inlined: BTreeSet<String>,
    pub notes: BTreeSet<String>,
    mut_ref_inline: bool,
}

fn ident(s: &str) -> Ident {
    Ident::new(s, Span::call_site())
}

fn path_str(p: &Path) -> String {
    p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::")
}

fn strip_paren(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip_paren(&p.expr),
        Expr::Group(p) => strip_paren(&p.expr),
        _ => e,
    }
}

fn block_expr(stmts: Vec<Stmt>) -> Expr {
    Expr::Block(ExprBlock { attrs: vec![], label: None, block: Block { brace_token: Default::default(), stmts } })
}

fn tail(e: Expr) -> Stmt {
    Stmt::Expr(e, None)
}

fn semi(e: Expr) -> Stmt {
    Stmt::Expr(e, Some(Default::default()))
}

fn wrap_block(e: Expr) -> Block {
    match e {
        Expr::Block(b) if b.label.is_none() && b.attrs.is_empty() => b.block,
        e => Block { brace_token: Default::default(), stmts: vec![tail(e)] },
    }
}

/// `{ ..; Ok(x) }` -> `{ ..; x }` (the constructor is `name`)
fn ok_of(e: &Expr, name: &str) -> Option<Expr> {
    match e {
        Expr::Call(c) if c.args.len() == 1 && matches!(&*c.func, Expr::Path(p) if p.path.is_ident(name)) => Some(c.args[0].clone()),
        Expr::Paren(p) => ok_of(&p.expr, name),
        Expr::Block(b) if b.label.is_none() && b.attrs.is_empty() => {
            let mut b = b.clone();
            match b.block.stmts.last_mut() {
                Some(Stmt::Expr(x, None)) => {
                    *x = ok_of(x, name)?;
                    Some(Expr::Block(b))
                }
                _ => None,
            }
        }
        _ => None,
    }
}

/// Does the expression contain `return` or `?` that would leave the enclosing closure / function?
pub struct Exits {
    pub ret: bool,
    pub try_: bool,
}
impl<'a> Visit<'a> for Exits {
    fn visit_expr_return(&mut self, r: &'a ExprReturn) {
        self.ret = true;
        visit::visit_expr_return(self, r);
    }
    fn visit_expr_try(&mut self, r: &'a ExprTry) {
        self.try_ = true;
        visit::visit_expr_try(self, r);
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_item(&mut self, _: &'a Item) {}
}
pub fn exits(e: &Expr) -> Exits {
    let mut x = Exits { ret: false, try_: false };
    x.visit_expr(e);
    x
}
pub fn exits_stmts(s: &[Stmt]) -> bool {
    let mut x = Exits { ret: false, try_: false };
    for t in s {
        x.visit_stmt(t);
    }
    x.ret || x.try_
}
struct HasLoopExit(bool);
impl<'a> Visit<'a> for HasLoopExit {
    fn visit_expr_while(&mut self, e: &'a ExprWhile) {
        self.chk(&e.body)
    }
    fn visit_expr_loop(&mut self, e: &'a ExprLoop) {
        self.chk(&e.body)
    }
    fn visit_expr_for_loop(&mut self, e: &'a ExprForLoop) {
        self.chk(&e.body)
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}
impl HasLoopExit {
    fn chk(&mut self, b: &Block) {
        if exits_stmts(&b.stmts) {
            self.0 = true
        }
    }
}

// ---------------------------------------------------------------- iterator pipelines

#[derive(Clone)]
enum Stage {
    Map(Expr),
    Filter(Expr),
    FilterMap(Expr),
    Enumerate,
    Zip(Box<Pipe>),
    Copied,
    Flatten,
    FlatMap(Expr),
    Take(Expr),
    TakeFrom(Ident),
    Skip(Expr),
    StepBy(Expr),
    Rev,
    TakeWhile(Expr),
    Chain(Box<Pipe>),
    Inspect,
}

#[derive(Clone)]
enum Src {
    Range { lo: Expr, hi: Expr, incl: bool },
    /// a slice-like place: by shared reference
    Ref(Expr),
    /// a part of a slice-like place (`&s[lo..hi]`): by shared reference
    Part { e: Expr, lo: Option<Expr>, hi: Option<Expr> },
    /// `s.windows(n)`
    Windows { e: Expr, n: Expr },
    /// by mutable reference
    Mut(Expr),
    /// by value (Vec)
    Owned(Expr),
    Chunks { e: Expr, n: Expr, exact: bool, mutable: bool },
    /// HashMap entries by value
    Entries(Expr),
}

#[derive(Clone)]
struct Pipe {
    src: Src,
    stages: Vec<Stage>,
}

const ITER_SOURCES: &[&str] = &[
    "iter", "iter_mut", "into_iter", "chunks", "chunks_exact", "chunks_mut", "chunks_exact_mut", "drain", "chars", "windows",
];
const ITER_ADAPT: &[&str] = &[
    "map", "filter", "filter_map", "enumerate", "zip", "copied", "cloned", "flatten", "flat_map", "take", "skip",
    "step_by", "rev", "take_while", "chain", "by_ref",
];

impl<'a> X<'a> {
    pub fn new(cfg: &'a Config, ix: &'a Crate, self_ty: Option<String>) -> Self {
        X {
            cfg,
            ix,
            n: 0,
            loops: 0,
            inline_depth: 0,
            self_ty,
            closures: vec![],
            floats: Default::default(),
            refs: Default::default(),
            results: Default::default(),
            inlined: Default::default(),
            notes: Default::default(),
            mut_ref_inline: false,
        }
    }
    fn fresh(&mut self, p: &str) -> Ident {
        self.n += 1;
        format_ident!("vx_{}{}", p, self.n)
    }

    fn is_iter_expr(&self, e: &Expr) -> bool {
        match strip_paren(e) {
            Expr::Range(_) => true,
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if ITER_SOURCES.contains(&n.as_str()) {
                    return true;
                }
                ITER_ADAPT.contains(&n.as_str()) && self.is_iter_expr(&m.receiver)
            }
            _ => false,
        }
    }

    fn pipe(&mut self, e: &Expr) -> R<Pipe> {
        match strip_paren(e) {
            Expr::Range(r) => {
                let lo = r.start.as_deref().cloned().ok_or("range without start")?;
                let hi = r.end.as_deref().cloned().ok_or("unbounded range loop")?;
                let incl = matches!(r.limits, RangeLimits::Closed(_));
                Ok(Pipe { src: Src::Range { lo: self.expr(lo)?, hi: self.expr(hi)?, incl }, stages: vec![] })
            }
            Expr::Reference(r) => {
                if r.mutability.is_none() {
                    if let Some(src) = self.part(&r.expr)? {
                        return Ok(Pipe { src, stages: vec![] });
                    }
                }
                let inner = self.expr((*r.expr).clone())?;
                Ok(Pipe { src: if r.mutability.is_some() { Src::Mut(inner) } else { Src::Ref(inner) }, stages: vec![] })
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let arg = |i: usize| m.args.iter().nth(i).cloned();
                if ITER_ADAPT.contains(&name.as_str()) && self.is_iter_expr(&m.receiver) {
                    let mut p = self.pipe(&m.receiver)?;
                    let st = match name.as_str() {
                        "map" => Stage::Map(arg(0).unwrap()),
                        "filter" => Stage::Filter(arg(0).unwrap()),
                        "filter_map" => Stage::FilterMap(arg(0).unwrap()),
                        "enumerate" => Stage::Enumerate,
                        "zip" => Stage::Zip(Box::new(self.pipe_any(&arg(0).unwrap())?)),
                        "copied" | "cloned" => Stage::Copied,
                        "flatten" => Stage::Flatten,
                        "flat_map" => Stage::FlatMap(arg(0).unwrap()),
                        "take" => Stage::Take(self.expr(arg(0).unwrap())?),
                        "skip" => Stage::Skip(self.expr(arg(0).unwrap())?),
                        "step_by" => Stage::StepBy(self.expr(arg(0).unwrap())?),
                        "rev" => Stage::Rev,
                        "take_while" => Stage::TakeWhile(arg(0).unwrap()),
                        "chain" => Stage::Chain(Box::new(self.pipe_any(&arg(0).unwrap())?)),
                        "by_ref" => return Err("by_ref iterator".into()),
                        _ => return Err(format!("iterator adapter {name}")),
                    };
                    p.stages.push(st);
                    return Ok(p);
                }
                if name == "into_iter" && self.is_iter_expr(&m.receiver) && !matches!(strip_paren(&m.receiver), Expr::MethodCall(mm) if mm.method=="into_iter") {
                    return self.pipe(&m.receiver);
                }
                let recv = || -> Expr { (*m.receiver).clone() };
                let src = match name.as_str() {
                    "iter" => match self.part(&recv())? {
                        Some(s) => s,
                        None => Src::Ref(self.expr(recv())?),
                    },
                    "windows" => Src::Windows { e: self.expr(recv())?, n: self.expr(arg(0).unwrap())? },
                    "iter_mut" => Src::Mut(self.expr(recv())?),
                    "into_iter" => {
                        let e = self.expr(recv())?;
                        Src::Owned(e)
                    }
                    "chars" => {
                        let e = self.expr(recv())?;
                        Src::Owned(parse_quote!(#e.vx_chars()))
                    }
                    "drain" => Src::Entries(self.expr(recv())?),
                    "chunks" | "chunks_exact" | "chunks_mut" | "chunks_exact_mut" => Src::Chunks {
                        e: self.expr(recv())?,
                        n: self.expr(arg(0).unwrap())?,
                        exact: name.contains("exact"),
                        mutable: name.contains("mut"),
                    },
                    _ => return Err(format!("iterator source .{name}()")),
                };
                Ok(Pipe { src, stages: vec![] })
            }
            other => Err(format!("iterator source {}", other.to_token_stream())),
        }
    }

    /// `place[lo..hi]` as an iterator source
    fn part(&mut self, e: &Expr) -> R<Option<Src>> {
        let i = match strip_paren(e) {
            Expr::Index(i) => i.clone(),
            _ => return Ok(None),
        };
        let r = match strip_paren(&i.index) {
            Expr::Range(r) if matches!(r.limits, RangeLimits::HalfOpen(_)) => r.clone(),
            _ => return Ok(None),
        };
        if !is_place(strip_paren(&i.expr)) {
            return Ok(None);
        }
        let e = self.expr((*i.expr).clone())?;
        if !is_place(&e) {
            return Ok(None);
        }
        let lo = r.start.map(|x| self.expr(*x)).transpose()?;
        let hi = r.end.map(|x| self.expr(*x)).transpose()?;
        Ok(Some(Src::Part { e, lo, hi }))
    }

    /// A value used where `IntoIterator` is expected.
    fn pipe_any(&mut self, e: &Expr) -> R<Pipe> {
        if self.is_iter_expr(e) || matches!(strip_paren(e), Expr::Reference(_)) {
            return self.pipe(e);
        }
        let e = self.expr(e.clone())?;
        Ok(Pipe { src: Src::Owned(e), stages: vec![] })
    }

    fn inv_marker(&mut self) -> Stmt {
        let k = self.loops;
        self.loops += 1;
        let lit = LitInt::new(&k.to_string(), Span::call_site());
        parse_quote!(__vx_inv!(#lit);)
    }
    fn end_marker(k: usize) -> Stmt {
        let lit = LitInt::new(&k.to_string(), Span::call_site());
        parse_quote!(__vx_end!(#lit);)
    }

    /// Emit `for item in pipe { k(item) }`.
    fn gen(&mut self, p: Pipe, k: &mut dyn FnMut(&mut Self, Expr) -> R<Vec<Stmt>>) -> R<Vec<Stmt>> {
        // chain: a then b
        if let Some(pos) = p.stages.iter().position(|s| matches!(s, Stage::Chain(_))) {
            if p.stages[pos + 1..].iter().any(|s| matches!(s, Stage::Enumerate | Stage::Take(_) | Stage::TakeFrom(_) | Stage::TakeWhile(_) | Stage::Skip(_) | Stage::Zip(_) | Stage::Rev | Stage::StepBy(_))) {
                return Err("positional adapter after chain".into());
            }
            let mut a = p.clone();
            let b = match a.stages.remove(pos) {
                Stage::Chain(b) => b,
                _ => unreachable!(),
            };
            let rest = a.stages.split_off(pos);
            a.stages.extend(rest.clone());
            let mut b = *b;
            b.stages.extend(rest);
            let mut out = self.gen(a, k)?;
            out.extend(self.gen(b, k)?);
            return Ok(out);
        }
        let mut stages = p.stages.clone();
        let mut pre: Vec<Stmt> = vec![];
        let mut cond: Vec<Expr> = vec![];
        let mut body: Vec<Stmt> = vec![];
        let mut step: Option<Expr> = None;
        let mut rev = false;
        // positional adapters directly on the source
        let mut skip: Option<Expr> = None;
        while let Some(s) = stages.first() {
            match s {
                Stage::StepBy(n) if step.is_none() && !rev && skip.is_none() => {
                    step = Some(n.clone());
                    stages.remove(0);
                }
                Stage::Rev if step.is_none() && skip.is_none() => {
                    rev = !rev;
                    stages.remove(0);
                }
                Stage::Skip(n) if skip.is_none() && !rev && step.is_none() => {
                    skip = Some(n.clone());
                    stages.remove(0);
                }
                _ => break,
            }
        }
        let item = self.source(&p.src, step, rev, skip, &mut pre, &mut cond, &mut body)?;
        let cnt_dec: Vec<Expr> = vec![];
        let _ = cnt_dec;
        // adapters
        let mut out_body: Vec<Stmt> = vec![];
        let inner = self.stages(item, &stages, 0, &mut pre, &mut cond, &mut body, k)?;
        out_body.extend(inner);
        let kidx = self.loops;
        let marker = self.inv_marker();
        let mut stmts = vec![marker];
        stmts.extend(body);
        stmts.extend(out_body);
        stmts.push(Self::end_marker(kidx));
        let c = cond.into_iter().reduce(|a, b| parse_quote!(#a && #b)).unwrap();
        let blk = Block { brace_token: Default::default(), stmts };
        pre.push(semi_noop(parse_quote!(while #c #blk)));
        Ok(pre)
    }

    /// Set up one source: returns the item expression; advances before the body runs.
    fn source(
        &mut self,
        s: &Src,
        step: Option<Expr>,
        rev: bool,
        skip: Option<Expr>,
        pre: &mut Vec<Stmt>,
        cond: &mut Vec<Expr>,
        body: &mut Vec<Stmt>,
    ) -> R<Expr> {
        match s {
            Src::Range { lo, hi, incl } => {
                let n = self.fresh("n");
                let e = self.fresh("end");
                if *incl {
                    if step.is_some() || rev || skip.is_some() {
                        return Err("inclusive range with adapter".into());
                    }
                    // lo..=hi : counts in an exclusive range with a guard against overflow
                    let d = self.fresh("done");
                    pre.push(parse_quote!(let mut #n = #lo;));
                    pre.push(parse_quote!(let #e = #hi;));
                    pre.push(parse_quote!(let mut #d = #n > #e;));
                    cond.push(parse_quote!(!#d));
                    let it = self.fresh("it");
                    body.push(parse_quote!(let #it = #n;));
                    body.push(parse_quote!(if #n == #e { #d = true; } else { #n = #n + 1; }));
                    return Ok(parse_quote!(#it));
                }
                let it = self.fresh("it");
                if rev {
                    if skip.is_some() {
                        return Err("rev+skip".into());
                    }
                    pre.push(parse_quote!(let #n = #lo;));
                    pre.push(parse_quote!(let mut #e = #hi;));
                    cond.push(parse_quote!(#n < #e));
                    body.push(parse_quote!(#e = #e - 1;));
                    body.push(parse_quote!(let #it = #e;));
                    return Ok(parse_quote!(#it));
                }
                let (lo2, hi2) = (lo.clone(), hi.clone());
                // give both ends the same type when one of them is a literal
                match (strip_paren(&lo2), strip_paren(&hi2)) {
                    (Expr::Lit(_), _) => {
                        pre.push(parse_quote!(let #e = #hi2;));
                        pre.push(parse_quote!(let mut #n = vx_same(#lo2, #e);));
                    }
                    _ => {
                        pre.push(parse_quote!(let mut #n = #lo2;));
                        pre.push(parse_quote!(let #e = #hi2;));
                    }
                }
                if let Some(sk) = skip {
                    pre.push(parse_quote!(#n = vx_skip(#n, #e, #sk);));
                }
                cond.push(parse_quote!(#n < #e));
                body.push(parse_quote!(let #it = #n;));
                match step {
                    None => body.push(parse_quote!(#n = #n + 1;)),
                    Some(k) => {
                        let kk = self.fresh("step");
                        pre.push(parse_quote!(let #kk = #k;));
                        pre.push(parse_quote!(if #kk == 0 { vx_panic(); }));
                        body.push(parse_quote!(#n = if #e - #n > #kk { #n + #kk } else { #e };));
                    }
                }
                Ok(parse_quote!(#it))
            }
            Src::Ref(e) | Src::Mut(e) | Src::Owned(e) => {
                let n = self.fresh("n");
                let end = self.fresh("end");
                let owned = matches!(s, Src::Owned(_));
                let src: Expr = match s {
                    _ if is_place(e) && !owned => e.clone(),
                    Src::Owned(_) => {
                        let t = self.fresh("src");
                        pre.push(parse_quote!(let #t = vx_into_src(#e);));
                        parse_quote!(#t)
                    }
                    _ => {
                        let t = self.fresh("src");
                        // `(*r).iter()`: the reference is what is bound
                        let e = match strip_paren(e) {
                            Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => (**expr).clone(),
                            _ => e.clone(),
                        };
                        pre.push(parse_quote!(let #t = #e;));
                        parse_quote!(#t)
                    }
                };
                pre.push(parse_quote!(let #end = #src.len();));
                let st: Expr = match skip {
                    Some(sk) => parse_quote!(vx_skip(0, #end, #sk)),
                    None => parse_quote!(0),
                };
                let it = self.fresh("it");
                if matches!(s, Src::Ref(_)) {
                    self.refs.insert(it.to_string());
                }
                if rev {
                    pre.push(parse_quote!(let #n: usize = #st;));
                    let m = self.fresh("m");
                    pre.push(parse_quote!(let mut #m: usize = #end;));
                    cond.push(parse_quote!(#n < #m));
                    body.push(parse_quote!(#m = #m - 1;));
                    body.push(self.item_at(s, &src, &parse_quote!(#m), &it));
                    return Ok(parse_quote!(#it));
                }
                pre.push(parse_quote!(let mut #n: usize = #st;));
                cond.push(parse_quote!(#n < #end));
                body.push(self.item_at(s, &src, &parse_quote!(#n), &it));
                match step {
                    None => body.push(parse_quote!(#n = #n + 1;)),
                    Some(k) => {
                        let kk = self.fresh("step");
                        pre.push(parse_quote!(let #kk = #k;));
                        pre.push(parse_quote!(if #kk == 0 { vx_panic(); }));
                        body.push(parse_quote!(#n = if #end - #n > #kk { #n + #kk } else { #end };));
                    }
                }
                Ok(parse_quote!(#it))
            }
            Src::Windows { e, n: size } => {
                if step.is_some() || rev || skip.is_some() {
                    return Err("adapter on windows".into());
                }
                let (n, end, sz, it) = (self.fresh("n"), self.fresh("end"), self.fresh("size"), self.fresh("it"));
                pre.push(parse_quote!(let #sz: usize = #size;));
                pre.push(parse_quote!(if #sz == 0 { vx_panic(); }));
                let src: Expr = if is_place(e) {
                    e.clone()
                } else {
                    let t = self.fresh("src");
                    pre.push(parse_quote!(let #t = #e;));
                    parse_quote!(#t)
                };
                pre.push(parse_quote!(let #end: usize = if #src.len() < #sz { 0 } else { #src.len() - #sz + 1 };));
                pre.push(parse_quote!(let mut #n: usize = 0;));
                cond.push(parse_quote!(#n < #end));
                body.push(parse_quote!(let #it = #src.vx_sl_win(#n, #sz);));
                body.push(parse_quote!(#n = #n + 1;));
                Ok(parse_quote!(#it))
            }
            Src::Part { e, lo, hi } => {
                let (n, end, it) = (self.fresh("n"), self.fresh("end"), self.fresh("it"));
                let lo: Expr = lo.clone().unwrap_or_else(|| parse_quote!(0));
                let st = self.fresh("from");
                pre.push(parse_quote!(let #st: usize = #lo;));
                match hi {
                    Some(h) => pre.push(parse_quote!(let #end: usize = #h;)),
                    None => pre.push(parse_quote!(let #end: usize = #e.len();)),
                }
                pre.push(parse_quote!(if #st > #end || #end > #e.len() { vx_panic(); }));
                let st: Expr = match skip {
                    Some(sk) => parse_quote!(vx_skip(#st, #end, #sk)),
                    None => parse_quote!(#st),
                };
                self.refs.insert(it.to_string());
                if rev {
                    pre.push(parse_quote!(let #n: usize = #st;));
                    let m = self.fresh("m");
                    pre.push(parse_quote!(let mut #m: usize = #end;));
                    cond.push(parse_quote!(#n < #m));
                    body.push(parse_quote!(#m = #m - 1;));
                    body.push(parse_quote!(let #it = &#e[#m];));
                    return Ok(parse_quote!(#it));
                }
                pre.push(parse_quote!(let mut #n: usize = #st;));
                cond.push(parse_quote!(#n < #end));
                body.push(parse_quote!(let #it = &#e[#n];));
                match step {
                    None => body.push(parse_quote!(#n = #n + 1;)),
                    Some(k) => {
                        let kk = self.fresh("step");
                        pre.push(parse_quote!(let #kk = #k;));
                        pre.push(parse_quote!(if #kk == 0 { vx_panic(); }));
                        body.push(parse_quote!(#n = if #end - #n > #kk { #n + #kk } else { #end };));
                    }
                }
                Ok(parse_quote!(#it))
            }
            Src::Chunks { e, n: size, exact, mutable } => {
                if step.is_some() || rev || skip.is_some() {
                    return Err("adapter on chunks".into());
                }
                let off = self.fresh("off");
                let sz = self.fresh("size");
                let end = self.fresh("end");
                let it = self.fresh("it");
                let lo = self.fresh("lo");
                pre.push(parse_quote!(let #sz: usize = #size;));
                pre.push(parse_quote!(if #sz == 0 { vx_panic(); }));
                let src: Expr = if is_place(e) {
                    e.clone()
                } else {
                    let t = self.fresh("src");
                    pre.push(parse_quote!(let #t = #e;));
                    parse_quote!(#t)
                };
                if *exact {
                    pre.push(parse_quote!(let #end: usize = #src.len() - #src.len() % #sz;));
                } else {
                    pre.push(parse_quote!(let #end: usize = #src.len();));
                }
                pre.push(parse_quote!(let mut #off: usize = 0;));
                cond.push(parse_quote!(#off < #end));
                body.push(parse_quote!(let #lo = #off;));
                body.push(parse_quote!(#off = if #end - #off > #sz { #off + #sz } else { #end };));
                if *mutable {
                    body.push(parse_quote!(let #it = #src.vx_slm(#lo, #off);));
                } else {
                    body.push(parse_quote!(let #it = #src.vx_sl(#lo, #off);));
                }
                Ok(parse_quote!(#it))
            }
            Src::Entries(e) => {
                let n = self.fresh("n");
                let end = self.fresh("end");
                let t = self.fresh("src");
                let it = self.fresh("it");
                if step.is_some() || rev || skip.is_some() {
                    return Err("adapter on map entries".into());
                }
                pre.push(parse_quote!(let #t = vx_into_src(#e);));
                pre.push(parse_quote!(let #end = #t.len();));
                pre.push(parse_quote!(let mut #n: usize = 0;));
                cond.push(parse_quote!(#n < #end));
                body.push(parse_quote!(let #it = vx_move_out(&#t, #n);));
                body.push(parse_quote!(#n = #n + 1;));
                Ok(parse_quote!(#it))
            }
        }
    }

    fn item_at(&self, s: &Src, src: &Expr, i: &Expr, it: &Ident) -> Stmt {
        match s {
            Src::Ref(_) => parse_quote!(let #it = &#src[#i];),
            Src::Mut(_) => parse_quote!(let #it = &mut #src[#i];),
            _ => parse_quote!(let #it = vx_move_out(&#src, #i);),
        }
    }

    fn stages(
        &mut self,
        item: Expr,
        st: &[Stage],
        i: usize,
        pre: &mut Vec<Stmt>,
        cond: &mut Vec<Expr>,
        body: &mut Vec<Stmt>,
        k: &mut dyn FnMut(&mut Self, Expr) -> R<Vec<Stmt>>,
    ) -> R<Vec<Stmt>> {
        if i == st.len() {
            return k(self, item);
        }
        match &st[i] {
            Stage::Map(f) => {
                let v = self.fresh("v");
                let val = self.apply(f, vec![item])?;
                let mut out: Vec<Stmt> = vec![parse_quote!(let #v = #val;)];
                out.extend(self.stages(parse_quote!(#v), st, i + 1, pre, cond, body, k)?);
                Ok(out)
            }
            Stage::Copied => {
                let v = self.fresh("v");
                let mut out: Vec<Stmt> = vec![parse_quote!(let #v = vx_cloned(#item);)];
                out.extend(self.stages(parse_quote!(#v), st, i + 1, pre, cond, body, k)?);
                Ok(out)
            }
            Stage::Filter(f) => {
                let v = self.fresh("v");
                let c = self.apply(f, vec![parse_quote!(&#v)])?;
                let mut out: Vec<Stmt> = vec![parse_quote!(let #v = #item;)];
                let inner = self.stages(parse_quote!(#v), st, i + 1, pre, cond, body, k)?;
                let b = Block { brace_token: Default::default(), stmts: inner };
                out.push(semi_noop(parse_quote!(if #c #b)));
                Ok(out)
            }
            Stage::FilterMap(f) => {
                let v = self.fresh("v");
                let c = self.apply(f, vec![item])?;
                let inner = self.stages(parse_quote!(#v), st, i + 1, pre, cond, body, k)?;
                let b = Block { brace_token: Default::default(), stmts: inner };
                Ok(vec![semi_noop(parse_quote!(match #c { Some(#v) => #b, None => {} }))])
            }
            Stage::Enumerate => {
                // only valid if no element was dropped before
                if st[..i].iter().any(|s| matches!(s, Stage::Filter(_) | Stage::FilterMap(_) | Stage::Flatten | Stage::FlatMap(_))) {
                    return Err("enumerate after filter".into());
                }
                let c = self.fresh("c");
                let v = self.fresh("i");
                pre.push(parse_quote!(let mut #c: usize = 0;));
                body.push(parse_quote!(let #v = #c;));
                body.push(parse_quote!(#c = #c + 1;));
                self.stages(parse_quote!((#v, #item)), st, i + 1, pre, cond, body, k)
            }
            Stage::Zip(b) => {
                if st[..i].iter().any(|s| matches!(s, Stage::Filter(_) | Stage::FilterMap(_) | Stage::Flatten | Stage::FlatMap(_) | Stage::TakeWhile(_))) {
                    return Err("zip after filter".into());
                }
                let mut bs = b.stages.clone();
                let mut step = None;
                if let Some(Stage::StepBy(n)) = bs.first() {
                    step = Some(n.clone());
                    bs.remove(0);
                }
                let it = self.source(&b.src, step, false, None, pre, cond, body)?;
                let mut it = it;
                for s in &bs {
                    match s {
                        Stage::Map(f) => {
                            let v = self.fresh("v");
                            let val = self.apply(f, vec![it])?;
                            body.push(parse_quote!(let #v = #val;));
                            it = parse_quote!(#v);
                        }
                        Stage::Copied => {
                            let v = self.fresh("v");
                            body.push(parse_quote!(let #v = vx_cloned(#it);));
                            it = parse_quote!(#v);
                        }
                        _ => return Err("adapter in zipped iterator".into()),
                    }
                }
                self.stages(parse_quote!((#item, #it)), st, i + 1, pre, cond, body, k)
            }
            Stage::Take(n) => {
                let c = self.fresh("left");
                pre.push(parse_quote!(let mut #c: usize = #n;));
                self.take_from(&c, item, st, i, pre, cond, body, k)
            }
            Stage::TakeFrom(c) => self.take_from(&c.clone(), item, st, i, pre, cond, body, k),
            Stage::Flatten => {
                let p = Pipe { src: Src::Owned(item), stages: vec![] };
                let rest = self.after_flat(&st[i + 1..], pre, cond)?;
                let mut p = p;
                p.stages = rest;
                self.gen(p, k)
            }
            Stage::FlatMap(f) => match strip_paren(f) {
                Expr::Closure(c) => {
                    let mut pats = c.inputs.iter();
                    let pat = pats.next().ok_or("flat_map closure")?;
                    let mut out = self.bind(pat, item)?;
                    let (stmts, e) = split_tail(&c.body);
                    for s in stmts {
                        out.extend(self.stmt(s)?);
                    }
                    let rest = self.after_flat(&st[i + 1..], pre, cond)?;
                    let mut p = self.pipe_any(&e)?;
                    p.stages.extend(rest);
                    out.extend(self.gen(p, k)?);
                    Ok(out)
                }
                _ => Err("flat_map with a path".into()),
            },
            Stage::TakeWhile(f) => {
                let v = self.fresh("v");
                let c = self.apply(f, vec![parse_quote!(&#v)])?;
                let mut out: Vec<Stmt> = vec![parse_quote!(let #v = #item;)];
                out.push(parse_quote!(if !(#c) { break; }));
                out.extend(self.stages(parse_quote!(#v), st, i + 1, pre, cond, body, k)?);
                Ok(out)
            }
            Stage::Inspect | Stage::Skip(_) | Stage::StepBy(_) | Stage::Rev | Stage::Chain(_) => {
                Err("iterator adapter order".into())
            }
        }
    }

    /// The items counted are those that reach this stage.
    fn take_from(
        &mut self,
        c: &Ident,
        item: Expr,
        st: &[Stage],
        i: usize,
        pre: &mut Vec<Stmt>,
        cond: &mut Vec<Expr>,
        body: &mut Vec<Stmt>,
        k: &mut dyn FnMut(&mut Self, Expr) -> R<Vec<Stmt>>,
    ) -> R<Vec<Stmt>> {
        cond.push(parse_quote!(#c > 0));
        let dec: Stmt = parse_quote!(#c = #c - 1;);
        if st[..i].iter().any(|s| matches!(s, Stage::Filter(_) | Stage::FilterMap(_) | Stage::TakeWhile(_))) {
            let mut out = vec![dec];
            out.extend(self.stages(item, st, i + 1, pre, cond, body, k)?);
            return Ok(out);
        }
        body.push(dec);
        self.stages(item, st, i + 1, pre, cond, body, k)
    }

    /// The stages after a flattening one, run in the inner loop: a count to take is shared by all inner loops.
    fn after_flat(&mut self, rest: &[Stage], pre: &mut Vec<Stmt>, cond: &mut Vec<Expr>) -> R<Vec<Stage>> {
        let mut out = vec![];
        for s in rest {
            match s {
                Stage::Take(n) => {
                    let c = self.fresh("left");
                    pre.push(parse_quote!(let mut #c: usize = #n;));
                    cond.push(parse_quote!(#c > 0));
                    out.push(Stage::TakeFrom(c));
                }
                Stage::TakeFrom(c) => {
                    cond.push(parse_quote!(#c > 0));
                    out.push(s.clone());
                }
                Stage::Map(_) | Stage::Copied | Stage::Filter(_) | Stage::FilterMap(_) | Stage::Flatten | Stage::FlatMap(_) => out.push(s.clone()),
                _ => return Err("positional adapter after a flattening one".into()),
            }
        }
        Ok(out)
    }

    /// `let PAT = e`, dereferencing reference patterns.
    fn bind(&mut self, pat: &Pat, e: Expr) -> R<Vec<Stmt>> {
        match pat {
            Pat::Reference(r) => {
                let inner: Expr = parse_quote!(*#e);
                self.bind(&r.pat, inner)
            }
            Pat::Paren(p) => self.bind(&p.pat, e),
            Pat::Type(t) => {
                let ty = self.ty((*t.ty).clone());
                match &*t.pat {
                    Pat::Ident(_) | Pat::Wild(_) => {
                        let p = &t.pat;
                        Ok(vec![parse_quote!(let #p: #ty = #e;)])
                    }
                    p => self.bind(p, e),
                }
            }
            Pat::Wild(_) => Ok(vec![]),
            Pat::Tuple(t) => {
                // tuples built by enumerate/zip are destructured directly
                if let Expr::Tuple(te) = strip_paren(&e) {
                    if te.elems.len() == t.elems.len() {
                        let mut out = vec![];
                        for (p, x) in t.elems.iter().zip(te.elems.iter()) {
                            out.extend(self.bind(p, x.clone())?);
                        }
                        return Ok(out);
                    }
                }
                let has_ref = t.elems.iter().any(|p| matches!(p, Pat::Reference(_)));
                if has_ref {
                    let mut out = vec![];
                    let mut names = vec![];
                    for _ in t.elems.iter() {
                        names.push(self.fresh("p"));
                    }
                    out.push(parse_quote!(let (#(#names),*) = #e;));
                    for (p, n) in t.elems.iter().zip(names) {
                        out.extend(self.bind(p, parse_quote!(#n))?);
                    }
                    return Ok(out);
                }
                Ok(vec![parse_quote!(let #pat = #e;)])
            }
            p => {
                if let Pat::Ident(pi) = p {
                    let of_ref = pi.by_ref.is_none() && matches!(strip_paren(&e), Expr::Path(x) if x.path.get_ident().map(|i| self.refs.contains(&i.to_string())).unwrap_or(false));
                    if of_ref {
                        self.refs.insert(pi.ident.to_string());
                    } else {
                        self.refs.remove(&pi.ident.to_string());
                    }
                }
                Ok(vec![parse_quote!(let #p = #e;)])
            }
        }
    }

    /// Apply a closure literal or a path to arguments; the closure must not contain exits.
    fn apply(&mut self, f: &Expr, args: Vec<Expr>) -> R<Expr> {
        match strip_paren(f) {
            Expr::Closure(c) => {
                let ex = exits(&c.body);
                if ex.ret || ex.try_ {
                    // eliminate exits structurally
                    let b = wrap_block((*c.body).clone());
                    let is_opt = opt_like(&b);
                    let body = elim(b.stmts, is_opt).ok_or("closure with early exit")?;
                    let mut st = vec![];
                    for (p, a) in c.inputs.iter().zip(args) {
                        st.extend(self.bind(p, a)?);
                    }
                    let e = self.expr(body)?;
                    st.push(tail(e));
                    return Ok(block_expr(st));
                }
                let mut st = vec![];
                for (p, a) in c.inputs.iter().zip(args) {
                    st.extend(self.bind(p, a)?);
                }
                let e = self.expr((*c.body).clone())?;
                if st.is_empty() {
                    return Ok(e);
                }
                st.push(tail(e));
                Ok(block_expr(st))
            }
            Expr::Path(p) => {
                let call: Expr = parse_quote!(#p(#(#args),*));
                self.expr_call_processed(call)
            }
            other => Err(format!("callable {}", other.to_token_stream())),
        }
    }

    fn expr_call_processed(&mut self, e: Expr) -> R<Expr> {
        // arguments are already processed
        if let Expr::Call(c) = e {
            return self.call(c, true);
        }
        Ok(e)
    }

    /// Apply in "function-level try" mode: `?` / `return Err` inside leaves the function.
    fn apply_try(&mut self, f: &Expr, args: Vec<Expr>, opt: bool) -> R<Expr> {
        match strip_paren(f) {
            Expr::Closure(c) => {
                let mut st = vec![];
                for (p, a) in c.inputs.iter().zip(args) {
                    st.extend(self.bind(p, a)?);
                }
                let mut body = (*c.body).clone();
                FnLevelTry { opt }.visit_expr_mut(&mut body);
                let e = self.expr(body)?;
                st.push(tail(e));
                Ok(block_expr(st))
            }
            _ => self.apply(f, args),
        }
    }

    fn collect_kind(m: &ExprMethodCall) -> Option<String> {
        // the outer type of a turbofish
        m.turbofish.as_ref().and_then(|t| {
            t.args.iter().find_map(|a| match a {
                GenericArgument::Type(t) => type_name(t),
                _ => None,
            })
        })
    }

    /// Terminal iterator methods. `tried`: the value is immediately `?`-ed or is returned.
    fn sink(&mut self, m: &ExprMethodCall, tried: Option<bool>) -> R<Option<Expr>> {
        let name = m.method.to_string();
        if !self.is_iter_expr(&m.receiver) {
            return Ok(None);
        }
        let a0 = m.args.first().cloned();
        match name.as_str() {
            "for_each" => {
                let p = self.pipe(&m.receiver)?;
                let f = a0.unwrap();
                let st = self.gen(p, &mut |x, it| Ok(vec![semi(x.apply(&f, vec![it])?)]))?;
                Ok(Some(block_expr(st)))
            }
            "try_for_each" => {
                let opt = match tried {
                    Some(o) => o,
                    None => return Err("try_for_each not followed by ?".into()),
                };
                let p = self.pipe(&m.receiver)?;
                let f = a0.unwrap();
                let st = self.gen(p, &mut |x, it| {
                    let e = x.apply_try(&f, vec![it], opt)?;
                    Ok(if opt {
                        vec![semi_noop(parse_quote!(match #e { Some(_) => {}, None => { return None; } }))]
                    } else {
                        vec![semi_noop(parse_quote!(match #e { Ok(_) => {}, Err(_) => { return Err(vx_any_err()); } }))]
                    })
                })?;
                let mut st = st;
                st.push(tail(parse_quote!(())));
                Ok(Some(block_expr(st)))
            }
            "collect" | "sum" | "count" | "all" | "any" | "min" | "max" | "position" | "find" | "last" | "fold" => {
                self.sink_value(m, &name, a0, tried)
            }
            _ => Ok(None),
        }
    }

    fn sink_value(&mut self, m: &ExprMethodCall, name: &str, a0: Option<Expr>, tried: Option<bool>) -> R<Option<Expr>> {
        let mut p = self.pipe(&m.receiver)?;
        let acc = self.fresh("acc");
        match name {
            "collect" => {
                let kind = Self::collect_kind(m);
                let try_kind = match kind.as_deref() {
                    Some("Result") | Some("AsyncTiffResult") | Some("TiffResult") => Some(false),
                    Some("Option") => Some(true),
                    Some("Vec") | Some("VecDeque") => None,
                    Some("HashMap") | Some("HashSet") | Some("String") | Some("BTreeMap") => return Err("collect into a map".into()),
                    _ => tried.filter(|_| m.turbofish.is_none()),
                };
                match try_kind {
                    None => {
                        let mut st: Vec<Stmt> = vec![parse_quote!(let mut #acc = Vec::new();)];
                        st.extend(self.gen(p, &mut |_, it| Ok(vec![parse_quote!(#acc.push(#it);)]))?);
                        st.push(tail(parse_quote!(#acc)));
                        Ok(Some(block_expr(st)))
                    }
                    Some(opt) => {
                        if tried.is_none() {
                            return Err("fallible collect not followed by ?".into());
                        }
                        // the last map stage is evaluated in function-level try mode
                        let f = match p.stages.pop() {
                            Some(Stage::Map(f)) => f,
                            Some(s) => {
                                p.stages.push(s);
                                parse_quote!(|vx_x| vx_x)
                            }
                            None => parse_quote!(|vx_x| vx_x),
                        };
                        let mut st: Vec<Stmt> = vec![parse_quote!(let mut #acc = Vec::new();)];
                        st.extend(self.gen(p, &mut |x, it| {
                            let e = x.apply_try(&f, vec![it], opt)?;
                            if let Some(v) = ok_of(&e, if opt { "Some" } else { "Ok" }) {
                                return Ok(vec![parse_quote!(#acc.push(#v);)]);
                            }
                            Ok(if opt {
                                vec![semi_noop(parse_quote!(match #e { Some(vx_x) => { #acc.push(vx_x); }, None => { return None; } }))]
                            } else {
                                vec![semi_noop(parse_quote!(match #e { Ok(vx_x) => { #acc.push(vx_x); }, Err(_) => { return Err(vx_any_err()); } }))]
                            })
                        })?);
                        st.push(tail(parse_quote!(#acc)));
                        Ok(Some(block_expr(st)))
                    }
                }
            }
            "all" | "any" => {
                let f = a0.unwrap();
                let init: Expr = if name == "all" { parse_quote!(true) } else { parse_quote!(false) };
                let mut st: Vec<Stmt> = vec![parse_quote!(let mut #acc = #init;)];
                let all = name == "all";
                st.extend(self.gen(p, &mut |x, it| {
                    let c = x.apply(&f, vec![it])?;
                    Ok(if all {
                        vec![parse_quote!(if !(#c) { #acc = false; })]
                    } else {
                        vec![parse_quote!(if #c { #acc = true; })]
                    })
                })?);
                st.push(tail(parse_quote!(#acc)));
                Ok(Some(block_expr(st)))
            }
            "min" | "max" => {
                let mut st: Vec<Stmt> = vec![parse_quote!(let mut #acc = None;)];
                let is_min = name == "min";
                st.extend(self.gen(p, &mut |_, it| {
                    let c: Expr = if is_min { parse_quote!(#it < vx_m) } else { parse_quote!(#it >= vx_m) };
                    Ok(vec![parse_quote!(#acc = match #acc { None => Some(#it), Some(vx_m) => Some(if #c { #it } else { vx_m }) };)])
                })?);
                st.push(tail(parse_quote!(#acc)));
                Ok(Some(block_expr(st)))
            }
            "position" => {
                let f = a0.unwrap();
                let c = self.fresh("c");
                let mut st: Vec<Stmt> = vec![parse_quote!(let mut #acc: Option<usize> = None;), parse_quote!(let mut #c: usize = 0;)];
                st.extend(self.gen(p, &mut |x, it| {
                    let b = x.apply(&f, vec![it])?;
                    Ok(vec![parse_quote!(if #acc.is_none() && #b { #acc = Some(#c); }), parse_quote!(#c = #c + 1;)])
                })?);
                st.push(tail(parse_quote!(#acc)));
                Ok(Some(block_expr(st)))
            }
            "find" => {
                let f = a0.unwrap();
                let mut st: Vec<Stmt> = vec![parse_quote!(let mut #acc = None;)];
                let v = self.fresh("v");
                st.extend(self.gen(p, &mut |x, it| {
                    let b = x.apply(&f, vec![parse_quote!(&#v)])?;
                    Ok(vec![parse_quote!(let #v = #it;), parse_quote!(if #acc.is_none() && #b { #acc = Some(#v); })])
                })?);
                st.push(tail(parse_quote!(#acc)));
                Ok(Some(block_expr(st)))
            }
            "sum" => {
                let mut st: Vec<Stmt> = vec![parse_quote!(let mut #acc = 0;)];
                st.extend(self.gen(p, &mut |_, it| Ok(vec![parse_quote!(#acc = #acc + #it;)]))?);
                st.push(tail(parse_quote!(#acc)));
                Ok(Some(block_expr(st)))
            }
            "count" => {
                let mut st: Vec<Stmt> = vec![parse_quote!(let mut #acc: usize = 0;)];
                st.extend(self.gen(p, &mut |_, _| Ok(vec![parse_quote!(#acc = #acc + 1;)]))?);
                st.push(tail(parse_quote!(#acc)));
                Ok(Some(block_expr(st)))
            }
            "fold" => {
                let f = m.args.iter().nth(1).cloned().unwrap();
                let init = self.expr(a0.unwrap())?;
                let mut st: Vec<Stmt> = vec![parse_quote!(let mut #acc = #init;)];
                st.extend(self.gen(p, &mut |x, it| {
                    let e = x.apply(&f, vec![parse_quote!(#acc), it])?;
                    Ok(vec![parse_quote!(#acc = #e;)])
                })?);
                st.push(tail(parse_quote!(#acc)));
                Ok(Some(block_expr(st)))
            }
            _ => Err(format!("iterator sink {name}")),
        }
    }

    // ------------------------------------------------------------ expressions

    fn resultish(&self, e: &Expr) -> bool {
        match strip_paren(e) {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                matches!(n.as_str(), "map_err" | "ok_or" | "ok_or_else" | "try_into" | "decode" | "read_to_end")
                    || n.starts_with("read_")
                    || n.starts_with("into_") && n != "into_iter"
                    || (matches!(n.as_str(), "map" | "and_then" | "or_else") && self.resultish(&m.receiver))
                    || matches!(n.as_str(), "fetch" | "get_bytes" | "get_byte_ranges" | "decode_tile")
                    || self.all_return(&n, "Result")
            }
            Expr::Await(a) => self.resultish(&a.base),
            Expr::Call(c) => {
                let s = match &*c.func {
                    Expr::Path(p) => path_str(&p.path),
                    _ => return false,
                };
                s.ends_with("try_from") || s.ends_with("from_utf8") || s.ends_with("try_cast_vec") || s.ends_with("__from_inner_type") || s.ends_with("try_from_primitive") || self.fn_returns(&s, "Result")
            }
            Expr::Path(p) => p.path.get_ident().map(|i| self.results.contains(&i.to_string())).unwrap_or(false),
            _ => false,
        }
    }
    /// every function of that name in the repository returns such a type
    fn all_return(&self, name: &str, what: &str) -> bool {
        let mut it = self.ix.fns.iter().filter(|f| f.sig.ident == name).peekable();
        it.peek().is_some()
            && it.all(|f| match &f.sig.output {
                ReturnType::Type(_, t) => type_name(t).map(|n| n.contains(what)).unwrap_or(false),
                _ => false,
            })
    }
    fn fn_returns(&self, path: &str, what: &str) -> bool {
        let name = path.rsplit("::").next().unwrap();
        self.ix.fns.iter().filter(|f| f.sig.ident == name).any(|f| match &f.sig.output {
            ReturnType::Type(_, t) => type_name(t).map(|n| n.contains(what)).unwrap_or(false),
            _ => false,
        })
    }

    fn floaty(&self, e: &Expr) -> bool {
        match strip_paren(e) {
            Expr::Cast(c) => matches!(type_name(&c.ty).as_deref(), Some("f64") | Some("f32")),
            Expr::Binary(b) => {
                matches!(b.op, BinOp::Add(_) | BinOp::Sub(_) | BinOp::Mul(_) | BinOp::Div(_)) && (self.floaty(&b.left) || self.floaty(&b.right))
            }
            Expr::MethodCall(m) => {
                matches!(m.method.to_string().as_str(), "ceil" | "round" | "floor" | "trunc" | "sqrt" | "max" | "min") && self.floaty(&m.receiver)
            }
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) => {
                    let s = path_str(&p.path);
                    s == "f64::from" || s == "f32::from" || s.starts_with("vx_f64_") && !s.contains("_to_") || s == "vx_to_f64"
                }
                _ => false,
            },
            Expr::Lit(ExprLit { lit: Lit::Float(_), .. }) => true,
            Expr::Path(p) => p.path.get_ident().map(|i| self.floats.contains(&i.to_string())).unwrap_or(false),
            Expr::Field(f) => matches!(&f.member, Member::Named(n) if self.floats.contains(&format!(".{n}"))),
            _ => false,
        }
    }

    pub fn ty(&self, mut t: Type) -> Type {
        TyFix { cfg: self.cfg }.visit_type_mut(&mut t);
        t
    }

    fn path(&self, p: &Path) -> Path {
        let mut p = p.clone();
        // a path of another crate, by its full name
        if p.segments.len() > 1 {
            if let Some(r) = self.cfg.rename_paths.get(&path_str(&p)) {
                let mut q: Path = parse_str(r).unwrap();
                if let (Some(a), Some(b)) = (p.segments.last(), q.segments.last_mut()) {
                    if matches!(b.arguments, PathArguments::None) {
                        b.arguments = a.arguments.clone();
                    }
                }
                return q;
            }
        }
        // strip module prefixes
        let segs: Vec<_> = p.segments.iter().cloned().collect();
        if segs.len() > 1 {
            let mut start = 0;
            while start + 1 < segs.len() {
                let id = segs[start].ident.to_string();
                let lower = id.chars().next().map(|c| c.is_lowercase()).unwrap_or(false);
                let prim = matches!(id.as_str(), "u8" | "u16" | "u32" | "u64" | "usize" | "i8" | "i16" | "i32" | "i64" | "f32" | "f64" | "str" | "char" | "u128" | "bool");
                if lower && !prim {
                    start += 1
                } else {
                    break;
                }
            }
            p.segments = segs[start..].iter().cloned().collect();
            p.leading_colon = None;
        }
        let s = path_str(&p);
        if let Some(r) = self.cfg.rename_paths.get(&s) {
            return parse_str(r).unwrap();
        }
        // `Self::` inside an inlined function of another type
        for seg in p.segments.iter_mut() {
            if let Some(r) = self.cfg.rename_types.get(&seg.ident.to_string()) {
                if let Ok(i) = parse_str::<Ident>(r) {
                    seg.ident = i;
                }
            }
            if let PathArguments::AngleBracketed(a) = &mut seg.arguments {
                for x in a.args.iter_mut() {
                    if let GenericArgument::Type(t) = x {
                        *t = self.ty(t.clone());
                    }
                }
            }
        }
        p
    }

    pub fn stmt(&mut self, s: Stmt) -> R<Vec<Stmt>> {
        match s {
            Stmt::Local(mut l) => {
                l.attrs.clear();
                if let Pat::Ident(pi) = match &l.pat { Pat::Type(t) => &*t.pat, p => p } {
                    self.refs.remove(&pi.ident.to_string());
                }
                // local closures are inlined at their calls
                if let (Pat::Ident(pi), Some(init)) = (&l.pat, &l.init) {
                    if let Expr::Closure(c) = strip_paren(&init.expr) {
                        self.closures.push((pi.ident.to_string(), c.clone()));
                        return Ok(vec![]);
                    }
                }
                let name = match &l.pat {
                    Pat::Ident(pi) => Some(pi.ident.to_string()),
                    Pat::Type(t) => match &*t.pat {
                        Pat::Ident(pi) => Some(pi.ident.to_string()),
                        _ => None,
                    },
                    _ => None,
                };
                if let (Some(n), Some(init)) = (&name, &l.init) {
                    if self.floaty(&init.expr) {
                        self.floats.insert(n.clone());
                    } else {
                        self.floats.remove(n);
                    }
                    if self.resultish(&init.expr) {
                        self.results.insert(n.clone());
                    } else {
                        self.results.remove(n);
                    }
                    self.closures.retain(|(c, _)| c != n);
                }
                if let Pat::Type(t) = &mut l.pat {
                    t.ty = Box::new(self.ty((*t.ty).clone()));
                }
                if let Some(init) = &mut l.init {
                    // array from slice
                    if let Pat::Type(t) = &l.pat {
                        if let Type::Array(a) = &*t.ty {
                            if let Some(inner) = try_into_unwrap(&init.expr) {
                                let n = a.len.to_token_stream().to_string();
                                let f = format_ident!("vx_arr{}", n.trim());
                                let inner = self.ref_of(inner)?;
                                init.expr = Box::new(parse_quote!(#f(#inner)));
                                return Ok(vec![Stmt::Local(l)]);
                            }
                        }
                        // Vec<..> = iter.collect()
                        if let Expr::MethodCall(m) = strip_paren(&init.expr) {
                            if m.method == "collect" && m.turbofish.is_none() && self.is_iter_expr(&m.receiver) {
                                if let Some(e) = self.sink(m, None)? {
                                    init.expr = Box::new(e);
                                    return Ok(vec![Stmt::Local(l)]);
                                }
                            }
                        }
                    }
                    if let Some((_, els)) = init.diverge.take() {
                        // let PAT = e else { .. };
                        if is_slice_pat(&l.pat) {
                            let (p, e, vars) = (&l.pat, &init.expr, pat_vars(&l.pat));
                            let r: Expr = self.expr(if vars.len() == 1 {
                                let v = &vars[0];
                                parse_quote!(match #e { #p => #v, _ => #els })
                            } else {
                                parse_quote!(match #e { #p => (#(#vars),*), _ => #els })
                            })?;
                            return Ok(vec![if vars.len() == 1 {
                                let v = &vars[0];
                                parse_quote!(let #v = #r;)
                            } else {
                                parse_quote!(let (#(#vars),*) = #r;)
                            }]);
                        }
                        let e = self.expr((*init.expr).clone())?;
                        let els = self.expr(*els)?;
                        let vars = pat_vars(&l.pat);
                        let pat = self.pat(l.pat.clone())?;
                        return Ok(vec![if vars.len() == 1 {
                            let v = &vars[0];
                            parse_quote!(let #v = match #e { #pat => #v, _ => #els };)
                        } else {
                            parse_quote!(let (#(#vars),*) = match #e { #pat => (#(#vars),*), _ => #els };)
                        }]);
                    }
                    init.expr = Box::new(self.expr((*init.expr).clone())?);
                }
                l.pat = self.pat(l.pat.clone())?;
                // reference patterns
                if let (Pat::Reference(_), Some(init)) = (&l.pat, &l.init) {
                    let e = (*init.expr).clone();
                    let p = l.pat.clone();
                    return self.bind(&p, e);
                }
                Ok(vec![Stmt::Local(l)])
            }
            Stmt::Expr(e, sc) => {
                // statement-position loops
                let e2 = self.expr(e)?;
                match e2 {
                    Expr::Block(b) if sc.is_some() && is_vx_loop_block(&b.block) => Ok(vec![Stmt::Expr(Expr::Block(b), None)]),
                    e2 => Ok(vec![Stmt::Expr(e2, sc)]),
                }
            }
            Stmt::Macro(m) => {
                let e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac });
                let e = self.expr(e)?;
                Ok(vec![Stmt::Expr(e, Some(Default::default()))])
            }
            Stmt::Item(Item::Use(_)) => Ok(vec![]),
            Stmt::Item(i) => Err(format!("nested item {}", i.to_token_stream().to_string().chars().take(40).collect::<String>())),
        }
    }

    /// `let rows = v.chunks(n); for r in rows {..}`: an iterator named and used once, right after, is put where it is used.
    fn named_iters(&self, stmts: &mut Vec<Stmt>) {
        let mut k = 0;
        while k + 1 < stmts.len() {
            let found = match &stmts[k] {
                Stmt::Local(l) => match (&l.pat, &l.init) {
                    (Pat::Ident(pi), Some(init)) if init.diverge.is_none() && pi.by_ref.is_none() && self.is_iter_expr(&init.expr) => Some((pi.ident.to_string(), (*init.expr).clone())),
                    _ => None,
                },
                _ => None,
            };
            if let Some((name, init)) = found {
                let mut all = Uses { name: name.clone(), depth: 0, outer: 0, inner: 0 };
                for s in &stmts[k + 1..] {
                    all.visit_stmt(s);
                }
                // statements between may only bind further names
                let mut at = k + 1;
                loop {
                    let mut u = Uses { name: name.clone(), depth: 0, outer: 0, inner: 0 };
                    u.visit_stmt(&stmts[at]);
                    if u.outer + u.inner > 0 || at + 1 >= stmts.len() || !matches!(stmts[at], Stmt::Local(_)) {
                        break;
                    }
                    at += 1;
                }
                let mut u = Uses { name: name.clone(), depth: 0, outer: 0, inner: 0 };
                u.visit_stmt(&stmts[at]);
                let plain_range = matches!(strip_paren(&init), Expr::Range(_)) && !matches!(&stmts[at], Stmt::Expr(Expr::ForLoop(_), _));
                if all.outer == 1 && all.inner == 0 && u.outer == 1 && !plain_range {
                    Subst { map: vec![(name, parse_quote!((#init)), None)] }.visit_stmt_mut(&mut stmts[at]);
                    stmts.remove(k);
                    continue;
                }
            }
            k += 1;
        }
    }

    pub fn block(&mut self, b: Block) -> R<Block> {
        let nc = self.closures.len();
        let fl = self.floats.clone();
        let rs = self.results.clone();
        let mut out = vec![];
        let mut stmts = b.stmts;
        self.named_iters(&mut stmts);
        for s in stmts {
            out.extend(self.stmt(s)?);
        }
        self.closures.truncate(nc.min(self.closures.len()));
        self.floats = fl;
        self.results = rs;
        Ok(Block { brace_token: Default::default(), stmts: out })
    }

    fn pat(&self, p: Pat) -> R<Pat> {
        let mut p = p;
        struct V<'b, 'a>(&'b X<'a>);
        impl<'b, 'a> VisitMut for V<'b, 'a> {
            fn visit_path_mut(&mut self, p: &mut Path) {
                *p = self.0.path(p);
            }
            fn visit_type_mut(&mut self, t: &mut Type) {
                *t = self.0.ty(t.clone());
            }
        }
        V(self).visit_pat_mut(&mut p);
        Ok(p)
    }

    pub fn expr(&mut self, e: Expr) -> R<Expr> {
        Ok(match e {
            Expr::Paren(p) => {
                let i = self.expr(*p.expr)?;
                parse_quote!((#i))
            }
            Expr::Group(p) => self.expr(*p.expr)?,
            Expr::Await(a) => {
                self.notes.insert("async/.await erased".into());
                self.expr(*a.base)?
            }
            Expr::Async(a) => {
                let b = self.block(a.block)?;
                Expr::Block(ExprBlock { attrs: vec![], label: None, block: b })
            }
            Expr::Try(t) => {
                // fallible sinks
                let inner = strip_paren(&t.expr).clone();
                let inner = match inner {
                    Expr::Await(a) => *a.base,
                    x => x,
                };
                if let Expr::MethodCall(m) = &inner {
                    let opt = matches!(Self::collect_kind(m).as_deref(), Some("Option"));
                    if let Some(e) = self.sink(m, Some(opt))? {
                        return Ok(e);
                    }
                }
                let i = self.expr(inner)?;
                parse_quote!(#i?)
            }
            Expr::Lit(ExprLit { lit: Lit::ByteStr(b), .. }) => {
                let v = b.value();
                parse_quote!(&[#(#v),*])
            }
            Expr::MethodCall(mut m) => {
                if self.cfg.shims.contains("vx_reborrow") {
                    // `(&mut *guard).m()`: a call through the guard
                    let mut r: &Expr = &m.receiver;
                    while let Expr::Paren(p) = r {
                        r = &p.expr;
                    }
                    if let Expr::Reference(rf) = r {
                        if let Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) = &*rf.expr {
                            if matches!(&**expr, Expr::Path(_)) {
                                let e = (**expr).clone();
                                *m.receiver = e;
                            }
                        }
                    }
                }
                self.method(m)?
            }
            Expr::Call(c) => self.call(c, false)?,
            Expr::Macro(m) => self.mac(m)?,
            Expr::ForLoop(f) => {
                if f.label.is_some() {
                    return Err("labelled loop".into());
                }
                // a loop over a few elements written out: the body once for each
                let (lit, by_ref) = match strip_paren(&f.expr) {
                    Expr::Array(a) => (Some(a.clone()), false),
                    Expr::Reference(r) if r.mutability.is_none() => match strip_paren(&r.expr) {
                        Expr::Array(a) => (Some(a.clone()), true),
                        _ => (None, false),
                    },
                    _ => (None, false),
                };
                if let Some(a) = lit.filter(|a| (1..=6).contains(&a.elems.len()) && !escapes(&f.body)) {
                    let mut st: Vec<Stmt> = vec![];
                    let mut names = vec![];
                    for e in a.elems {
                        let n = self.fresh("u");
                        let e = self.expr(e)?;
                        st.push(parse_quote!(let #n = #e;));
                        names.push(n);
                    }
                    for n in names {
                        let pat = self.pat((*f.pat).clone())?;
                        let mut b = self.block(f.body.clone())?;
                        if let Some(Stmt::Expr(e, t @ None)) = b.stmts.last_mut() {
                            if !is_blocky(e) {
                                *t = Some(Default::default());
                            }
                        }
                        b.stmts.insert(0, if by_ref { parse_quote!(let #pat = &#n;) } else { parse_quote!(let #pat = #n;) });
                        st.push(Stmt::Expr(Expr::Block(parse_quote!(#b)), None));
                    }
                    return Ok(block_expr(st));
                }
                let p = self.pipe_any(&f.expr)?;
                if p.stages.iter().any(|s| matches!(s, Stage::Flatten | Stage::FlatMap(_))) && has_break(&f.body) {
                    return Err("break inside flattened loop".into());
                }
                let pat = (*f.pat).clone();
                let body = f.body.clone();
                let st = self.gen(p, &mut |x, it| {
                    let mut out = x.bind(&pat, it)?;
                    let b = x.block(body.clone())?;
                    out.extend(b.stmts.into_iter().map(|s| match s {
                        Stmt::Expr(e, None) if !is_blocky(&e) => semi(e),
                        s => s,
                    }));
                    Ok(out)
                })?;
                block_expr(st)
            }
            Expr::While(w) => {
                if w.label.is_some() {
                    return Err("labelled loop".into());
                }
                if let Expr::Let(l) = strip_paren(&w.cond) {
                    // while let PAT = e { body } => loop { match e { PAT => body, _ => break } }
                    let e = self.expr((*l.expr).clone())?;
                    let k = self.loops;
                    let mk = self.inv_marker();
                    let pat = self.pat((*l.pat).clone())?;
                    let mut b = self.block(w.body)?;
                    b.stmts.push(Self::end_marker(k));
                    return Ok(parse_quote!(loop { #mk match #e { #pat => #b, _ => { break; } } }));
                }
                let c = self.expr(*w.cond)?;
                let k = self.loops;
                let mk = self.inv_marker();
                let mut b = self.block(w.body)?;
                fix_tail_semi(&mut b);
                b.stmts.insert(0, mk);
                b.stmts.push(Self::end_marker(k));
                parse_quote!(while #c #b)
            }
            Expr::Loop(w) => {
                if w.label.is_some() {
                    return Err("labelled loop".into());
                }
                let k = self.loops;
                let mk = self.inv_marker();
                let mut b = self.block(w.body)?;
                fix_tail_semi(&mut b);
                b.stmts.insert(0, mk);
                b.stmts.push(Self::end_marker(k));
                parse_quote!(loop #b)
            }
            Expr::Block(mut b) => {
                if b.label.is_some() {
                    return Err("labelled block".into());
                }
                b.attrs.clear();
                b.block = self.block(b.block)?;
                Expr::Block(b)
            }
            Expr::Unsafe(_) => return Err("unsafe block".into()),
            Expr::If(i) => {
                let cond = match strip_paren(&i.cond) {
                    Expr::Let(l) if is_slice_pat(&l.pat) => {
                        let (p, e, t) = (&l.pat, &l.expr, &i.then_branch);
                        let els: Expr = match &i.else_branch {
                            Some((_, e)) => (**e).clone(),
                            None => parse_quote!({}),
                        };
                        return self.expr(parse_quote!(match #e { #p => #t, _ => #els }));
                    }
                    Expr::Let(l) => {
                        // if let => match
                        let e = self.expr((*l.expr).clone())?;
                        let pat = self.pat((*l.pat).clone())?;
                        let (pat, pre) = deref_pats(pat);
                        let mut t = self.block(i.then_branch)?;
                        for s in pre.into_iter().rev() {
                            t.stmts.insert(0, s);
                        }
                        let els: Expr = match i.else_branch {
                            Some((_, e)) => self.expr(*e)?,
                            None => parse_quote!({}),
                        };
                        let els = wrap_block(els);
                        return Ok(parse_quote!(match #e { #pat => #t, _ => #els }));
                    }
                    _ => self.expr(*i.cond)?,
                };
                if contains_let(&cond) {
                    return Err("let chain".into());
                }
                let t = self.block(i.then_branch)?;
                match i.else_branch {
                    Some((_, e)) => {
                        let e = self.expr(*e)?;
                        let e = match e {
                            Expr::If(_) | Expr::Block(_) => e,
                            e => block_expr(vec![tail(e)]),
                        };
                        parse_quote!(if #cond #t else #e)
                    }
                    None => parse_quote!(if #cond #t),
                }
            }
            Expr::Match(m) if m.arms.iter().any(|a| is_slice_pat(&a.pat)) => {
                let e = self.slice_match(m)?;
                self.expr(e)?
            }
            Expr::Match(mut m) => {
                m.attrs.clear();
                m.expr = Box::new(self.expr(*m.expr)?);
                for a in m.arms.iter_mut() {
                    a.attrs.clear();
                    a.pat = self.pat(a.pat.clone())?;
                    let (p, pre) = deref_pats(a.pat.clone());
                    if !pre.is_empty() && a.guard.is_some() {
                        return Err("reference pattern with guard".into());
                    }
                    a.pat = p;
                    if let Some((_, g)) = &mut a.guard {
                        *g = Box::new(self.expr((**g).clone())?);
                    }
                    let b = self.expr((*a.body).clone())?;
                    a.body = Box::new(if pre.is_empty() {
                        b
                    } else {
                        let mut st = pre;
                        st.push(tail(b));
                        block_expr(st)
                    });
                }
                Expr::Match(m)
            }
            Expr::Cast(c) => {
                let src_f = self.floaty(&c.expr);
                let tyn = type_name(&c.ty).unwrap_or_default();
                let i = self.expr(*c.expr)?;
                // `Box::new(x) as Box<dyn Trait>`
                if let Expr::Call(k) = strip_paren(&i) {
                    if matches!(&*k.func, Expr::Path(p) if p.path.is_ident("vx_dyn")) {
                        return Ok(i);
                    }
                }
                let ty = self.ty(*c.ty);
                if tyn == "f64" && !src_f {
                    parse_quote!(vx_to_f64((#i) as u64))
                } else if src_f && matches!(tyn.as_str(), "usize" | "u64" | "u32") {
                    let f = format_ident!("vx_f64_to_{}", tyn);
                    parse_quote!(#f(#i))
                } else if tyn == "f32" || src_f {
                    return Err(format!("float cast to {tyn}"));
                } else {
                    parse_quote!(#i as #ty)
                }
            }
            Expr::Binary(b) if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && (byte_str(&b.left).is_some() || byte_str(&b.right).is_some()) => {
                // comparison with a literal byte string
                let (lit, x) = match byte_str(&b.left) {
                    Some(v) => (v, &b.right),
                    None => (byte_str(&b.right).unwrap(), &b.left),
                };
                let x = match strip_paren(x) {
                    Expr::Reference(r) => (*r.expr).clone(),
                    x => x.clone(),
                };
                let x = self.ref_of(x)?;
                let c: Expr = parse_quote!(vx_bytes_eq(#x, &[#(#lit),*]));
                if matches!(b.op, BinOp::Eq(_)) { c } else { parse_quote!(!#c) }
            }
            Expr::Binary(b) => {
                let fl = self.floaty(&b.left) || self.floaty(&b.right);
                let l = self.expr(*b.left)?;
                let r = self.expr(*b.right)?;
                let op = b.op;
                if fl {
                    match op {
                        BinOp::Div(_) => return Ok(parse_quote!(vx_f64_div(#l, #r))),
                        BinOp::Mul(_) => return Ok(parse_quote!(vx_f64_mul(#l, #r))),
                        BinOp::Add(_) => return Ok(parse_quote!(vx_f64_add(#l, #r))),
                        BinOp::Sub(_) => return Ok(parse_quote!(vx_f64_sub(#l, #r))),
                        _ => return Err("float operator".into()),
                    }
                }
                if matches!(op, BinOp::Add(_) | BinOp::Sub(_) | BinOp::Mul(_) | BinOp::Div(_) | BinOp::Rem(_) | BinOp::BitAnd(_) | BinOp::BitOr(_) | BinOp::BitXor(_) | BinOp::Shl(_) | BinOp::Shr(_)) {
                    let d = |e: Expr| -> Expr {
                        match strip_paren(&e) {
                            Expr::Path(p) if p.path.get_ident().map(|i| self.refs.contains(&i.to_string())).unwrap_or(false) => parse_quote!((*#e)),
                            _ => e,
                        }
                    };
                    let (l, r) = (d(l), d(r));
                    return Ok(parse_quote!(#l #op #r));
                }
                parse_quote!(#l #op #r)
            }
            Expr::Unary(u) => {
                let i = self.expr(*u.expr)?;
                let op = u.op;
                parse_quote!(#op #i)
            }
            Expr::Reference(mut r) => {
                r.attrs.clear();
                if let Some(s) = self.slice(&r.expr, r.mutability.is_some())? {
                    return Ok(s);
                }
                r.expr = Box::new(self.expr(*r.expr)?);
                Expr::Reference(r)
            }
            Expr::Assign(a) => {
                let l = self.expr(*a.left)?;
                if let Expr::Path(p) = strip_paren(&l) {
                    if let Some(i) = p.path.get_ident() {
                        if self.floaty(&a.right) {
                            self.floats.insert(i.to_string());
                        }
                    }
                }
                let r = self.expr(*a.right)?;
                parse_quote!(#l = #r)
            }
            Expr::Field(mut f) => {
                f.base = Box::new(self.expr(*f.base)?);
                Expr::Field(f)
            }
            Expr::Index(i) => {
                if matches!(strip_paren(&i.index), Expr::Range(_)) {
                    let whole = Expr::Index(i);
                    let s = self.slice(&whole, false)?.unwrap();
                    return Ok(parse_quote!((*#s)));
                }
                let b = match self.slice(&i.expr, false)? {
                    Some(b) => b,
                    None => self.expr(*i.expr)?,
                };
                let x = self.expr(*i.index)?;
                parse_quote!(#b[#x])
            }
            Expr::Range(mut r) => {
                r.start = match r.start {
                    Some(s) => Some(Box::new(self.expr(*s)?)),
                    None => None,
                };
                r.end = match r.end {
                    Some(s) => Some(Box::new(self.expr(*s)?)),
                    None => None,
                };
                Expr::Range(r)
            }
            Expr::Struct(mut s) => {
                s.attrs.clear();
                s.path = self.path(&s.path);
                for f in s.fields.iter_mut() {
                    f.attrs.clear();
                    f.colon_token = Some(Default::default());
                    f.expr = self.expr(f.expr.clone())?;
                }
                if let Some(r) = s.rest {
                    s.rest = Some(Box::new(self.expr(*r)?));
                }
                Expr::Struct(s)
            }
            Expr::Tuple(mut t) => {
                for e in t.elems.iter_mut() {
                    *e = self.expr(e.clone())?;
                }
                Expr::Tuple(t)
            }
            Expr::Array(mut t) => {
                for e in t.elems.iter_mut() {
                    *e = self.expr(e.clone())?;
                }
                Expr::Array(t)
            }
            Expr::Repeat(r) => {
                let e = self.expr(*r.expr)?;
                let l = &r.len;
                parse_quote!([#e; #l])
            }
            Expr::Return(r) => match r.expr {
                Some(e) => {
                    if let Expr::MethodCall(m) = strip_paren(&e) {
                        if m.method == "collect" && m.turbofish.is_none() && self.is_iter_expr(&m.receiver) {
                            return Err("returned collect without a type".into());
                        }
                    }
                    let e = self.expr(*e)?;
                    parse_quote!(return #e)
                }
                None => parse_quote!(return),
            },
            Expr::Break(b) => {
                if b.label.is_some() || b.expr.is_some() {
                    return Err("break with label or value".into());
                }
                Expr::Break(b)
            }
            Expr::Continue(c) => {
                if c.label.is_some() {
                    return Err("labelled continue".into());
                }
                Expr::Continue(c)
            }
            Expr::Path(p) => {
                let q = self.path(&p.path);
                Expr::Path(ExprPath { attrs: vec![], qself: p.qself, path: q })
            }
            Expr::Lit(mut l) => {
                l.attrs.clear();
                Expr::Lit(l)
            }
            Expr::Let(_) => return Err("let expression".into()),
            Expr::Closure(_) => return Err("closure value".into()),
            Expr::Infer(i) => Expr::Infer(i),
            other => return Err(format!("expression {}", other.to_token_stream())),
        })
    }

    /// `&E[a..b]` / `&mut E[a..b]`, as a call of a prelude method with the same meaning.
    /// A match of a slice against slice patterns, as tests of its length and elements.
    fn slice_match(&mut self, m: ExprMatch) -> R<Expr> {
        let s = self.fresh("s");
        let n = m.arms.len();
        let mut out: Option<Expr> = None;
        for (k, a) in m.arms.iter().enumerate().rev() {
            let mut cond: Option<Expr> = None;
            let mut lets: Vec<Stmt> = vec![];
            match &a.pat {
                Pat::Wild(_) => {}
                Pat::Ident(i) if i.subpat.is_none() => {
                    let i = &i.ident;
                    lets.push(parse_quote!(let #i = #s;));
                }
                p => {
                    let (c, l) = slice_pat(p, &s)?;
                    if k + 1 < n || a.guard.is_some() {
                        cond = Some(c);
                    }
                    lets = l;
                }
            }
            if let Some((_, g)) = &a.guard {
                let g: Expr = if lets.is_empty() { parse_quote!((#g)) } else { parse_quote!({ #(#lets)* #g }) };
                cond = Some(match cond {
                    Some(c) => parse_quote!(#c && #g),
                    None => g,
                });
            }
            let body = &a.body;
            let b: Expr = parse_quote!({ #(#lets)* #body });
            out = Some(match (cond, out) {
                (None, _) => b,
                (Some(c), Some(e)) => {
                    let e = match e {
                        Expr::If(_) | Expr::Block(_) => e,
                        e => block_expr(vec![tail(e)]),
                    };
                    parse_quote!(if #c #b else #e)
                }
                (Some(_), None) => return Err("guard on the last arm".into()),
            });
        }
        let (e, out) = (m.expr, out.ok_or("empty match")?);
        Ok(parse_quote!({ let #s = #e; #out }))
    }

    fn slice(&mut self, e: &Expr, mutable: bool) -> R<Option<Expr>> {
        let i = match strip_paren(e) {
            Expr::Index(i) => i.clone(),
            _ => return Ok(None),
        };
        let r = match strip_paren(&i.index) {
            Expr::Range(r) => r.clone(),
            _ => return Ok(None),
        };
        let incl = matches!(r.limits, RangeLimits::Closed(_));
        let m = if mutable { "vx_slm" } else { "vx_sl" };
        // E[a..][..n] is a window
        if let (None, Some(n), Expr::Index(j), false) = (&r.start, &r.end, strip_paren(&i.expr), incl) {
            if let Expr::Range(jr) = strip_paren(&j.index) {
                if let (Some(a), None) = (&jr.start, &jr.end) {
                    let base = match self.slice(&j.expr, mutable)? {
                        Some(b) => b,
                        None => self.expr((*j.expr).clone())?,
                    };
                    let a = self.expr((**a).clone())?;
                    let n = self.expr((**n).clone())?;
                    let f = format_ident!("{}_win", m);
                    return Ok(Some(parse_quote!(#base.#f(#a, #n))));
                }
            }
        }
        let base = match self.slice(&i.expr, mutable)? {
            Some(b) => b,
            None => self.expr((*i.expr).clone())?,
        };
        let base: Expr = match base {
            Expr::Reference(r) => *r.expr,
            b => b,
        };
        let lo = match r.start {
            Some(x) => Some(self.expr(*x)?),
            None => None,
        };
        let hi: Option<Expr> = match r.end {
            Some(x) => {
                let h = self.expr(*x)?;
                Some(if incl { parse_quote!((#h) + 1) } else { h })
            }
            None => None,
        };
        Ok(Some(match (lo, hi) {
            (Some(a), Some(b)) => {
                let f = ident(m);
                parse_quote!(#base.#f(#a, #b))
            }
            (Some(a), None) => {
                let f = format_ident!("{}_from", m);
                parse_quote!(#base.#f(#a))
            }
            (None, Some(b)) => {
                let f = format_ident!("{}_to", m);
                parse_quote!(#base.#f(#b))
            }
            (None, None) => {
                let f = format_ident!("{}_all", m);
                parse_quote!(#base.#f())
            }
        }))
    }

    fn ref_of(&mut self, e: Expr) -> R<Expr> {
        if let Some(s) = self.slice(&e, false)? {
            return Ok(s);
        }
        let e = self.expr(e)?;
        Ok(parse_quote!(&(#e)))
    }

    /// The pieces of a format! whose placeholders are all plain (`{}`, `{0}`, `{name}`).
    fn format_parts(&self, m: &ExprMacro) -> Option<Vec<FmtPart>> {
        let args = m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
        let mut pos: Vec<Expr> = vec![];
        let mut named: BTreeMap<String, Expr> = BTreeMap::new();
        let mut it = args.into_iter();
        let lit = match it.next()? {
            Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value(),
            _ => return None,
        };
        for a in it {
            match a {
                Expr::Assign(x) => {
                    named.insert(x.left.to_token_stream().to_string(), *x.right);
                }
                e => pos.push(e),
            }
        }
        let (mut out, mut cur, mut next) = (vec![], String::new(), 0usize);
        let mut cs = lit.chars().peekable();
        while let Some(c) = cs.next() {
            match c {
                '{' if cs.peek() == Some(&'{') => {
                    cs.next();
                    cur.push('{');
                }
                '}' if cs.peek() == Some(&'}') => {
                    cs.next();
                    cur.push('}');
                }
                '{' => {
                    let mut n = String::new();
                    loop {
                        match cs.next()? {
                            '}' => break,
                            c => n.push(c),
                        }
                    }
                    let e = if n.is_empty() {
                        next += 1;
                        pos.get(next - 1)?.clone()
                    } else if let Ok(i) = n.parse::<usize>() {
                        pos.get(i)?.clone()
                    } else if let Some(e) = named.get(&n) {
                        e.clone()
                    } else {
                        let i: Ident = parse_str(&n).ok()?;
                        parse_quote!(#i)
                    };
                    if !cur.is_empty() {
                        out.push(FmtPart::Lit(std::mem::take(&mut cur)));
                    }
                    out.push(FmtPart::Arg(e));
                }
                c => cur.push(c),
            }
        }
        if !cur.is_empty() {
            out.push(FmtPart::Lit(cur));
        }
        Some(out)
    }

    fn mac(&mut self, m: ExprMacro) -> R<Expr> {
        let name = m.mac.path.segments.last().unwrap().ident.to_string();
        let args = || -> R<Vec<Expr>> {
            Ok(m.mac
                .parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated)
                .map_err(|e| format!("macro {name}: {e}"))?
                .into_iter()
                .collect())
        };
        Ok(match name.as_str() {
            "__vx_inv" | "__vx_end" => Expr::Macro(m),
            "format" if self.cfg.shims.contains("vx_show") && self.format_parts(&m).is_some() => {
                // kept: the concatenation of the literals and the shown arguments
                let parts = self.format_parts(&m).unwrap();
                let mut out: Option<Expr> = None;
                for p in parts {
                    let e: Expr = match p {
                        FmtPart::Lit(l) => parse_quote!(vx_lit(#l)),
                        FmtPart::Arg(a) => {
                            let a = self.expr(a)?;
                            parse_quote!(vx_show(#a))
                        }
                    };
                    out = Some(match out {
                        None => e,
                        Some(o) => parse_quote!(vx_cat(#o, #e)),
                    });
                }
                out.unwrap_or(parse_quote!(vx_lit("")))
            }
            "format" => {
                self.notes.insert("format! replaced by an arbitrary string".into());
                parse_quote!(vx_string())
            }
            "panic" | "unreachable" | "todo" | "unimplemented" => parse_quote!(vx_panic()),
            "assert" | "debug_assert" => {
                let a = args()?;
                let c = self.expr(a[0].clone())?;
                parse_quote!(if !(#c) { vx_panic() })
            }
            "assert_eq" | "debug_assert_eq" => {
                let a = args()?;
                let l = self.expr(a[0].clone())?;
                let r = self.expr(a[1].clone())?;
                parse_quote!(if !(#l == #r) { vx_panic() })
            }
            "assert_ne" | "debug_assert_ne" => {
                let a = args()?;
                let l = self.expr(a[0].clone())?;
                let r = self.expr(a[1].clone())?;
                parse_quote!(if #l == #r { vx_panic() })
            }
            "matches" => {
                struct M(Expr, Pat, Option<Expr>);
                impl parse::Parse for M {
                    fn parse(i: parse::ParseStream) -> Result<Self> {
                        let e = i.parse()?;
                        i.parse::<Token![,]>()?;
                        let p = Pat::parse_multi_with_leading_vert(i)?;
                        let g = if i.peek(Token![if]) {
                            i.parse::<Token![if]>()?;
                            Some(i.parse()?)
                        } else {
                            None
                        };
                        let _ = i.parse::<Option<Token![,]>>()?;
                        Ok(M(e, p, g))
                    }
                }
                let M(e, p, g) = m.mac.parse_body::<M>().map_err(|e| e.to_string())?;
                let e = self.expr(e)?;
                let p = self.pat(p)?;
                match g {
                    Some(g) => {
                        let g = self.expr(g)?;
                        parse_quote!(match #e { #p if #g => true, _ => false })
                    }
                    None => parse_quote!(match #e { #p => true, _ => false }),
                }
            }
            "vec" => {
                // vec![a; n] or vec![a, b]
                struct Rp(Expr, Expr);
                impl parse::Parse for Rp {
                    fn parse(i: parse::ParseStream) -> Result<Self> {
                        let e = i.parse()?;
                        i.parse::<Token![;]>()?;
                        Ok(Rp(e, i.parse()?))
                    }
                }
                if let Ok(Rp(e, n)) = m.mac.parse_body::<Rp>() {
                    let e = self.expr(e)?;
                    let n = self.expr(n)?;
                    parse_quote!(vx_vec_repeat(#e, #n))
                } else {
                    let a = args()?;
                    let mut v = vec![];
                    for x in a {
                        v.push(self.expr(x)?);
                    }
                    if v.is_empty() {
                        parse_quote!(Vec::new())
                    } else {
                        parse_quote!(vec![#(#v),*])
                    }
                }
            }
            "write" | "println" | "eprintln" | "print" => return Err(format!("macro {name}")),
            _ => return Err(format!("macro {name}")),
        })
    }

    fn call(&mut self, c: ExprCall, processed: bool) -> R<Expr> {
        let mut args: Vec<Expr> = vec![];
        // from_*_bytes(slice.try_into().unwrap())
        let fpath = match &*c.func {
            Expr::Path(p) => Some(p.path.clone()),
            _ => None,
        };
        let raw = fpath.as_ref().map(path_str).unwrap_or_default();
        let conv = raw.rsplit_once("::").and_then(|(t, n)| {
            let t = t.rsplit("::").next().unwrap().to_string();
            if !["u16", "u32", "u64", "i16", "i32", "i64", "f32", "f64", "u8", "i8"].contains(&t.as_str()) {
                return None;
            }
            let n2 = match n {
                "from_ne_bytes" | "from_le_bytes" => "from_le_bytes",
                "from_be_bytes" => "from_be_bytes",
                "to_ne_bytes" | "to_le_bytes" => "to_le_bytes",
                "to_be_bytes" => "to_be_bytes",
                _ => return None,
            };
            Some((t, n2.to_string()))
        });
        if let Some((t, n)) = conv {
            let a = c.args.first().cloned().ok_or("arity")?;
            if n.starts_with("from") {
                let size: usize = t[1..].parse::<usize>().unwrap() / 8;
                let arg: Expr = if let Some(inner) = try_into_unwrap(&a) {
                    let inner: Expr = if processed { parse_quote!(&(#inner)) } else { self.ref_of(inner)? };
                    let f = format_ident!("vx_arr{}", size);
                    parse_quote!(#f(#inner))
                } else if processed {
                    a
                } else {
                    self.expr(a)?
                };
                let f = format_ident!("vx_{}_{}", t, n);
                return Ok(parse_quote!(#f(#arg)));
            } else {
                let arg = if processed { a } else { self.expr(a)? };
                let f = format_ident!("vx_{}", n);
                let ty = ident(&t);
                return Ok(parse_quote!(<#ty as VxBytes>::#f(#arg)));
            }
        }
        for a in c.args.iter() {
            args.push(if processed { a.clone() } else { self.expr(a.clone())? });
        }
        if let Some((t, "try_from")) = raw.rsplit_once("::") {
            if ["u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize"].contains(&t) && args.len() == 1 {
                let f = format_ident!("vx_try_from_{}", t);
                return Ok(parse_quote!(#f(#(#args),*)));
            }
        }
        if let Some((t, "from")) = raw.rsplit_once("::") {
            if ["u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize"].contains(&t) && args.len() == 1 {
                let f = format_ident!("vx_from_{}", t);
                return Ok(parse_quote!(#f(#(#args),*)));
            }
        }
        if matches!(raw.as_str(), "Bytes::from" | "bytes::Bytes::from" | "Bytes::from_owner") && args.len() == 1 {
            return Ok(parse_quote!(vx_bytes_from(#(#args),*)));
        }
        // `cmp::max(a, b)`, `u64::max(a, b)`
        if let Some((t, n)) = raw.rsplit_once("::") {
            if matches!(n, "max" | "min") && args.len() == 2 && matches!(t, "std::cmp" | "core::cmp" | "cmp" | "Ord" | "u8" | "u16" | "u32" | "u64" | "usize" | "i64" | "i32") {
                let (a, b, f) = (&args[0], &args[1], ident(n));
                return Ok(parse_quote!((#a).#f(#b)));
            }
        }
        // a local closure
        if let Some(p) = &fpath {
            if let Some(id) = p.get_ident() {
                if let Some((_, cl)) = self.closures.iter().rev().find(|(n, _)| id == n).cloned() {
                    return self.apply(&Expr::Closure(cl), args);
                }
            }
        }
        if let Some(p) = fpath {
            let q = self.path(&p);
            let s = path_str(&q);
            let last = q.segments.last().unwrap().ident.to_string();
            let renamed = self.cfg.rename_paths.contains_key(&path_str(&strip_mods(&p))) || self.cfg.rename_paths.contains_key(&path_str(&p));
            let is_ctor = last.chars().next().map(|c| c.is_uppercase()).unwrap_or(false);
            if !renamed && !is_ctor && !self.cfg.shims.contains(&last) {
                let spec = match (&self.self_ty, s.strip_prefix("Self::")) {
                    (Some(t), Some(r)) => format!("{t}::{r}"),
                    _ => s.clone(),
                };
                if !self.cfg.contracted.contains(&spec) {
                    if let Some(f) = self.ix.find(&spec).cloned() {
                        return self.inline(&f, args);
                    }
                }
            }
            // room for as many elements as a collection in memory has is not room made on the say-so of a number
            let has_len = |e: &Expr| matches!(strip_paren(e), Expr::MethodCall(m) if m.method == "len" && m.args.is_empty());
            if renamed && last == "vx_vec_cap" && args.len() == 1 && has_len(&args[0]) {
                return Ok(parse_quote!(vx_vec_room(#(#args),*)));
            }
            let ep = Expr::Path(ExprPath { attrs: vec![], qself: match &*c.func { Expr::Path(p) => p.qself.clone(), _ => None }, path: q });
            return Ok(parse_quote!(#ep(#(#args),*)));
        }
        let f = self.expr(*c.func)?;
        Ok(parse_quote!(#f(#(#args),*)))
    }

    fn method(&mut self, mut m: ExprMethodCall) -> R<Expr> {
        m.attrs.clear();
        // `r.read_exact(&mut [0; n])`: n bytes read and forgotten
        if m.method == "read_exact" && m.args.len() == 1 {
            if let Expr::Reference(r) = &m.args[0] {
                if let Expr::Repeat(rp) = &*r.expr {
                    let (r, n) = (self.expr((*m.receiver).clone())?, self.expr((*rp.len).clone())?);
                    return Ok(parse_quote!(#r.vx_read_past(#n)));
                }
            }
        }
        // `it.by_ref().take(n).collect()`: the next n items of a stored iterator
        if m.method == "collect" {
            if let Expr::MethodCall(t) = strip_paren(&m.receiver) {
                if let Expr::MethodCall(b) = strip_paren(&t.receiver) {
                    if t.method == "take" && t.args.len() == 1 && b.method == "by_ref" {
                        let (r, n) = (self.expr((*b.receiver).clone())?, self.expr(t.args[0].clone())?);
                        return Ok(parse_quote!(#r.vx_take(#n)));
                    }
                }
            }
        }
        if let Some(e) = self.sink(&m, None)? {
            return Ok(e);
        }
        let name = m.method.to_string();
        // `m.entry(k).or_insert(v)`: keeps what is there
        if name == "or_insert" && m.args.len() == 1 {
            if let Expr::MethodCall(en) = strip_paren(&m.receiver) {
                if en.method == "entry" && en.args.len() == 1 {
                    let (r, k, v) = (self.expr((*en.receiver).clone())?, self.expr(en.args[0].clone())?, self.expr(m.args[0].clone())?);
                    return Ok(parse_quote!(#r.vx_or_insert(#k, #v)));
                }
            }
        }
        // `v.extend(items)`
        if name == "extend" && m.args.len() == 1 && is_place(strip_paren(&m.receiver)) {
            let v = self.expr((*m.receiver).clone())?;
            if self.is_iter_expr(&m.args[0]) {
                let p = self.pipe(&m.args[0])?;
                let st = self.gen(p, &mut |_, it| Ok(vec![parse_quote!(#v.push(vx_item(#it));)]))?;
                return Ok(block_expr(st));
            }
            let a = self.expr(m.args[0].clone())?;
            return Ok(parse_quote!(#v.vx_extend(#a)));
        }
        if name == "next" && m.args.is_empty() {
            if let Expr::MethodCall(mm) = strip_paren(&m.receiver) {
                if mm.method == "into_iter" && mm.args.is_empty() {
                    let r = self.expr((*mm.receiver).clone())?;
                    return Ok(parse_quote!(vx_take_first(#r)));
                }
            }
        }
        let closure_arg = m.args.iter().any(|a| matches!(strip_paren(a), Expr::Closure(_)))
            || (matches!(name.as_str(), "map" | "and_then" | "map_err") && m.args.len() == 1);
        if self.floaty(&m.receiver) && matches!(name.as_str(), "ceil" | "round" | "floor" | "trunc") {
            let r = self.expr(*m.receiver)?;
            let f = format_ident!("vx_f64_{}", name);
            return Ok(parse_quote!(#f(#r)));
        }
        if closure_arg && !self.is_iter_expr(&m.receiver) {
            let res = self.resultish(&m.receiver);
            let f = m.args.last().cloned().unwrap();
            let nparams = match strip_paren(&f) {
                Expr::Closure(c) => c.inputs.len(),
                _ => 1,
            };
            let known = matches!(
                name.as_str(),
                "map" | "and_then" | "map_err" | "ok_or_else" | "unwrap_or_else" | "map_or" | "map_or_else" | "is_some_and" | "is_ok_and" | "filter" | "or_else" | "is_none_or"
            );
            if known {
                let r = self.expr((*m.receiver).clone())?;
                let v = self.fresh("x");
                let ve: Expr = parse_quote!(#v);
                let (some, none_pat, none_val): (Ident, Pat, Expr) = if res {
                    (ident("Ok"), Pat::parse_single_s("Err(vx_e)"), parse_quote!(Err(vx_e)))
                } else {
                    (ident("Some"), Pat::parse_single_s("None"), parse_quote!(None))
                };
                return Ok(match name.as_str() {
                    "map" => {
                        let b = self.apply(&f, vec![ve])?;
                        parse_quote!(match #r { #some(#v) => #some(#b), #none_pat => #none_val })
                    }
                    "and_then" => {
                        let b = self.apply(&f, vec![ve])?;
                        parse_quote!(match #r { #some(#v) => #b, #none_pat => #none_val })
                    }
                    "map_err" => {
                        let b = self.apply(&f, vec![ve])?;
                        parse_quote!(match #r { Ok(vx_ok) => Ok(vx_ok), Err(#v) => Err(#b) })
                    }
                    "ok_or_else" => {
                        let b = self.apply(&f, vec![])?;
                        parse_quote!(match #r { Some(vx_ok) => Ok(vx_ok), None => Err(#b) })
                    }
                    "unwrap_or_else" => {
                        if nparams == 0 {
                            let b = self.apply(&f, vec![])?;
                            parse_quote!(match #r { Some(vx_ok) => vx_ok, None => #b })
                        } else {
                            let b = self.apply(&f, vec![ve])?;
                            parse_quote!(match #r { Ok(vx_ok) => vx_ok, Err(#v) => #b })
                        }
                    }
                    "map_or" => {
                        let d = self.expr(m.args.first().cloned().unwrap())?;
                        let b = self.apply(&f, vec![ve])?;
                        if res {
                            parse_quote!(match #r { Ok(#v) => #b, Err(_) => #d })
                        } else {
                            parse_quote!(match #r { Some(#v) => #b, None => #d })
                        }
                    }
                    "is_some_and" => {
                        let b = self.apply(&f, vec![ve])?;
                        parse_quote!(match #r { Some(#v) => #b, None => false })
                    }
                    "is_none_or" => {
                        let b = self.apply(&f, vec![ve])?;
                        parse_quote!(match #r { Some(#v) => #b, None => true })
                    }
                    "is_ok_and" => {
                        let b = self.apply(&f, vec![ve])?;
                        parse_quote!(match #r { Ok(#v) => #b, Err(_) => false })
                    }
                    "filter" => {
                        let b = self.apply(&f, vec![parse_quote!(&#v)])?;
                        parse_quote!(match #r { Some(#v) => if #b { Some(#v) } else { None }, None => None })
                    }
                    "or_else" if !res && nparams == 0 => {
                        let b = self.apply(&f, vec![])?;
                        parse_quote!(match #r { Some(vx_ok) => Some(vx_ok), None => #b })
                    }
                    _ => return Err(format!("combinator {name}")),
                });
            }
        }
        if name == "or" && m.args.len() == 1 && !self.resultish(&m.receiver) {
            let (r, d) = (self.expr((*m.receiver).clone())?, self.expr(m.args[0].clone())?);
            let (a, b) = (self.fresh("a"), self.fresh("b"));
            return Ok(parse_quote!({ let #a = #r; let #b = #d; match #a { Some(vx_ok) => Some(vx_ok), None => #b } }));
        }
        // byte conversions
        match name.as_str() {
            "to_ne_bytes" | "to_le_bytes" => {
                let r = self.expr(*m.receiver)?;
                return Ok(parse_quote!((#r).vx_to_le_bytes()));
            }
            "to_be_bytes" => {
                let r = self.expr(*m.receiver)?;
                return Ok(parse_quote!((#r).vx_to_be_bytes()));
            }
            _ => {}
        }
        const MUT: &[&str] = &["copy_from_slice", "clone_from_slice", "fill", "swap", "reverse", "sort", "sort_unstable", "copy_within", "iter_mut", "rotate_left", "rotate_right"];
        let recv = match self.slice(&m.receiver, MUT.contains(&name.as_str()))? {
            Some(s) => s,
            None => self.expr((*m.receiver).clone())?,
        };
        let mut args = vec![];
        for a in m.args.iter() {
            args.push(self.expr(a.clone())?);
        }
        if let Some(new) = self.cfg.rename_methods.get(&name) {
            let new = ident(new);
            let tf = &m.turbofish;
            return Ok(parse_quote!(#recv.#new #tf(#(#args),*)));
        }
        // inline uncontracted in-crate methods
        let cands = self.ix.by_name(&name, true);
        let std_names = [
            "len", "is_empty", "clone", "as_ref", "as_mut", "read", "fetch", "next", "get", "insert", "into", "eq", "fmt",
            "get_bytes", "get_byte_ranges", "lock", "decode_tile", "contains", "slice", "min", "max", "size", "hash", "default", "try_from", "from",
        ];
        let is_contracted = self.cfg.contracted.iter().any(|c| c.rsplit("::").next() == Some(name.as_str()) && c.contains("::"));
        let recv_is_self = matches!(strip_paren(&recv), Expr::Path(p) if p.path.is_ident("self"));
        if !is_contracted && !self.cfg.shims.contains(&name) {
            let own: Vec<_> = cands.iter().filter(|f| recv_is_self && f.self_ty == self.self_ty && f.self_ty.is_some()).cloned().cloned().collect();
            let pick = if own.len() == 1 {
                Some(own[0].clone())
            } else if cands.len() == 1 && !std_names.contains(&name.as_str()) {
                Some(cands[0].clone())
            } else {
                None
            };
            if let Some(f) = pick {
                let mut all = vec![recv];
                all.extend(args);
                return self.inline(&f, all);
            }
        }
        let meth = &m.method;
        let tf = match m.turbofish {
            Some(mut t) => {
                for a in t.args.iter_mut() {
                    if let GenericArgument::Type(t) = a {
                        *t = self.ty(t.clone());
                    }
                }
                Some(t)
            }
            None => None,
        };
        Ok(parse_quote!(#recv.#meth #tf(#(#args),*)))
    }

    /// Replace a call by the callee's body.
    fn inline(&mut self, f: &FnEntry, args: Vec<Expr>) -> R<Expr> {
        if self.inline_depth >= 4 {
            return Err(format!("inline depth at {}", f.sig.ident));
        }
        let mut names: Vec<(Pat, Option<Type>)> = vec![];
        let mut self_kind = None;
        for i in f.sig.inputs.iter() {
            match i {
                FnArg::Receiver(r) => {
                    self_kind = Some((r.reference.is_some(), r.mutability.is_some()));
                }
                FnArg::Typed(t) => names.push(((*t.pat).clone(), Some((*t.ty).clone()))),
            }
        }
        if !f.sig.generics.params.iter().all(|g| matches!(g, GenericParam::Lifetime(_))) {
            // generic types are left to inference: drop annotations mentioning them
            let gs: BTreeSet<String> = f.sig.generics.params.iter().filter_map(|g| match g { GenericParam::Type(t) => Some(t.ident.to_string()), _ => None }).collect();
            for n in names.iter_mut() {
                if let Some(t) = &n.1 {
                    if t.to_token_stream().into_iter().any(|tt| gs.contains(&tt.to_string())) || matches!(t, Type::ImplTrait(_)) {
                        n.1 = match t {
                            Type::Reference(r) if r.mutability.is_some() => Some(parse_quote!(&mut _)),
                            Type::Reference(_) => Some(parse_quote!(&_)),
                            _ => None,
                        };
                    }
                }
            }
        }
        self.inlined.insert(match &f.self_ty {
            Some(t) => format!("{t}::{}", f.sig.ident),
            None => f.sig.ident.to_string(),
        });
        let mut block = f.block.clone();
        let mut args = args.into_iter();
        let mut st: Vec<Stmt> = vec![];
        if let Some((by_ref, mutable)) = self_kind {
            let recv = args.next().ok_or("arity")?;
            let recv_is_self = matches!(strip_paren(&recv), Expr::Path(p) if p.path.is_ident("self"));
            if !recv_is_self {
                let only_places = {
                    let mut v = OnlyPlaces { name: "self".into(), ok: true };
                    v.visit_block(&block);
                    v.ok
                };
                let root = place_root(&recv);
                if let (true, true, Some(r)) = (by_ref, only_places, root.filter(|r| !binds(&block, r))) {
                    let _ = r;
                    Subst { map: vec![("self".into(), strip_paren(&recv).clone(), None)] }.visit_block_mut(&mut block);
                } else {
                    let s = self.fresh("self");
                    // a place is borrowed; method-call auto-ref is made explicit
                    let e: Expr = match (by_ref, mutable) {
                        _ if matches!(strip_paren(&recv), Expr::Reference(_)) => recv,
                        (true, true) => parse_quote!(&mut #recv),
                        (true, false) => parse_quote!(&#recv),
                        _ => recv,
                    };
                    st.push(parse_quote!(let #s = #e;));
                    Subst { map: vec![("self".into(), parse_quote!(#s), None)] }.visit_block_mut(&mut block);
                }
            }
        }
        // Self -> type
        if let Some(t) = &f.self_ty {
            struct S(String);
            impl VisitMut for S {
                fn visit_path_segment_mut(&mut self, p: &mut PathSegment) {
                    if p.ident == "Self" {
                        p.ident = ident(&self.0);
                    }
                    visit_mut::visit_path_segment_mut(self, p);
                }
            }
            S(t.clone()).visit_block_mut(&mut block);
        }
        // a parameter that only names a variable of the caller is replaced by it; the others are bound in two steps (all
        // arguments are evaluated before the parameters), which avoids capture
        let mut temps = vec![];
        let mut map = vec![];
        let pairs: Vec<((Pat, Option<Type>), Expr)> = names.into_iter().zip(args).collect();
        let lent: Vec<String> = pairs.iter().filter_map(|(_, a)| match strip_paren(a) { Expr::Reference(r) if r.mutability.is_some() => place_root(&r.expr), _ => None }).collect();
        for ((pat, ty), a) in pairs {
            if let Pat::Ident(pi) = &pat {
                let name = pi.ident.to_string();
                let mut rebound = Rebound { name: name.clone(), hit: false };
                rebound.visit_block(&block);
                if pi.by_ref.is_none() && pi.mutability.is_none() && pi.subpat.is_none() && !rebound.hit {
                    let sub = match strip_paren(&a) {
                        Expr::Path(q) if q.path.get_ident().is_some() && ty.is_some() && !q.path.is_ident("self") && q.path.get_ident().unwrap().to_string().chars().next().unwrap().is_lowercase() => {
                            let y = q.path.get_ident().unwrap().to_string();
                            if binds(&block, &y) && y != name || lent.contains(&y) { None } else { Some((name.clone(), strip_paren(&a).clone(), None)) }
                        }
                        Expr::Reference(r) if matches!(ty, Some(Type::Reference(_))) => match place_root(&r.expr) {
                            Some(y) if y != "self" && matches!(strip_paren(&r.expr), Expr::Path(_)) && !binds(&block, &y) => Some((name.clone(), strip_paren(&r.expr).clone(), Some(r.mutability.is_some()))),
                            _ => None,
                        },
                        _ => None,
                    };
                    if let Some(sub) = sub {
                        map.push(sub);
                        continue;
                    }
                }
            }
            let t = self.fresh("a");
            // reborrow mutable references instead of moving them
            let a2: Expr = match (&ty, strip_paren(&a)) {
                (Some(Type::Reference(r)), Expr::Path(_)) if r.mutability.is_some() => parse_quote!(&mut *#a),
                _ => a,
            };
            match ty.clone().filter(|t| !matches!(t, Type::ImplTrait(_))) {
                Some(ty) => {
                    let ty = strip_lifetimes(self.ty(ty));
                    st.push(parse_quote!(let #t: #ty = #a2;))
                }
                None => st.push(parse_quote!(let #t = #a2;)),
            }
            temps.push((pat, t));
        }
        // a parameter bound by name must not capture a variable put in for another one
        if temps.iter().any(|(p, _)| map.iter().any(|m| pat_binds(p, &place_root(&m.1).unwrap_or_default()))) {
            for (pat, t) in temps.iter_mut() {
                if let Pat::Ident(pi) = pat {
                    map.push((pi.ident.to_string(), parse_quote!(#t), None));
                } else {
                    return Err(format!("parameter pattern of {}", f.sig.ident));
                }
            }
            temps.clear();
        }
        Subst { map }.visit_block_mut(&mut block);
        for (pat, t) in temps {
            st.push(parse_quote!(let #pat = #t;));
        }
        let mut has = HasLoopExit(false);
        has.visit_block(&block);
        if has.0 {
            return Err(format!("callee {} leaves a loop early", f.sig.ident));
        }
        let is_opt = match &f.sig.output {
            ReturnType::Type(_, t) => type_name(t).as_deref() == Some("Option"),
            _ => false,
        };
        let unit = matches!(f.sig.output, ReturnType::Default);
        let body: Expr = if exits_stmts(&block.stmts) {
            let mut stmts = block.stmts;
            if unit {
                stmts.push(tail(parse_quote!(())));
            }
            elim(stmts, is_opt).ok_or(format!("callee {} has an early exit", f.sig.ident))?
        } else {
            block_expr(block.stmts)
        };
        let saved = (self.self_ty.clone(), std::mem::take(&mut self.closures), std::mem::take(&mut self.floats), std::mem::take(&mut self.results));
        self.self_ty = f.self_ty.clone().or(saved.0.clone());
        self.inline_depth += 1;
        let e = self.expr(body);
        self.inline_depth -= 1;
        self.self_ty = saved.0;
        self.closures = saved.1;
        self.floats = saved.2;
        self.results = saved.3;
        let e = e?;
        // keep the callee's result type visible to inference
        let e: Expr = match &f.sig.output {
            ReturnType::Type(_, t) if !mentions_generics(t, f) && !matches!(**t, Type::ImplTrait(_)) => {
                let mut t2 = (**t).clone();
                if let Some(st) = &f.self_ty {
                    SelfTy(st.clone()).visit_type_mut(&mut t2);
                }
                let ty = strip_lifetimes(self.ty(t2));
                let r = self.fresh("r");
                st.push(parse_quote!(let #r: #ty = #e;));
                parse_quote!(#r)
            }
            _ => e,
        };
        st.push(tail(e));
        Ok(block_expr(st))
    }

    /// Translate a whole function body. `ret_opt`: Some(true) if it returns Option, Some(false) for Result.
    pub fn body(&mut self, b: Block, ret: Option<bool>) -> R<Block> {
        let mut stmts = b.stmts;
        // tail-position fallible sink: `iter.map(..).collect()` returned as Result / Option
        let mut b2 = Block { brace_token: Default::default(), stmts: std::mem::take(&mut stmts) };
        if let Some(opt) = ret {
            tail_try(&mut b2, opt, self);
        }
        self.block(b2)
    }
}

/// The variable a place expression (`x`, `x.f.g`) starts from.
fn mentions_generics(t: &Type, f: &FnEntry) -> bool {
    let ig = f.impl_generics.as_ref().map(|g| g.params.iter().collect::<Vec<_>>()).unwrap_or_default();
    let mut names: Vec<String> = f.sig.generics.params.iter().chain(ig.iter().copied()).filter_map(|p| match p {
        GenericParam::Type(t) => Some(t.ident.to_string()),
        GenericParam::Const(c) => Some(c.ident.to_string()),
        GenericParam::Lifetime(_) => None,
    }).collect();
    if !ig.is_empty() {
        names.push("Self".into());
    }
    let toks = t.to_token_stream().to_string();
    toks.split(|c: char| !(c.is_alphanumeric() || c == '_')).any(|w| names.iter().any(|n| n == w))
}
fn byte_str(e: &Expr) -> Option<Vec<u8>> {
    match strip_paren(e) {
        Expr::Lit(ExprLit { lit: Lit::ByteStr(b), .. }) => Some(b.value()),
        Expr::Reference(r) if r.mutability.is_none() => byte_str(&r.expr),
        Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => byte_str(expr),
        Expr::Index(i) if matches!(strip_paren(&i.index), Expr::Range(r) if r.start.is_none() && r.end.is_none()) => byte_str(&i.expr),
        _ => None,
    }
}
fn is_slice_pat(p: &Pat) -> bool {
    match p {
        Pat::Slice(_) => true,
        Pat::Lit(ExprLit { lit: Lit::ByteStr(_), .. }) => true,
        Pat::Or(o) => o.cases.iter().any(is_slice_pat),
        Pat::Reference(r) => is_slice_pat(&r.pat),
        Pat::Paren(r) => is_slice_pat(&r.pat),
        _ => false,
    }
}
/// The test and the bindings of a slice pattern on `s`.
fn slice_pat(p: &Pat, s: &Ident) -> R<(Expr, Vec<Stmt>)> {
    let (p, by_value) = match p {
        Pat::Paren(r) => return slice_pat(&r.pat, s),
        Pat::Reference(r) => (&*r.pat, true),
        p => (p, false),
    };
    match p {
        Pat::Lit(ExprLit { lit: Lit::ByteStr(b), .. }) => {
            let v = b.value();
            let n = v.len();
            let mut c: Expr = parse_quote!(#s.len() == #n);
            for (k, x) in v.iter().enumerate() {
                c = parse_quote!(#c && #s[#k] == #x);
            }
            Ok((c, vec![]))
        }
        Pat::Or(o) => {
            let mut c: Option<Expr> = None;
            for q in &o.cases {
                let (d, l) = slice_pat(q, s)?;
                if !l.is_empty() {
                    return Err("bindings in alternative slice patterns".into());
                }
                c = Some(match c {
                    Some(c) => parse_quote!(#c || #d),
                    None => d,
                });
            }
            let c = c.unwrap();
            Ok((parse_quote!((#c)), vec![]))
        }
        Pat::Slice(sl) => {
            let n = sl.elems.len();
            let rest = sl.elems.iter().position(|e| matches!(e, Pat::Rest(_)) || matches!(e, Pat::Ident(i) if matches!(i.subpat.as_ref().map(|x| &*x.1), Some(Pat::Rest(_)))));
            let min = if rest.is_some() { n - 1 } else { n };
            let mut c: Expr = if rest.is_some() { parse_quote!(#s.len() >= #min) } else { parse_quote!(#s.len() == #min) };
            let mut lets = vec![];
            for (k, e) in sl.elems.iter().enumerate() {
                let at: Expr = match rest {
                    Some(r) if k > r => {
                        let b = n - k;
                        parse_quote!(#s[#s.len() - #b])
                    }
                    _ => parse_quote!(#s[#k]),
                };
                match e {
                    _ if rest == Some(k) => {
                        if let Pat::Ident(i) = e {
                            let id = &i.ident;
                            let after = n - 1 - k;
                            lets.push(if after == 0 { parse_quote!(let #id = &#s[#k..];) } else { parse_quote!(let #id = &#s[#k..#s.len() - #after];) });
                        }
                    }
                    Pat::Wild(_) => {}
                    Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() => {
                        let id = &i.ident;
                        lets.push(if by_value { parse_quote!(let #id = #at;) } else { parse_quote!(let #id = &#at;) });
                    }
                    e => {
                        if !pat_vars(e).is_empty() {
                            return Err("binding inside a slice pattern".into());
                        }
                        c = parse_quote!(#c && match #at { #e => true, _ => false });
                    }
                }
            }
            Ok((c, lets))
        }
        _ => Err("slice pattern".into()),
    }
}
fn place_root(e: &Expr) -> Option<String> {
    match strip_paren(e) {
        Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
        Expr::Field(f) => place_root(&f.base),
        _ => None,
    }
}
fn pat_binds(p: &Pat, name: &str) -> bool {
    let mut b = Binds { name: name.into(), hit: false };
    b.visit_pat(p);
    b.hit
}
struct Binds {
    name: String,
    hit: bool,
}
impl<'a> Visit<'a> for Binds {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        self.hit |= p.ident == self.name;
        visit::visit_pat_ident(self, p);
    }
}
fn binds(b: &Block, name: &str) -> bool {
    let mut v = Binds { name: name.into(), hit: false };
    v.visit_block(b);
    v.hit
}
/// A name is bound again, assigned as a whole, or read inside a format string.
struct Rebound {
    name: String,
    hit: bool,
}
impl<'a> Visit<'a> for Rebound {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        self.hit |= p.ident == self.name;
        visit::visit_pat_ident(self, p);
    }
    fn visit_expr_assign(&mut self, a: &'a ExprAssign) {
        self.hit |= matches!(strip_paren(&a.left), Expr::Path(p) if p.path.is_ident(&self.name));
        visit::visit_expr_assign(self, a);
    }
    fn visit_field_value(&mut self, f: &'a FieldValue) {
        visit::visit_field_value(self, f);
    }
    fn visit_macro(&mut self, m: &'a Macro) {
        let t = m.tokens.to_string();
        self.hit |= t.contains(&format!("{{{}", self.name));
    }
}
/// A name is used only as the start of a place (`x.f`, `x[i]`, `x.m()`).
struct OnlyPlaces {
    name: String,
    ok: bool,
}
impl<'a> Visit<'a> for OnlyPlaces {
    fn visit_expr(&mut self, e: &'a Expr) {
        let is = |e: &Expr| matches!(strip_paren(e), Expr::Path(p) if p.path.is_ident(&self.name));
        match e {
            Expr::Field(f) if is(&f.base) => {}
            Expr::Index(i) if is(&i.expr) => self.visit_expr(&i.index),
            Expr::MethodCall(m) if is(&m.receiver) && m.method != "into_iter" => {
                for a in m.args.iter() {
                    self.visit_expr(a);
                }
            }
            Expr::Path(p) if p.path.is_ident(&self.name) => self.ok = false,
            _ => visit::visit_expr(self, e),
        }
    }
    fn visit_macro(&mut self, m: &'a Macro) {
        if m.tokens.to_string().contains(&self.name) {
            self.ok = false;
        }
    }
}
/// Where a name is used: in code run once (outer) or under a loop or closure (inner).
struct Uses {
    name: String,
    depth: usize,
    outer: usize,
    inner: usize,
}
impl<'a> Visit<'a> for Uses {
    fn visit_expr_path(&mut self, p: &'a ExprPath) {
        if p.path.is_ident(&self.name) {
            if self.depth == 0 {
                self.outer += 1;
            } else {
                self.inner += 1;
            }
        }
    }
    fn visit_macro(&mut self, m: &'a Macro) {
        if m.tokens.to_string().contains(&self.name) {
            self.inner += 1;
        }
    }
    fn visit_expr_for_loop(&mut self, f: &'a ExprForLoop) {
        self.visit_expr(&f.expr);
        self.depth += 1;
        self.visit_block(&f.body);
        self.depth -= 1;
    }
    fn visit_expr_while(&mut self, f: &'a ExprWhile) {
        self.depth += 1;
        visit::visit_expr_while(self, f);
        self.depth -= 1;
    }
    fn visit_expr_loop(&mut self, f: &'a ExprLoop) {
        self.depth += 1;
        visit::visit_expr_loop(self, f);
        self.depth -= 1;
    }
    fn visit_expr_closure(&mut self, f: &'a ExprClosure) {
        self.depth += 1;
        visit::visit_expr_closure(self, f);
        self.depth -= 1;
    }
}
/// Replace names by expressions; with Some(mutable), the name stands for a reference to the expression.
struct Subst {
    map: Vec<(String, Expr, Option<bool>)>,
}
impl Subst {
    fn of(&self, e: &Expr) -> Option<&(String, Expr, Option<bool>)> {
        match strip_paren(e) {
            Expr::Path(p) => p.path.get_ident().and_then(|i| self.map.iter().find(|m| i == m.0.as_str())),
            _ => None,
        }
    }
}
impl VisitMut for Subst {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let direct = match e {
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => match self.of(&u.expr) {
                Some((_, x, Some(_))) => {
                    *e = x.clone();
                    return;
                }
                _ => false,
            },
            Expr::MethodCall(m) if m.method != "into_iter" => {
                if let Some((_, x, _)) = self.of(&m.receiver) {
                    *m.receiver = x.clone();
                    for a in m.args.iter_mut() {
                        self.visit_expr_mut(a);
                    }
                    true
                } else {
                    false
                }
            }
            Expr::Index(i) => {
                if let Some((_, x, _)) = self.of(&i.expr) {
                    *i.expr = x.clone();
                    self.visit_expr_mut(&mut i.index);
                    true
                } else {
                    false
                }
            }
            Expr::Field(f) => {
                if let Some((_, x, _)) = self.of(&f.base) {
                    *f.base = x.clone();
                    true
                } else {
                    false
                }
            }
            _ => false,
        };
        if direct {
            return;
        }
        if let Some((_, x, r)) = self.of(e) {
            *e = match r {
                Some(true) => parse_quote!((&mut #x)),
                Some(false) => parse_quote!((&#x)),
                None => x.clone(),
            };
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        // `S { x }` is `S { x: x }`
        if f.colon_token.is_none() && self.of(&f.expr).is_some() {
            f.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        fn go(ts: proc_macro2::TokenStream, map: &[(String, Expr, Option<bool>)]) -> proc_macro2::TokenStream {
            let mut out = proc_macro2::TokenStream::new();
            let mut dot = false;
            for t in ts {
                let was = dot;
                dot = matches!(&t, proc_macro2::TokenTree::Punct(p) if p.as_char() == '.');
                match t {
                    proc_macro2::TokenTree::Ident(i) if !was && map.iter().any(|m| i == m.0.as_str()) => {
                        let x = &map.iter().find(|m| i == m.0.as_str()).unwrap().1;
                        out.extend(quote::quote!(#x));
                    }
                    proc_macro2::TokenTree::Group(g) => {
                        let mut n = proc_macro2::Group::new(g.delimiter(), go(g.stream(), map));
                        n.set_span(g.span());
                        out.extend([proc_macro2::TokenTree::Group(n)]);
                    }
                    t => out.extend([t]),
                }
            }
            out
        }
        m.tokens = go(m.tokens.clone(), &self.map);
    }
}

struct SelfTy(String);
impl VisitMut for SelfTy {
    fn visit_path_segment_mut(&mut self, p: &mut PathSegment) {
        if p.ident == "Self" {
            p.ident = ident(&self.0);
        }
        visit_mut::visit_path_segment_mut(self, p);
    }
}

/// Rewrite tail expressions `ITER.collect()` of a Result/Option function into `Ok(ITER.collect::<Result<Vec<_>, _>>()?)`.
fn tail_try(b: &mut Block, opt: bool, x: &X) {
    if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
        tail_try_expr(e, opt, x);
    }
}
fn tail_try_expr(e: &mut Expr, opt: bool, x: &X) {
    match e {
        Expr::Match(m) => {
            for a in m.arms.iter_mut() {
                tail_try_expr(&mut a.body, opt, x);
            }
        }
        Expr::If(i) => {
            tail_try(&mut i.then_branch, opt, x);
            if let Some((_, e)) = &mut i.else_branch {
                tail_try_expr(e, opt, x);
            }
        }
        Expr::Block(b) => tail_try(&mut b.block, opt, x),
        Expr::MethodCall(m) if x.is_iter_expr(&m.receiver) => {
            if m.method == "collect" {
                let kind = X::collect_kind(m);
                if kind.is_none() || matches!(kind.as_deref(), Some("Result") | Some("Option") | Some("AsyncTiffResult") | Some("TiffResult")) {
                    let mut m2 = m.clone();
                    m2.turbofish = Some(if opt { parse_quote!(::<Option<Vec<_>>>) } else { parse_quote!(::<Result<Vec<_>, _>>) });
                    *e = if opt { parse_quote!(Some(#m2?)) } else { parse_quote!(Ok(#m2?)) };
                }
            } else if m.method == "try_for_each" {
                let m2 = m.clone();
                *e = if opt { parse_quote!(Some(#m2?)) } else { parse_quote!(Ok(#m2?)) };
            }
        }
        _ => {}
    }
}

struct FnLevelTry {
    opt: bool,
}
impl VisitMut for FnLevelTry {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            // a fallible pipeline exits through its own loop
            Expr::Try(t) if matches!(strip_paren(&t.expr), Expr::MethodCall(m) if m.method == "collect" || m.method == "try_for_each") => {}
            Expr::Try(t) => {
                let i = &t.expr;
                *e = if self.opt {
                    parse_quote!(match #i { Some(vx_ok) => vx_ok, None => return None })
                } else {
                    parse_quote!(match #i { Ok(vx_ok) => vx_ok, Err(_) => return Err(vx_any_err()) })
                };
            }
            Expr::Return(r) => {
                if let Some(inner) = &r.expr {
                    if !self.opt {
                        if let Expr::Call(c) = strip_paren(inner) {
                            if let Expr::Path(p) = &*c.func {
                                if p.path.is_ident("Err") {
                                    *e = parse_quote!(return Err(vx_any_err()));
                                }
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
}

struct TyFix<'a> {
    cfg: &'a Config,
}
impl<'a> VisitMut for TyFix<'a> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        let key = t.to_token_stream().to_string().replace(' ', "");
        if let Some(r) = self.cfg.rename_types.get(&key) {
            *t = parse_str(r).unwrap();
            return;
        }
        visit_mut::visit_type_mut(self, t);
        if let Type::Path(p) = t {
            if p.qself.is_none() {
                p.path = strip_mods(&p.path);
                let last = p.path.segments.last_mut().unwrap();
                if let Some(r) = self.cfg.rename_types.get(&last.ident.to_string()) {
                    if let Ok(i) = parse_str::<Ident>(r) {
                        last.ident = i;
                    } else {
                        *t = parse_str(r).unwrap();
                    }
                }
            }
        }
    }
}

pub enum FmtPart {
    Lit(String),
    Arg(Expr),
}

pub fn strip_mods(p: &Path) -> Path {
    let segs: Vec<_> = p.segments.iter().cloned().collect();
    let mut start = 0;
    while start + 1 < segs.len() {
        let id = segs[start].ident.to_string();
        let lower = id.chars().next().map(|c| c.is_lowercase()).unwrap_or(false);
        let prim = matches!(id.as_str(), "u8" | "u16" | "u32" | "u64" | "usize" | "i8" | "i16" | "i32" | "i64" | "f32" | "f64" | "str" | "char" | "bool");
        if lower && !prim {
            start += 1
        } else {
            break;
        }
    }
    let mut q = p.clone();
    q.leading_colon = None;
    q.segments = segs[start..].iter().cloned().collect();
    q
}

fn strip_lifetimes(mut t: Type) -> Type {
    struct L;
    impl VisitMut for L {
        fn visit_type_reference_mut(&mut self, r: &mut TypeReference) {
            r.lifetime = None;
            visit_mut::visit_type_reference_mut(self, r);
        }
    }
    L.visit_type_mut(&mut t);
    t
}

trait PatParse {
    fn parse_single_s(s: &str) -> Pat;
}
impl PatParse for Pat {
    fn parse_single_s(s: &str) -> Pat {
        use syn::parse::Parser;
        Pat::parse_single.parse_str(s).unwrap()
    }
}

fn semi_noop(e: Expr) -> Stmt {
    Stmt::Expr(e, None)
}

fn is_place(e: &Expr) -> bool {
    match strip_paren(e) {
        Expr::Path(_) => true,
        Expr::Field(f) => is_place(&f.base),
        Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => is_place(&u.expr),
        _ => false,
    }
}

fn is_blocky(e: &Expr) -> bool {
    matches!(e, Expr::If(_) | Expr::Match(_) | Expr::While(_) | Expr::Loop(_) | Expr::Block(_) | Expr::ForLoop(_))
}

fn is_vx_loop_block(b: &Block) -> bool {
    matches!(b.stmts.last(), Some(Stmt::Expr(Expr::While(_), None)))
}

fn fix_tail_semi(b: &mut Block) {
    if let Some(Stmt::Expr(e, s)) = b.stmts.last_mut() {
        if s.is_none() && !is_blocky(e) {
            *s = Some(Default::default());
        }
    }
}

fn has_break(b: &Block) -> bool {
    struct B(bool);
    impl<'a> Visit<'a> for B {
        fn visit_expr_break(&mut self, _: &'a ExprBreak) {
            self.0 = true;
        }
        fn visit_expr_while(&mut self, _: &'a ExprWhile) {}
        fn visit_expr_loop(&mut self, _: &'a ExprLoop) {}
        fn visit_expr_for_loop(&mut self, _: &'a ExprForLoop) {}
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut x = B(false);
    x.visit_block(b);
    x.0
}

/// break or continue of this very loop
fn escapes(b: &Block) -> bool {
    struct B(bool);
    impl<'a> Visit<'a> for B {
        fn visit_expr_break(&mut self, _: &'a ExprBreak) {
            self.0 = true;
        }
        fn visit_expr_continue(&mut self, _: &'a ExprContinue) {
            self.0 = true;
        }
        fn visit_expr_while(&mut self, _: &'a ExprWhile) {}
        fn visit_expr_loop(&mut self, _: &'a ExprLoop) {}
        fn visit_expr_for_loop(&mut self, _: &'a ExprForLoop) {}
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut x = B(false);
    x.visit_block(b);
    x.0
}

fn contains_let(e: &Expr) -> bool {
    struct B(bool);
    impl<'a> Visit<'a> for B {
        fn visit_expr_let(&mut self, _: &'a ExprLet) {
            self.0 = true;
        }
        fn visit_block(&mut self, _: &'a Block) {}
    }
    let mut x = B(false);
    x.visit_expr(e);
    x.0
}

fn split_tail(e: &Expr) -> (Vec<Stmt>, Expr) {
    if let Expr::Block(b) = e {
        let mut s = b.block.stmts.clone();
        if let Some(Stmt::Expr(t, None)) = s.pop() {
            return (s, t);
        }
    }
    (vec![], e.clone())
}

fn pat_vars(p: &Pat) -> Vec<Ident> {
    struct V(Vec<Ident>);
    impl<'a> Visit<'a> for V {
        fn visit_pat_ident(&mut self, i: &'a PatIdent) {
            if i.ident.to_string().chars().next().unwrap().is_lowercase() {
                self.0.push(i.ident.clone());
            }
        }
    }
    let mut v = V(vec![]);
    v.visit_pat(p);
    v.0
}

/// Replace `&x` sub-patterns by a binding and a dereference.
fn deref_pats(mut p: Pat) -> (Pat, Vec<Stmt>) {
    struct V(Vec<Stmt>);
    impl VisitMut for V {
        fn visit_pat_mut(&mut self, p: &mut Pat) {
            if let Pat::Reference(r) = p {
                if let Pat::Ident(i) = &*r.pat {
                    let id = i.ident.clone();
                    self.0.push(parse_quote!(let #id = *#id;));
                    *p = Pat::Ident(PatIdent { mutability: None, ..i.clone() });
                    return;
                }
            }
            visit_mut::visit_pat_mut(self, p);
        }
    }
    let mut v = V(vec![]);
    v.visit_pat_mut(&mut p);
    (p, v.0)
}

/// `E.try_into().unwrap()` -> E
fn try_into_unwrap(e: &Expr) -> Option<Expr> {
    if let Expr::MethodCall(m) = strip_paren(e) {
        if (m.method == "unwrap" || m.method == "expect") && matches!(strip_paren(&m.receiver), Expr::MethodCall(_)) {
            if let Expr::MethodCall(t) = strip_paren(&m.receiver) {
                if t.method == "try_into" {
                    return Some(strip_paren(&t.receiver).clone());
                }
            }
        }
    }
    None
}

fn opt_like(b: &Block) -> bool {
    // a closure whose exits are on Option: its tail is Some(..) / None, or every `?` is on a known Option method
    fn tail_is_some(e: &Expr) -> Option<bool> {
        match strip_paren(e) {
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) if p.path.is_ident("Some") => Some(true),
                Expr::Path(p) if p.path.is_ident("Ok") || p.path.is_ident("Err") => Some(false),
                _ => None,
            },
            Expr::Path(p) if p.path.is_ident("None") => Some(true),
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if n.starts_with("checked_") || n == "get" || n == "first" {
                    Some(true)
                } else {
                    None
                }
            }
            Expr::Block(b) => match b.block.stmts.last() {
                Some(Stmt::Expr(e, None)) => tail_is_some(e),
                _ => None,
            },
            _ => None,
        }
    }
    match b.stmts.last() {
        Some(Stmt::Expr(e, None)) => tail_is_some(e).unwrap_or(false),
        _ => false,
    }
}

// ---------------------------------------------------------------- return elimination

/// Rewrite a statement list so that its value is what the function would return, without `return` or `?`.
pub fn elim(stmts: Vec<Stmt>, opt: bool) -> Option<Expr> {
    let mut it = stmts.into_iter();
    let mut out: Vec<Stmt> = vec![];
    loop {
        let s = match it.next() {
            None => return Some(block_expr(out)),
            Some(s) => s,
        };
        let rest: Vec<Stmt> = it.clone().collect();
        let mut ex = Exits { ret: false, try_: false };
        ex.visit_stmt(&s);
        if !ex.ret && !ex.try_ {
            out.push(s);
            continue;
        }
        match s {
            Stmt::Expr(Expr::Return(r), _) => {
                let e = r.expr.map(|e| *e).unwrap_or(parse_quote!(()));
                let e = elim_tail(e, opt)?;
                out.push(tail(e));
                return Some(block_expr(out));
            }
            Stmt::Expr(e, None) if rest.is_empty() => {
                let e = elim_tail(e, opt)?;
                out.push(tail(e));
                return Some(block_expr(out));
            }
            // statement `if` / `match`
            Stmt::Expr(Expr::If(i), _) => {
                let e = elim_if(i, rest, opt)?;
                out.push(tail(e));
                return Some(block_expr(out));
            }
            Stmt::Expr(Expr::Match(m), _) => {
                let (pre, m) = hoist_scrutinee(m);
                if let Some(pre) = pre {
                    let mut v = vec![pre, tail(Expr::Match(m))];
                    v[1] = Stmt::Expr(match v.pop() { Some(Stmt::Expr(e, _)) => e, _ => return None }, Some(Default::default()));
                    v.extend(rest);
                    let e = elim(v, opt)?;
                    out.push(tail(e));
                    return Some(block_expr(out));
                }
                let mut m = m;
                for a in m.arms.iter_mut() {
                    let mut b = wrap_block((*a.body).clone()).stmts;
                    if let Some(Stmt::Expr(_, sc)) = b.last_mut() {
                        if sc.is_none() {
                            *sc = Some(Default::default());
                        }
                    }
                    b.extend(rest.clone());
                    a.body = Box::new(elim(b, opt)?);
                }
                out.push(tail(Expr::Match(m)));
                return Some(block_expr(out));
            }
            Stmt::Local(mut l) => {
                let init = l.init.clone()?;
                if let Some((_, els)) = init.diverge {
                    if exits(&init.expr).try_ {
                        return None;
                    }
                    let els = elim(wrap_block(*els).stmts, opt)?;
                    let r = elim(rest, opt)?;
                    let e = init.expr;
                    let p = l.pat;
                    out.push(tail(parse_quote!(match #e { #p => #r, _ => #els })));
                    return Some(block_expr(out));
                }
                match strip_paren(&init.expr).clone() {
                    Expr::Try(t) if { let x = exits(&t.expr); !x.ret && !x.try_ } => {
                        let (pat, ty) = match l.pat.clone() {
                            Pat::Type(t) => (*t.pat, Some(*t.ty)),
                            p => (p, None),
                        };
                        let r = match ty {
                            Some(ty) => {
                                let mut v: Vec<Stmt> = vec![parse_quote!(let #pat: #ty = vx_ok;)];
                                v.extend(rest);
                                elim(v, opt)?
                            }
                            None => {
                                let mut v: Vec<Stmt> = vec![parse_quote!(let #pat = vx_ok;)];
                                v.extend(rest);
                                elim(v, opt)?
                            }
                        };
                        let e = &t.expr;
                        out.push(tail(try_match(e, r, opt)));
                        return Some(block_expr(out));
                    }
                    Expr::Match(m) if !exits(&m.expr).try_ && !exits(&m.expr).ret => {
                        let mut m = m;
                        for a in m.arms.iter_mut() {
                            a.body = Box::new(elim_let_arm(&l.pat, (*a.body).clone(), &rest, opt)?);
                        }
                        out.push(tail(Expr::Match(m)));
                        return Some(block_expr(out));
                    }
                    Expr::If(i) if !exits(&i.cond).try_ && !exits(&i.cond).ret => {
                        let c = &i.cond;
                        let t = elim_let_arm(&l.pat, block_expr(i.then_branch.stmts.clone()), &rest, opt)?;
                        let e = elim_let_arm(&l.pat, (*i.else_branch.as_ref()?.1).clone(), &rest, opt)?;
                        let t = wrap_block(t);
                        let e = wrap_block(e);
                        out.push(tail(parse_quote!(if #c #t else #e)));
                        return Some(block_expr(out));
                    }
                    other => {
                        // hoist the first `?`
                        let (pre, e) = hoist_first(other)?;
                        l.init = Some(LocalInit { eq_token: Default::default(), expr: Box::new(e), diverge: None });
                        let mut v = vec![pre, Stmt::Local(l)];
                        v.extend(rest);
                        let e = elim(v, opt)?;
                        out.push(tail(e));
                        return Some(block_expr(out));
                    }
                }
            }
            Stmt::Expr(e, sc) => {
                let (pre, e) = hoist_first(e)?;
                let mut v = vec![pre, Stmt::Expr(e, sc)];
                v.extend(rest);
                let e = elim(v, opt)?;
                out.push(tail(e));
                return Some(block_expr(out));
            }
            _ => return None,
        }
    }
}

fn try_match(e: &Expr, r: Expr, opt: bool) -> Expr {
    if opt {
        parse_quote!(match #e { Some(vx_ok) => #r, None => None })
    } else {
        parse_quote!(match #e { Ok(vx_ok) => #r, Err(_) => Err(vx_any_err()) })
    }
}

fn elim_let_arm(pat: &Pat, body: Expr, rest: &[Stmt], opt: bool) -> Option<Expr> {
    let mut stmts = wrap_block(body).stmts;
    match stmts.pop() {
        Some(Stmt::Expr(Expr::Return(r), sc)) => {
            stmts.push(Stmt::Expr(Expr::Return(r), sc));
            elim(stmts, opt)
        }
        Some(Stmt::Expr(e, None)) => {
            stmts.push(parse_quote!(let #pat = #e;));
            stmts.extend(rest.iter().cloned());
            elim(stmts, opt)
        }
        Some(s) => {
            stmts.push(s);
            elim(stmts, opt)
        }
        None => None,
    }
}

fn elim_if(i: ExprIf, rest: Vec<Stmt>, opt: bool) -> Option<Expr> {
    if exits(&i.cond).try_ || exits(&i.cond).ret {
        return None;
    }
    let c = &i.cond;
    let mut t = i.then_branch.stmts.clone();
    semi_last(&mut t);
    t.extend(rest.clone());
    let t = wrap_block(elim(t, opt)?);
    let mut e = match &i.else_branch {
        Some((_, e)) => wrap_block((**e).clone()).stmts,
        None => vec![],
    };
    semi_last(&mut e);
    e.extend(rest);
    let e = wrap_block(elim(e, opt)?);
    Some(parse_quote!(if #c #t else #e))
}

fn semi_last(v: &mut [Stmt]) {
    if let Some(Stmt::Expr(e, sc)) = v.last_mut() {
        if sc.is_none() && !matches!(e, Expr::If(_) | Expr::Match(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Loop(_)) {
            *sc = Some(Default::default());
        }
    }
}

fn hoist_scrutinee(m: ExprMatch) -> (Option<Stmt>, ExprMatch) {
    if let Expr::Try(_) = strip_paren(&m.expr) {
        let e = &m.expr;
        let s: Stmt = parse_quote!(let vx_scrut = #e;);
        let mut m = m.clone();
        m.expr = Box::new(parse_quote!(vx_scrut));
        return (Some(s), m);
    }
    (None, m)
}

fn elim_tail(e: Expr, opt: bool) -> Option<Expr> {
    let x = exits(&e);
    if !x.ret && !x.try_ {
        return Some(e);
    }
    match e {
        Expr::Paren(p) => elim_tail(*p.expr, opt),
        Expr::Return(r) => elim_tail(r.expr.map(|e| *e).unwrap_or(parse_quote!(())), opt),
        Expr::Block(b) => elim(b.block.stmts, opt),
        Expr::If(i) => {
            if exits(&i.cond).try_ {
                return None;
            }
            let c = &i.cond;
            let t = wrap_block(elim(i.then_branch.stmts.clone(), opt)?);
            match i.else_branch {
                Some((_, e)) => {
                    let e = wrap_block(elim_tail(*e, opt)?);
                    Some(parse_quote!(if #c #t else #e))
                }
                None => None,
            }
        }
        Expr::Match(m) => {
            let (pre, mut m) = hoist_scrutinee(m);
            if let Some(pre) = pre {
                return elim(vec![pre, tail(Expr::Match(m))], opt);
            }
            if exits(&m.expr).try_ {
                return None;
            }
            for a in m.arms.iter_mut() {
                a.body = Box::new(elim_tail((*a.body).clone(), opt)?);
            }
            Some(Expr::Match(m))
        }
        other => {
            let (pre, e) = hoist_first(other)?;
            elim(vec![pre, tail(e)], opt)
        }
    }
}

/// Hoist the first evaluated `E?` (with E free of exits) out of a straight-line expression.
fn hoist_first(e: Expr) -> Option<(Stmt, Expr)> {
    use std::sync::atomic::{AtomicUsize, Ordering};
    static N: AtomicUsize = AtomicUsize::new(0);
    struct H {
        done: Option<Stmt>,
        bad: bool,
    }
    impl VisitMut for H {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if self.done.is_some() || self.bad {
                return;
            }
            match e {
                Expr::If(_) | Expr::Match(_) | Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_) | Expr::Block(_) => {
                    let x = exits(e);
                    if x.ret || x.try_ {
                        self.bad = true;
                    }
                    return;
                }
                Expr::Closure(_) => return,
                Expr::Binary(b) if matches!(b.op, BinOp::And(_) | BinOp::Or(_)) => {
                    self.visit_expr_mut(&mut b.left);
                    if self.done.is_none() && exits(&b.right).try_ {
                        self.bad = true;
                    }
                    return;
                }
                _ => {}
            }
            visit_mut::visit_expr_mut(self, e);
            if self.done.is_some() || self.bad {
                return;
            }
            if let Expr::Try(t) = e {
                let n = format_ident!("vx_h{}", N.fetch_add(1, Ordering::Relaxed));
                let inner = &t.expr;
                self.done = Some(parse_quote!(let #n = #inner?;));
                *e = parse_quote!(#n);
            }
        }
    }
    let mut e = e;
    let mut h = H { done: None, bad: false };
    h.visit_expr_mut(&mut e);
    if h.bad {
        return None;
    }
    Some((h.done?, e))
}

/// Names visible at each loop, in the translated function.
pub fn loop_scopes(b: &Block, params: &[String]) -> BTreeMap<usize, Vec<String>> {
    struct S {
        scope: Vec<String>,
        out: BTreeMap<usize, Vec<String>>,
    }
    impl<'a> Visit<'a> for S {
        fn visit_block(&mut self, b: &'a Block) {
            let n = self.scope.len();
            for s in &b.stmts {
                match s {
                    Stmt::Local(l) => {
                        if let Some(i) = &l.init {
                            self.visit_expr(&i.expr);
                        }
                        for v in pat_vars(&l.pat) {
                            self.scope.push(v.to_string());
                        }
                    }
                    Stmt::Macro(m) if m.mac.path.is_ident("__vx_inv") => {
                        let k: usize = m.mac.tokens.to_string().trim().parse().unwrap();
                        let mut v = vec![];
                        for x in self.scope.iter().rev() {
                            if !v.contains(x) {
                                v.push(x.clone());
                            }
                        }
                        v.reverse();
                        self.out.insert(k, v);
                    }
                    s => self.visit_stmt(s),
                }
            }
            self.scope.truncate(n);
        }
        fn visit_arm(&mut self, a: &'a Arm) {
            let n = self.scope.len();
            for v in pat_vars(&a.pat) {
                self.scope.push(v.to_string());
            }
            visit::visit_arm(self, a);
            self.scope.truncate(n);
        }
    }
    let mut s = S { scope: params.to_vec(), out: Default::default() };
    s.visit_block(b);
    s.out
}

pub fn quote_str<T: ToTokens>(t: &T) -> String {
    quote!(#t).to_string()
}
