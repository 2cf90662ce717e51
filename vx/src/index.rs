//! Loads the crate under /repo/src, evaluates `cfg`, and indexes its functions and types.
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone)]
pub struct FnEntry {
    pub file: String,
    /// `Type` for methods, None for free functions.
    pub self_ty: Option<String>,
    pub trait_: Option<String>,
    pub impl_generics: Option<Generics>,
    pub impl_self: Option<Type>,
    pub sig: Signature,
    pub block: Block,
    pub line: usize,
    pub public: bool,
}

#[derive(Default)]
pub struct Crate {
    pub fns: Vec<FnEntry>,
    pub types: BTreeMap<String, Item>,
    pub consts: BTreeMap<String, Item>,
    pub aliases: BTreeMap<String, Item>,
    /// variants of enums imported by `use Enum::{..}`: file -> names
    pub files: Vec<String>,
    pub errors: Vec<String>,
}

/// Evaluate a cfg predicate for the configuration under verification:
/// little-endian, not wasm, not test, all cargo features, debug assertions on.
pub fn cfg_eval(m: &Meta) -> Option<bool> {
    match m {
        Meta::Path(p) => {
            let s = p.get_ident()?.to_string();
            Some(match s.as_str() {
                "test" => false,
                "debug_assertions" => true,
                "unix" => true,
                "windows" => false,
                _ => false,
            })
        }
        Meta::NameValue(nv) => {
            let k = nv.path.get_ident()?.to_string();
            let v = match &nv.value {
                Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value(),
                _ => return None,
            };
            Some(match k.as_str() {
                "target_endian" => v == "little",
                "feature" => true,
                "target_arch" => v == "x86_64",
                "target_pointer_width" => v == "64",
                "target_os" => v == "linux",
                _ => false,
            })
        }
        Meta::List(l) => {
            let k = l.path.get_ident()?.to_string();
            let inner = l
                .parse_args_with(punctuated::Punctuated::<Meta, Token![,]>::parse_terminated)
                .ok()?;
            let vals: Option<Vec<bool>> = inner.iter().map(cfg_eval).collect();
            let vals = vals?;
            match k.as_str() {
                "not" => Some(!vals[0]),
                "all" => Some(vals.iter().all(|x| *x)),
                "any" => Some(vals.iter().any(|x| *x)),
                _ => None,
            }
        }
    }
}

pub fn cfg_on(attrs: &[Attribute]) -> bool {
    for a in attrs {
        if a.path().is_ident("cfg") {
            if let Ok(m) = a.parse_args::<Meta>() {
                if cfg_eval(&m) == Some(false) {
                    return false;
                }
            }
        }
    }
    true
}

fn stmt_attrs(s: &Stmt) -> &[Attribute] {
    match s {
        Stmt::Local(l) => &l.attrs,
        Stmt::Item(_) => &[],
        Stmt::Macro(m) => &m.attrs,
        Stmt::Expr(e, _) => expr_attrs(e),
    }
}

pub fn expr_attrs(e: &Expr) -> &[Attribute] {
    macro_rules! m { ($($v:ident),*) => { match e { $(Expr::$v(x) => &x.attrs,)* _ => &[] } } }
    m!(Array, Assign, Async, Await, Binary, Block, Break, Call, Cast, Closure, Const, Continue, Field,
       ForLoop, Group, If, Index, Infer, Let, Lit, Loop, Macro, Match, MethodCall, Paren, Path, Range,
       Reference, Repeat, Return, Struct, Try, Tuple, Unary, Unsafe, While)
}

pub struct Cfg;
impl VisitMut for Cfg {
    fn visit_file_mut(&mut self, f: &mut File) {
        f.items.retain(|i| item_on(i));
        visit_mut::visit_file_mut(self, f);
        f.attrs.clear();
    }
    fn visit_item_mod_mut(&mut self, m: &mut ItemMod) {
        if let Some((_, items)) = &mut m.content {
            items.retain(item_on);
        }
        visit_mut::visit_item_mod_mut(self, m);
    }
    fn visit_item_impl_mut(&mut self, m: &mut ItemImpl) {
        m.items.retain(|i| match i {
            ImplItem::Fn(f) => cfg_on(&f.attrs),
            _ => true,
        });
        visit_mut::visit_item_impl_mut(self, m);
    }
    fn visit_item_enum_mut(&mut self, m: &mut ItemEnum) {
        m.variants = m.variants.clone().into_iter().filter(|v| cfg_on(&v.attrs)).collect();
        visit_mut::visit_item_enum_mut(self, m);
    }
    fn visit_fields_named_mut(&mut self, m: &mut FieldsNamed) {
        m.named = m.named.clone().into_iter().filter(|v| cfg_on(&v.attrs)).collect();
        visit_mut::visit_fields_named_mut(self, m);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain(|s| cfg_on(stmt_attrs(s)));
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_match_mut(&mut self, m: &mut ExprMatch) {
        m.arms.retain(|a| cfg_on(&a.attrs));
        visit_mut::visit_expr_match_mut(self, m);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if m.mac.path.is_ident("cfg") {
                if let Ok(meta) = m.mac.parse_body::<Meta>() {
                    if let Some(b) = cfg_eval(&meta) {
                        *e = if b { parse_quote!(true) } else { parse_quote!(false) };
                        return;
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

fn item_on(i: &Item) -> bool {
    let a: &[Attribute] = match i {
        Item::Const(x) => &x.attrs,
        Item::Enum(x) => &x.attrs,
        Item::Fn(x) => &x.attrs,
        Item::Impl(x) => &x.attrs,
        Item::Macro(x) => &x.attrs,
        Item::Mod(x) => &x.attrs,
        Item::Static(x) => &x.attrs,
        Item::Struct(x) => &x.attrs,
        Item::Trait(x) => &x.attrs,
        Item::Type(x) => &x.attrs,
        Item::Use(x) => &x.attrs,
        _ => &[],
    };
    cfg_on(a)
}

pub fn type_name(t: &Type) -> Option<String> {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
        Type::Reference(r) => type_name(&r.elem),
        Type::Paren(r) => type_name(&r.elem),
        Type::Group(r) => type_name(&r.elem),
        _ => None,
    }
}

fn walk(dir: &Path, out: &mut Vec<PathBuf>) {
    let mut es: Vec<_> = std::fs::read_dir(dir).map(|r| r.flatten().map(|e| e.path()).collect()).unwrap_or_default();
    es.sort();
    for p in es {
        if p.is_dir() {
            if p.file_name().map(|n| n == "test" || n == "tests").unwrap_or(false) {
                continue;
            }
            walk(&p, out);
        } else if p.extension().map(|e| e == "rs").unwrap_or(false) {
            out.push(p);
        }
    }
}

impl Crate {
    pub fn load(repo: &str, expand: &[String]) -> Crate {
        let mut ix = Crate::default();
        let root = Path::new(repo).join("src");
        let mut files = vec![];
        walk(&root, &mut files);
        for p in files {
            let rel = p.strip_prefix(repo).unwrap().to_string_lossy().to_string();
            let text = if expand.iter().any(|e| *e == rel) {
                match expand_file(&p) {
                    Ok(t) => t,
                    Err(e) => {
                        ix.errors.push(format!("{rel}: {e}"));
                        continue;
                    }
                }
            } else {
                std::fs::read_to_string(&p).unwrap_or_default()
            };
            match syn::parse_file(&text) {
                Ok(mut f) => {
                    Cfg.visit_file_mut(&mut f);
                    ix.files.push(rel.clone());
                    ix.add_items(&rel, f.items);
                }
                Err(e) => ix.errors.push(format!("{rel}: {e}")),
            }
        }
        ix
    }

    fn add_items(&mut self, file: &str, items: Vec<Item>) {
        for it in items {
            match it {
                Item::Fn(f) => self.fns.push(FnEntry {
                    file: file.into(),
                    self_ty: None,
                    trait_: None,
                    impl_generics: None,
                    impl_self: None,
                    line: f.sig.ident.span().start().line,
                    public: matches!(f.vis, Visibility::Public(_)),
                    sig: f.sig,
                    block: *f.block,
                }),
                Item::Impl(im) if im.attrs.iter().any(|a| a.path().is_ident("automatically_derived")) => {}
                Item::Impl(im) => {
                    let st = type_name(&im.self_ty);
                    let tr = im.trait_.as_ref().map(|t| t.1.segments.last().unwrap().ident.to_string());
                    for i in im.items {
                        if let ImplItem::Fn(f) = i {
                            self.fns.push(FnEntry {
                                file: file.into(),
                                self_ty: st.clone(),
                                trait_: tr.clone(),
                                impl_generics: Some(im.generics.clone()),
                                impl_self: Some((*im.self_ty).clone()),
                                line: f.sig.ident.span().start().line,
                                public: tr.is_some() || matches!(f.vis, Visibility::Public(_)),
                                sig: f.sig,
                                block: f.block,
                            });
                        }
                    }
                }
                Item::Trait(t) => {
                    for i in t.items.iter() {
                        if let TraitItem::Fn(f) = i {
                            if let Some(b) = &f.default {
                                self.fns.push(FnEntry {
                                    file: file.into(),
                                    self_ty: Some(t.ident.to_string()),
                                    trait_: Some(t.ident.to_string()),
                                    impl_generics: None,
                                    impl_self: None,
                                    line: f.sig.ident.span().start().line,
                                    public: true,
                                    sig: f.sig.clone(),
                                    block: b.clone(),
                                });
                            }
                        }
                    }
                    self.types.insert(t.ident.to_string(), Item::Trait(t));
                }
                Item::Struct(s) => {
                    self.types.insert(s.ident.to_string(), Item::Struct(s));
                }
                Item::Enum(s) => {
                    self.types.insert(s.ident.to_string(), Item::Enum(s));
                }
                Item::Type(s) => {
                    self.aliases.insert(s.ident.to_string(), Item::Type(s));
                }
                Item::Const(s) => {
                    self.consts.insert(s.ident.to_string(), Item::Const(s));
                }
                Item::Mod(m) => {
                    if let Some((_, its)) = m.content {
                        self.add_items(file, its);
                    }
                }
                _ => {}
            }
        }
    }

    /// Find a function by `name`, `Type::name` or `Type as Trait::name`.
    pub fn find(&self, spec: &str) -> Option<&FnEntry> {
        let (ty, tr, name) = split_spec(spec);
        self.fns.iter().find(|f| {
            f.sig.ident == name
                && f.self_ty == ty
                && match &tr {
                    Some(t) => f.trait_.as_deref() == Some(t.as_str()),
                    None => true,
                }
        })
    }
    pub fn by_name(&self, name: &str, method: bool) -> Vec<&FnEntry> {
        self.fns
            .iter()
            .filter(|f| f.sig.ident == name && f.sig.receiver().is_some() == method)
            .collect()
    }
}

pub fn split_spec(spec: &str) -> (Option<String>, Option<String>, String) {
    match spec.rsplit_once("::") {
        Some((l, n)) => match l.split_once(" as ") {
            Some((t, tr)) => (Some(t.into()), Some(tr.into()), n.into()),
            None => (Some(l.into()), None, n.into()),
        },
        None => (None, None, spec.into()),
    }
}

/// Macro-expand a self-contained file with rustc.
fn expand_file(p: &Path) -> std::result::Result<String, String> {
    let out = std::process::Command::new("rustc")
        .env("RUSTC_BOOTSTRAP", "1")
        .args(["--edition", "2021", "--crate-type", "lib", "-Zunpretty=expanded", "-Awarnings"])
        .arg(p)
        .output()
        .map_err(|e| e.to_string())?;
    if !out.status.success() {
        return Err(String::from_utf8_lossy(&out.stderr).to_string());
    }
    Ok(String::from_utf8_lossy(&out.stdout).to_string())
}
