//! Reads the module tree and computes which functions touch the environment.
use std::{
    collections::BTreeMap,
    fs,
    path::{Path, PathBuf},
};
use syn::visit::{self, Visit};

pub struct Module {
    pub path: Vec<String>,
    pub file: PathBuf,
    pub items: Vec<syn::Item>,
    pub subs: Vec<Module>,
    pub src: String,
}

fn cfg_text(attrs: &[syn::Attribute]) -> Vec<String> {
    attrs
        .iter()
        .filter(|a| a.path().is_ident("cfg"))
        .map(|a| match &a.meta {
            syn::Meta::List(l) => l.tokens.to_string().replace(' ', ""),
            _ => String::new(),
        })
        .collect()
}

/// Is an item or statement with these attributes part of the program on unix without test or verification flags?
pub fn live(attrs: &[syn::Attribute]) -> bool {
    if attrs.iter().any(|a| a.path().is_ident("test") || a.path().segments.last().map_or(false, |s| s.ident == "test")) {
        return false;
    }
    cfg_text(attrs).iter().all(|c| !matches!(c.as_str(), "test" | "artefacta_verif" | "windows" | "not(unix)"))
}

pub fn load(src: &Path) -> Module {
    let mut m = load_mod(vec![], &src.join("lib.rs"), src);
    // the program itself
    let main = src.join("main.rs");
    if main.exists() {
        m.subs.push(load_mod(vec!["bin".into()], &main, &src.join("bin")));
    }
    m
}

fn load_mod(path: Vec<String>, file: &Path, dir: &Path) -> Module {
    let text = fs::read_to_string(file).unwrap_or_else(|e| panic!("{}: {}", file.display(), e));
    let ast = syn::parse_file(&text).unwrap_or_else(|e| panic!("{}: {}", file.display(), e));
    let mut m = Module { path, file: file.to_path_buf(), items: vec![], subs: vec![], src: text };
    for it in ast.items {
        if let syn::Item::Mod(md) = &it {
            if !live(&md.attrs) {
                continue;
            }
            let name = md.ident.to_string();
            let mut p = m.path.clone();
            p.push(name.clone());
            if let Some((_, items)) = &md.content {
                m.subs.push(Module { path: p, file: file.to_path_buf(), items: items.clone(), subs: vec![], src: String::new() });
                continue;
            }
            let f1 = dir.join(format!("{}.rs", name));
            let f2 = dir.join(&name).join("mod.rs");
            let sub = dir.join(&name);
            m.subs.push(load_mod(p, if f1.exists() { &f1 } else { &f2 }, &sub));
            continue;
        }
        m.items.push(it);
    }
    m
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Eff {
    Pure,
    Read,
    Write,
}

/// "fn name", "Type::name", ".name" -> effect
#[derive(Default, Clone)]
pub struct Effects {
    pub map: BTreeMap<String, Eff>,
    /// names for which a path call or method call reaches a function of the repository
    pub own: BTreeMap<String, Eff>,
}

pub fn call_key(p: &syn::Path, self_ty: Option<&str>) -> String {
    let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
    let n = segs.len();
    if n >= 2 {
        let t = &segs[n - 2];
        if t == "Self" {
            return format!("{}::{}", self_ty.unwrap_or("Self"), segs[n - 1]);
        }
        if t.chars().next().unwrap().is_uppercase() {
            return format!("{}::{}", t, segs[n - 1]);
        }
        return format!("fn {}", segs[n - 1]);
    }
    format!("fn {}", segs[n - 1])
}

impl Effects {
    pub fn of(&self, key: &str) -> Eff {
        *self.map.get(key).unwrap_or(&Eff::Pure)
    }
    /// a method call: methods of the repository are told apart from others by their number of arguments
    pub fn of_method(&self, name: &str, args: usize) -> Eff {
        match self.map.get(&format!(".{}/{}", name, args)) {
            Some(e) => *e,
            None => self.of(&format!(".{}", name)),
        }
    }
}

struct Body<'a> {
    eff: &'a Effects,
    self_ty: Option<String>,
    max: Eff,
}
impl<'a, 'ast> Visit<'ast> for Body<'a> {
    fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
        if let syn::Expr::Path(p) = &*c.func {
            self.max = self.max.max(self.eff.of(&call_key(&p.path, self.self_ty.as_deref())));
        }
        visit::visit_expr_call(self, c);
    }
    fn visit_expr_method_call(&mut self, c: &'ast syn::ExprMethodCall) {
        let n = c.method.to_string();
        if is_report_method(&n) {
            self.visit_expr(&c.receiver);
            return;
        }
        self.max = self.max.max(self.eff.of_method(&n, c_args(c)));
        visit::visit_expr_method_call(self, c);
    }
    fn visit_item_fn(&mut self, _: &'ast syn::ItemFn) {}
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        let name = m.path.segments.last().unwrap().ident.to_string();
        if matches!(name.as_str(), "ensure" | "format" | "vec" | "matches") {
            use syn::punctuated::Punctuated;
            if let Ok(args) = m.parse_body_with(Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) {
                for (i, a) in args.iter().enumerate() {
                    if name == "ensure" && i > 0 {
                        break;
                    }
                    self.visit_expr(a);
                }
            }
        }
    }
}

fn c_args(c: &syn::ExprMethodCall) -> usize {
    c.args.len()
}

pub fn is_report_method(n: &str) -> bool {
    matches!(
        n,
        "context" | "with_context" | "note" | "with_note" | "suggestion" | "with_suggestion" | "warning" | "with_warning" | "error" | "with_error"
    )
}

fn fns<'a>(m: &'a Module, out: &mut Vec<(Option<String>, Option<usize>, String, &'a syn::Block, Vec<(String, &'a syn::ItemFn)>)>) {
    fn nested(b: &syn::Block) -> Vec<(String, &syn::ItemFn)> {
        struct N<'a>(Vec<(String, &'a syn::ItemFn)>);
        impl<'a> Visit<'a> for N<'a> {
            fn visit_item_fn(&mut self, f: &'a syn::ItemFn) {
                self.0.push((f.sig.ident.to_string(), f));
                visit::visit_item_fn(self, f);
            }
        }
        let mut n = N(vec![]);
        n.visit_block(b);
        n.0
    }
    for it in &m.items {
        match it {
            syn::Item::Fn(f) if live(&f.attrs) => out.push((None, None, f.sig.ident.to_string(), &f.block, nested(&f.block))),
            syn::Item::Impl(im) if live(&im.attrs) => {
                let ty = type_name(&im.self_ty);
                for ii in &im.items {
                    if let syn::ImplItem::Fn(f) = ii {
                        if live(&f.attrs) {
                            let name = f.sig.ident.to_string();
                            // trait impls: only conversions can be called in a way we can tell apart
                            let meth = f.sig.inputs.iter().any(|a| matches!(a, syn::FnArg::Receiver(_)));
                            if im.trait_.is_some() && meth {
                                continue;
                            }
                            out.push((Some(ty.clone()), if meth { Some(f.sig.inputs.len() - 1) } else { None }, name, &f.block, nested(&f.block)));
                        }
                    }
                }
            }
            _ => {}
        }
    }
    for s in &m.subs {
        fns(s, out);
    }
}

pub fn type_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        syn::Type::Reference(r) => type_name(&r.elem),
        _ => "?".into(),
    }
}

/// effect of the direct body of a function, not counting nested functions
pub fn body_effect(b: &syn::Block, eff: &Effects, self_ty: Option<String>) -> Eff {
    let mut v = Body { eff, self_ty, max: Eff::Pure };
    v.visit_block(b);
    v.max
}

pub fn effects(m: &Module, table: &str) -> Effects {
    let mut e = Effects::default();
    for l in table.lines() {
        let l = l.trim();
        if l.is_empty() || l.starts_with('#') {
            continue;
        }
        let (k, n) = l.split_once(' ').unwrap();
        e.map.insert(n.trim().to_string(), if k == "W" { Eff::Write } else { Eff::Read });
    }
    let mut fs = vec![];
    fns(m, &mut fs);
    let mut alias = vec![];
    renames(m, &mut alias);
    loop {
        let mut changed = false;
        let mut put = |e: &mut Effects, k: String, v: Eff| {
            let o = e.of(&k);
            let oo = *e.own.get(&k).unwrap_or(&Eff::Pure);
            if v > o {
                e.map.insert(k.clone(), v);
                changed = true;
            }
            if v > oo || !e.own.contains_key(&k) {
                e.own.insert(k, v.max(oo));
            }
        };
        for (ty, meth, name, block, nested) in &fs {
            for (n, f) in nested {
                let v = body_effect(&f.block, &e, ty.clone());
                put(&mut e, format!("fn {}", n), v);
            }
            let v = body_effect(block, &e, ty.clone());
            match ty {
                None => put(&mut e, format!("fn {}", name), v),
                Some(t) => {
                    put(&mut e, format!("{}::{}", t, name), v);
                    if let Some(n) = meth {
                        put(&mut e, format!(".{}/{}", name, n), v);
                        // a method called as a path must agree with its other form
                        let v = e.of(&format!(".{}/{}", name, n));
                        put(&mut e, format!("{}::{}", t, name), v);
                    }
                }
            }
        }
        // types that are used under another name
        for (a, b) in &alias {
            let keys: Vec<(String, Eff)> = e.own.iter().filter_map(|(k, v)| k.strip_prefix(&format!("{}::", a)).map(|f| (format!("{}::{}", b, f), *v))).collect();
            for (k, v) in keys {
                if !e.own.contains_key(&k) && v != Eff::Pure {
                    put(&mut e, k, v);
                }
            }
        }
        if !changed {
            break;
        }
    }
    e
}

fn renames(m: &Module, out: &mut Vec<(String, String)>) {
    struct R<'a>(&'a mut Vec<(String, String)>);
    impl<'a, 'ast> Visit<'ast> for R<'a> {
        fn visit_use_rename(&mut self, r: &'ast syn::UseRename) {
            if r.rename != "_" {
                self.0.push((r.ident.to_string(), r.rename.to_string()));
            }
        }
    }
    for it in &m.items {
        if let syn::Item::Use(u) = it {
            R(out).visit_item_use(u);
        }
    }
    for s in &m.subs {
        renames(s, out);
    }
}

/// constants of type `&str` with a literal value
pub fn str_consts(m: &Module) -> BTreeMap<String, syn::LitStr> {
    let mut r = BTreeMap::new();
    for it in &m.items {
        if let syn::Item::Const(c) = it {
            if let (true, syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. })) = (live(&c.attrs), &*c.expr) {
                r.insert(c.ident.to_string(), s.clone());
            }
        }
    }
    for s in &m.subs {
        r.extend(str_consts(s));
    }
    r
}
