//! Prints the Verus crate.
use crate::{
    scan::{body_effect, live, type_name, Eff, Effects, Module},
    spec::{norm, subst, FnSpec, Specs},
    tx::{ident, Tx},
};
use proc_macro2::{Delimiter, Ident, Spacing, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::{
    collections::{BTreeMap, BTreeSet},
    fs,
    path::Path,
};
use syn::visit_mut::VisitMut;

pub struct FnInfo {
    pub key: String,
    pub file: String,
    pub line: usize,
    pub end: usize,
    pub status: String,
    pub loops: usize,
    pub closures: usize,
    pub spec_loops: usize,
    pub spec_closures: usize,
    pub has_contract: bool,
    pub spec_params: usize,
    pub params: usize,
    pub problems: Vec<String>,
    pub calls: Vec<String>,
}

pub struct Shared {
    pub raws: Vec<String>,
    pub effects: Effects,
    pub consts: BTreeMap<String, syn::LitStr>,
    pub specs: Specs,
    pub drop_use: BTreeSet<String>,
    pub demote: BTreeSet<String>,
    pub infos: Vec<FnInfo>,
    pub file: String,
}

pub struct Emitter {
    heads: BTreeSet<String>,
    dups: usize,
    pub out: String,
    pub sh: Shared,
    pub consts: BTreeMap<String, syn::LitStr>,
}

fn join(m: &[String], n: &str) -> String {
    if m.is_empty() {
        n.to_string()
    } else {
        format!("{}::{}", m.join("::"), n)
    }
}

fn no_lifetimes(t: &TokenStream) -> String {
    let s: Vec<TokenTree> = t.clone().into_iter().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < s.len() {
        match &s[i] {
            TokenTree::Punct(p) if p.as_char() == '\'' => i += 1,
            t => out.push_str(&t.to_string()),
        }
        i += 1;
    }
    norm(&out).replace("<,", "<").replace("<>", "")
}

// ---- token printer
pub struct Printer<'a> {
    pub raws: &'a [String],
    pub out: String,
    last_alnum: bool,
    line_start: bool,
}

impl<'a> Printer<'a> {
    pub fn print(raws: &'a [String], t: TokenStream) -> String {
        let mut p = Printer { raws, out: String::new(), last_alnum: false, line_start: true };
        p.stream(t);
        p.out
    }
    fn put(&mut self, s: &str, line: usize) {
        if self.line_start && line > 0 {
            self.out.push_str(&format!("/*L{}*/ ", line));
        }
        self.line_start = false;
        let first = s.chars().next().unwrap_or(' ');
        if self.last_alnum && (first.is_alphanumeric() || first == '_' || first == '"' || first == '\'') {
            self.out.push(' ');
        }
        self.out.push_str(s);
        let l = s.chars().last().unwrap_or(' ');
        self.last_alnum = l.is_alphanumeric() || l == '_';
    }
    fn nl(&mut self) {
        self.out.push('\n');
        self.line_start = true;
        self.last_alnum = false;
    }
    fn stream(&mut self, t: TokenStream) {
        let mut prev_joint = false;
        for t in t {
            match t {
                TokenTree::Group(g) => {
                    let (a, b) = match g.delimiter() {
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Brace => ("{", "}"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::None => ("", ""),
                    };
                    if g.delimiter() == Delimiter::Brace {
                        self.out.push(' ');
                    }
                    self.put(a, 0);
                    if g.delimiter() == Delimiter::Brace {
                        self.nl();
                    }
                    self.stream(g.stream());
                    if g.delimiter() == Delimiter::Brace && !self.line_start {
                        self.nl();
                    }
                    self.line_start = false;
                    self.put(b, 0);
                    if g.delimiter() == Delimiter::Brace {
                        self.nl();
                    }
                    prev_joint = false;
                }
                TokenTree::Ident(i) => {
                    let s = i.to_string();
                    if let Some(n) = s.strip_prefix("__vx_raw_") {
                        let n: usize = n.parse().unwrap();
                        let r = self.raws[n].clone();
                        self.out.push(' ');
                        self.out.push_str(&r);
                        self.out.push(' ');
                        self.last_alnum = false;
                        if r.ends_with('\n') || r.ends_with('}') {
                            self.nl();
                        }
                    } else {
                        self.put(&s, i.span().start().line);
                    }
                    prev_joint = false;
                }
                TokenTree::Literal(l) => {
                    self.put(&l.to_string(), l.span().start().line);
                    prev_joint = false;
                }
                TokenTree::Punct(p) => {
                    let c = p.as_char();
                    if !prev_joint && !matches!(c, ';' | ',' | '.' | '?') {
                        self.out.push(' ');
                        self.last_alnum = false;
                    }
                    self.put(&c.to_string(), 0);
                    prev_joint = p.spacing() == Spacing::Joint;
                    if !prev_joint && !matches!(c, '.' | '?' | '&' | '*' | '!' | '\'' | '#' | ':') {
                        self.out.push(' ');
                    }
                    if c == ';' {
                        self.nl();
                    }
                }
            }
        }
    }
}

impl Shared {
    pub fn raw(&mut self, text: String) -> Ident {
        self.raws.push(text);
        ident(&format!("__vx_raw_{}", self.raws.len() - 1))
    }

    pub fn emit_nested(&mut self, f: &syn::ItemFn, parent: &str, self_ty: Option<String>) -> String {
        let key = format!("{}::{}", parent, f.sig.ident);
        self.fn_text(&f.sig, &f.block, &key, self_ty, Kind::Nested)
    }

    /// The text of one function with its contract.
    pub fn fn_text(&mut self, sig: &syn::Signature, block: &syn::Block, key: &str, self_ty: Option<String>, kind: Kind) -> String {
        let nkey = norm(key);
        let spec = self.specs.fns.get_mut(&nkey).map(|s| {
            s.used = true;
            s.clone()
        });
        let status = if self.demote.contains(&nkey) {
            "demoted".to_string()
        } else {
            spec.as_ref().and_then(|s| s.get("status")).unwrap_or("verify").to_string()
        };
        if status == "skip" {
            return String::new();
        }
        // names that the contracts need for themselves
        let (sig, block) = &free_names(sig, block);
        let start = sig.ident.span().start().line;
        let end = block.brace_token.span.close().start().line;

        // does it take the world?
        let has_self = sig.receiver().is_some();
        let name = sig.ident.to_string();
        let eff = match (&self_ty, kind) {
            (_, Kind::Nested) => self.effects.of(&format!("fn {}", name)),
            (None, _) => self.effects.of(&format!("fn {}", name)),
            (Some(t), Kind::Drop) => body_effect(block, &self.effects, Some(t.clone())),
            (Some(_), _) if has_self => self.effects.of_method(&name, sig.inputs.len() - 1),
            (Some(t), _) => self.effects.of(&format!("{}::{}", t, name)),
        };
        let own = body_effect(block, &self.effects, self_ty.clone());

        let mut tx = Tx {
            sh: self,
            key: nkey.clone(),
            self_ty: self_ty.clone(),
            spec: spec.clone(),
            names: BTreeMap::new(),
            world: eff,
            loops: 0,
            closures: 0,
            lits: BTreeSet::new(),
            problems: vec![],
            calls: BTreeSet::new(),
            fmt_arg: None,
            in_closure: 0,
            tmp: 0,
        };

        // parameters
        let mut params: Vec<TokenStream> = vec![];
        let mut pre = TokenStream::new();
        let mut code_names = vec![];
        let mut self_renamed = false;
        for a in &sig.inputs {
            match a {
                syn::FnArg::Receiver(r) => {
                    if r.mutability.is_some() && r.reference.is_none() {
                        params.push(quote!(self));
                        self_renamed = true;
                        pre.extend(quote!(let mut self__ = self;));
                    } else {
                        let mut r = r.clone();
                        r.attrs.clear();
                        params.push(r.to_token_stream());
                    }
                }
                syn::FnArg::Typed(t) => {
                    let mut ty = (*t.ty).clone();
                    tx.visit_type_mut(&mut ty);
                    match &*t.pat {
                        syn::Pat::Ident(i) => {
                            code_names.push(i.ident.to_string());
                            let id = i.ident.clone();
                            params.push(quote!(#id: #ty));
                            if i.mutability.is_some() {
                                pre.extend(quote!(let mut #id = #id;));
                            }
                        }
                        syn::Pat::Wild(_) => {
                            let n = format!("_p{}", code_names.len());
                            let id = ident(&n);
                            code_names.push(n);
                            params.push(quote!(#id: #ty));
                        }
                        p => {
                            let n = format!("p{}__", code_names.len());
                            let id = ident(&n);
                            code_names.push(n);
                            let mut p = p.clone();
                            tx.visit_pat_mut(&mut p);
                            params.push(quote!(#id: #ty));
                            pre.extend(quote!(let #p = #id;));
                        }
                    }
                }
            }
        }
        let mut spec_params = 0;
        if let Some(s) = &spec {
            spec_params = s.params.len();
            for (a, b) in s.params.iter().zip(&code_names) {
                if a != b {
                    tx.names.insert(a.clone(), b.clone());
                }
            }
        }
        match eff {
            Eff::Pure => {}
            Eff::Read => params.push(quote!(w: &World)),
            Eff::Write => params.push(quote!(w: &mut World)),
        }
        let mut generics = sig.generics.clone();
        tx.visit_generics_mut(&mut generics);
        let where_ = generics.where_clause.take();
        let ret = match &sig.output {
            syn::ReturnType::Default => None,
            syn::ReturnType::Type(_, t) => {
                let mut t = (**t).clone();
                tx.visit_type_mut(&mut t);
                Some(t)
            }
        };
        let trusted = matches!(status.as_str(), "trusted" | "demoted");
        let mut body = block.clone();
        if !trusted {
            tx.block(&mut body);
            if self_renamed {
                rename_self(&mut body);
            }
        }
        let (loops, closures, problems, calls, lits) = (tx.loops, tx.closures, tx.problems.clone(), tx.calls.clone(), tx.lits.clone());
        let names = tx.names.clone();
        drop(tx);

        // contract
        let mut c = String::new();
        let mut ens: Vec<String> = vec![];
        if let Some(s) = &spec {
            if let Some(t) = s.get("requires") {
                if !matches!(kind, Kind::Trait) {
                    c.push_str(&format!("\n    requires {}", subst(t, &names)));
                }
            }
            if let Some(t) = s.get("ensures") {
                ens.push(subst(t, &names));
            }
        }
        if eff == Eff::Write && own == Eff::Pure && !matches!(kind, Kind::Trait) {
            ens.push("*final(w) == *old(w)".into());
        }
        if !ens.is_empty() {
            c.push_str(&format!("\n    ensures {}", ens.join(",\n        ")));
        }
        if let Some(t) = spec.as_ref().and_then(|s| s.get("decreases")) {
            c.push_str(&format!("\n    decreases {}", subst(t, &names)));
        }
        if let Some(t) = spec.as_ref().and_then(|s| s.get("no_unwind")) {
            c.push_str(&format!("\n    no_unwind {}", t));
        }
        c.push('\n');
        let contract = self.raw(c);
        let mut attrs = String::new();
        if let Some(t) = spec.as_ref().and_then(|s| s.get("attr")) {
            attrs.push_str(t);
        }
        if trusted {
            attrs.push_str(" #[verifier::external_body]");
        }
        if loops > 0 || true {
            attrs.push_str(" #[verifier::exec_allows_no_decreases_clause]");
        }
        let attrs = self.raw(attrs);
        let mut proof = String::new();
        let mut literal_facts = String::new();
        if !trusted {
            let l: Vec<String> = lits
                .iter()
                .map(|l| {
                    let cs: Vec<String> = l.chars().map(|c| format!("{:?}", c)).collect();
                    let eq = if cs.is_empty() {
                        format!(" assert({:?}@ =~= Seq::<char>::empty());", l)
                    } else if cs.len() <= 40 {
                        format!(" assert({:?}@ =~= seq![{}]);", l, cs.join(", "))
                    } else {
                        String::new()
                    };
                    format!("reveal_strlit({:?});{}", l, eq)
                })
                .collect();
            let p = spec.as_ref().and_then(|s| s.get("proof")).map(|t| subst(t, &names)).unwrap_or_default();
            if !l.is_empty() {
                literal_facts = format!("proof {{ {} }}", l.join(" "));
            }
            if !l.is_empty() || !p.is_empty() {
                proof = format!("proof {{ {} {} }}\n", l.join(" "), p);
            }
            if let Some(g) = spec.as_ref().and_then(|s| s.get("ghost")) {
                proof.push_str(&subst(g, &names));
                proof.push('\n');
            }
        }
        if let Some(h) = spec.as_ref().and_then(|s| s.get("hide")) {
            let h: String = h.split(',').map(|x| format!("hide({});\n", x.trim())).collect();
            proof = h + &proof;
        }
        let proof = self.raw(proof);
        let rname = ident(spec.as_ref().and_then(|s| s.get("ret")).unwrap_or("r"));
        let ret = ret.map(|t| quote!(-> (#rname: #t)));
        let id = &sig.ident;
        let id = if matches!(kind, Kind::Drop) {
            ident("drop_impl")
        } else if self_ty.is_some() {
            let n = crate::tx::rename(&id.to_string());
            Ident::new(&n, id.span())
        } else {
            id.clone()
        };
        let vis = if matches!(kind, Kind::Trait | Kind::Nested) { quote!() } else { quote!(pub) };
        let stmts = &body.stmts;
        let body = if trusted { quote!({ unimplemented!() }) } else { quote!({ #proof #pre #(#stmts)* }) };
        let t = quote!(#attrs #vis fn #id #generics (#(#params),*) #ret #where_ #contract #body);
        let text = Printer::print(&self.raws, t).replace("/*LITS*/", &literal_facts);
        self.infos.push(FnInfo {
            key: nkey.clone(),
            file: self.file.clone(),
            line: start,
            end,
            status: status.clone(),
            loops,
            closures,
            spec_loops: spec.as_ref().map_or(0, |s| s.loops()),
            spec_closures: spec.as_ref().map_or(0, |s| s.closures()),
            has_contract: spec.as_ref().map_or(false, |s| s.get("ensures").is_some() || s.get("requires").is_some() || s.get("contract").is_some()),
            spec_params,
            params: code_names.len(),
            problems,
            calls: calls.into_iter().collect(),
        });
        let items = spec.as_ref().and_then(|s| s.get("items")).unwrap_or_default();
        format!("\n{}\n//@fn {}\n{}\n//@end {}\n", items, nkey, text, nkey)
    }
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Kind {
    Free,
    Inherent,
    Trait,
    Nested,
    Drop,
}

/// `w` is the world and `r` the result
fn free_names(sig: &syn::Signature, block: &syn::Block) -> (syn::Signature, syn::Block) {
    fn go(t: TokenStream, ns: &[&str]) -> TokenStream {
        let mut dot = false;
        t.into_iter()
            .map(|t| match t {
                TokenTree::Ident(i) if !dot && ns.contains(&i.to_string().as_str()) => {
                    dot = false;
                    TokenTree::Ident(Ident::new(&format!("{}_u", i), i.span()))
                }
                TokenTree::Group(g) => {
                    dot = false;
                    let mut n = proc_macro2::Group::new(g.delimiter(), go(g.stream(), ns));
                    n.set_span(g.span());
                    TokenTree::Group(n)
                }
                t => {
                    dot = matches!(&t, TokenTree::Punct(p) if p.as_char() == '.');
                    t
                }
            })
            .collect()
    }
    let ns = ["w", "r"];
    let s = syn::parse2(go(sig.to_token_stream(), &ns)).unwrap_or_else(|_| sig.clone());
    let b = syn::parse2(go(block.to_token_stream(), &ns)).unwrap_or_else(|_| block.clone());
    (s, b)
}

fn rename_self(b: &mut syn::Block) {
    fn go(t: TokenStream) -> TokenStream {
        t.into_iter()
            .map(|t| match t {
                TokenTree::Ident(i) if i == "self" => TokenTree::Ident(Ident::new("self__", i.span())),
                TokenTree::Group(g) => {
                    let mut n = proc_macro2::Group::new(g.delimiter(), go(g.stream()));
                    n.set_span(g.span());
                    TokenTree::Group(n)
                }
                t => t,
            })
            .collect()
    }
    let s = &b.stmts;
    let t = go(quote!(#(#s)*));
    b.stmts = vec![syn::Stmt::Expr(syn::Expr::Verbatim(t), None)];
}

impl Emitter {
    pub fn new(specs: Specs, effects: Effects, demote: BTreeSet<String>, drop_use: BTreeSet<String>) -> Self {
        Emitter {
            out: String::new(),
            heads: BTreeSet::new(),
            dups: 0,
            consts: BTreeMap::new(),
            sh: Shared { raws: vec![], effects, consts: BTreeMap::new(), specs, drop_use, demote, infos: vec![], file: String::new() },
        }
    }

    pub fn krate(&mut self, k: &Module, prelude: &Path) {
        self.sh.consts = self.consts.clone();
        self.out.push_str("#![allow(unused, dead_code, non_snake_case)]\n#![verifier::allow(undeclared_external_trait)]\n#![feature(allocator_api, sized_hierarchy, const_destruct)]\nuse vstd::prelude::*;\nverus! {\n");
        let mut names: Vec<_> = fs::read_dir(prelude).unwrap().map(|e| e.unwrap().path()).filter(|p| p.extension().map_or(false, |e| e == "rs")).collect();
        names.sort();
        for p in names {
            self.out.push_str(&format!("//@prelude {}\n", p.file_name().unwrap().to_string_lossy()));
            self.out.push_str(&fs::read_to_string(p).unwrap());
        }
        self.out.push_str("//@prelude end\nuse base::*;\n");
        self.module(k, true);
        self.out.push_str("\n} // verus!\nfn main() {}\n");
    }

    fn module(&mut self, m: &Module, root: bool) {
        let name = m.path.join("::");
        let ms = self.sh.specs.mods.get_mut(&name).map(|s| {
            s.used = true;
            s.clone()
        });
        if ms.as_ref().and_then(|s| s.get("status")) == Some("skip") {
            return;
        }
        if !root {
            self.out.push_str(&format!("\npub mod {} {{\nuse vstd::prelude::*;\nuse crate::base::*;\n", m.path.last().unwrap()));
        }
        self.out.push_str("broadcast use crate::base::axioms;\n");
        if let Some(t) = ms.as_ref().and_then(|s| s.get("items")) {
            self.out.push_str(t);
            self.out.push('\n');
        }
        self.sh.file = m.file.to_string_lossy().to_string();
        for it in &m.items {
            self.item(m, it);
        }
        for s in &m.subs {
            self.module(s, false);
        }
        if !root {
            self.out.push_str("}\n");
        }
    }

    fn tx(&mut self, key: &str) -> Tx<'_> {
        Tx {
            sh: &mut self.sh,
            key: key.to_string(),
            self_ty: None,
            spec: None,
            names: BTreeMap::new(),
            world: Eff::Pure,
            loops: 0,
            closures: 0,
            lits: BTreeSet::new(),
            problems: vec![],
            calls: BTreeSet::new(),
            fmt_arg: None,
            in_closure: 0,
            tmp: 0,
        }
    }

    fn item(&mut self, m: &Module, it: &syn::Item) {
        match it {
            syn::Item::Use(u) if live(&u.attrs) => {
                let t = self.tx("").fix_use(u).unwrap_or_default();
                let t = Printer::print(&self.sh.raws, t);
                self.out.push_str(&t);
            }
            syn::Item::Fn(f) if live(&f.attrs) => {
                let t = self.sh.fn_text(&f.sig, &f.block, &join(&m.path, &f.sig.ident.to_string()), None, Kind::Free);
                self.out.push_str(&t);
            }
            syn::Item::Struct(s) if live(&s.attrs) => {
                let derives = derives(&s.attrs);
                let mut s = s.clone();
                s.attrs.clear();
                s.vis = syn::parse_quote!(pub);
                for f in s.fields.iter_mut() {
                    f.attrs.clear();
                    f.vis = syn::parse_quote!(pub);
                }
                let mut tx = self.tx("");
                tx.visit_fields_mut(&mut s.fields);
                tx.visit_generics_mut(&mut s.generics);
                let key = norm(&join(&m.path, &s.ident.to_string()));
                self.type_out(&key, s.to_token_stream());
                self.derives(&key, &s.ident, &s.generics, &derives, Some(&s.fields));
            }
            syn::Item::Enum(s) if live(&s.attrs) => {
                let derives = derives(&s.attrs);
                let mut s = s.clone();
                s.attrs.clear();
                s.vis = syn::parse_quote!(pub);
                for v in s.variants.iter_mut() {
                    v.attrs.clear();
                    let mut f = v.fields.clone();
                    for f in f.iter_mut() {
                        f.attrs.clear();
                    }
                    self.tx("").visit_fields_mut(&mut f);
                    v.fields = f;
                }
                let key = norm(&join(&m.path, &s.ident.to_string()));
                self.type_out(&key, s.to_token_stream());
                self.derives(&key, &s.ident, &s.generics, &derives, None);
            }
            syn::Item::Impl(im) if live(&im.attrs) => self.impl_(m, im),
            syn::Item::Const(c) if live(&c.attrs) => {
                if self.sh.consts.contains_key(&c.ident.to_string()) {
                    return;
                }
                let mut tx = self.tx("");
                let mut e = (*c.expr).clone();
                tx.expr(&mut e);
                let mut ty = (*c.ty).clone();
                tx.visit_type_mut(&mut ty);
                let id = &c.ident;
                let t = Printer::print(&self.sh.raws, quote!(pub const #id: #ty = #e;));
                self.out.push_str(&t);
                self.out.push('\n');
            }
            syn::Item::Type(t) if live(&t.attrs) => {
                let mut t = t.clone();
                t.vis = syn::parse_quote!(pub);
                t.attrs.clear();
                self.tx("").visit_type_mut(&mut t.ty);
                let t = Printer::print(&self.sh.raws, t.to_token_stream());
                self.out.push_str(&t);
            }
            _ => {}
        }
    }

    fn type_out(&mut self, key: &str, t: TokenStream) {
        let sp = self.sh.specs.types.get_mut(key).map(|s| {
            s.used = true;
            s.clone()
        });
        if sp.as_ref().and_then(|s| s.get("status")) == Some("skip") {
            return;
        }
        if let Some(a) = sp.as_ref().and_then(|s| s.get("attr")) {
            self.out.push_str(a);
            self.out.push('\n');
        }
        let t = Printer::print(&self.sh.raws, t);
        self.out.push_str(&t);
        self.out.push('\n');
        if let Some(a) = sp.as_ref().and_then(|s| s.get("items")) {
            self.out.push_str(a);
            self.out.push('\n');
        }
    }

    fn derives(&mut self, key: &str, id: &Ident, g: &syn::Generics, ds: &[String], fields: Option<&syn::Fields>) {
        let sp = self.sh.specs.types.get(key).cloned();
        if sp.as_ref().and_then(|s| s.get("status")) == Some("skip") {
            return;
        }
        let (ig, tg, wc) = g.split_for_impl();
        let mut t = TokenStream::new();
        for d in ds {
            match d.as_str() {
                "Clone" => t.extend(quote! { impl #ig Clone for #id #tg #wc {
                    #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } } }),
                "Copy" => t.extend(quote! { impl #ig Copy for #id #tg #wc {} }),
                "PartialEq" => t.extend(quote! {
                    impl #ig PartialEq for #id #tg #wc { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
                    impl #ig vstd::std_specs::cmp::PartialEqSpecImpl for #id #tg #wc {
                        open spec fn obeys_eq_spec() -> bool { true }
                        open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } } }),
                "Eq" => t.extend(quote! { impl #ig Eq for #id #tg #wc {} }),
                "Default" => {
                    if let Some(fs) = fields {
                        let names: Vec<_> = fs.iter().filter_map(|f| f.ident.clone()).collect();
                        let ens = self.sh.raw(
                            sp.as_ref().and_then(|s| s.get("default ensures")).map(|t| format!(" ensures {} ", t)).unwrap_or_default(),
                        );
                        let key = format!("{}::default", key);
                        let a = self.sh.raw(format!("\n//@fn {}\n", key));
                        let b = self.sh.raw(format!("\n//@end {}\n", key));
                        t.extend(quote! { impl #ig #id #tg #wc { #a pub fn default() -> (r: Self) #ens { #id { #(#names: crate::base::VDefault::v_default()),* } } #b } });
                    }
                }
                _ => {}
            }
        }
        let t = Printer::print(&self.sh.raws, t);
        self.out.push_str(&t);
        self.out.push('\n');
    }

    fn impl_(&mut self, m: &Module, im: &syn::ItemImpl) {
        let ty = type_name(&im.self_ty);
        let mut self_t = (*im.self_ty).clone();
        let mut gens = im.generics.clone();
        {
            let mut tx = self.tx("");
            tx.visit_type_mut(&mut self_t);
            tx.visit_generics_mut(&mut gens);
        }
        let (tr, tkey) = match &im.trait_ {
            Some((_, p, _)) => {
                let last = p.segments.last().unwrap();
                let k = norm(&join(&m.path, &format!("<{} for {}>", no_lifetimes(&last.to_token_stream()), no_lifetimes(&im.self_ty.to_token_stream()))));
                (Some((p.clone(), last.ident.to_string())), k)
            }
            None => (None, norm(&join(&m.path, &no_lifetimes(&im.self_ty.to_token_stream())))),
        };
        let isp = self.sh.specs.impls.get_mut(&tkey).map(|s| {
            s.used = true;
            s.clone()
        });
        if isp.as_ref().and_then(|s| s.get("status")) == Some("skip") {
            return;
        }
        let mut kind = if tr.is_some() { Kind::Trait } else { Kind::Inherent };
        let mut head_trait: Option<TokenStream> = None;
        if let Some((p, name)) = &tr {
            match name.as_str() {
                "StdError" | "Error" => {
                    let t = Printer::print(&self.sh.raws, quote!(impl core::convert::From<#self_t> for crate::erreur::Report { #[verifier::external_body] fn from(e: #self_t) -> (r: Self) { unimplemented!() } }));
                    self.out.push_str(&t);
                    return;
                }
                "Debug" => return,
                "Display" => {
                    if isp.is_none() {
                        return;
                    }
                    head_trait = Some(quote!(VDisplay));
                }
                "Drop" => {
                    kind = Kind::Drop;
                }
                _ => {
                    let mut p = p.clone();
                    self.tx("").visit_path_mut(&mut p);
                    // conversions that touch the environment
                    let eff = im.items.iter().find_map(|i| match i {
                        syn::ImplItem::Fn(f) if f.sig.receiver().is_none() => Some(self.sh.effects.of(&format!("{}::{}", ty, f.sig.ident))),
                        _ => None,
                    });
                    if eff.unwrap_or(Eff::Pure) != Eff::Pure {
                        let l = p.segments.last_mut().unwrap();
                        l.ident = ident(&format!("{}W", l.ident));
                        let l = l.clone();
                        head_trait = Some(quote!(crate::base::#l));
                    } else if p.segments.len() == 1 {
                        head_trait = Some(p.to_token_stream());
                    } else {
                        head_trait = Some(p.to_token_stream());
                    }
                }
            }
        }
        let wc = gens.where_clause.take();
        let head = match &head_trait {
            Some(t) => quote!(impl #gens #t for #self_t #wc),
            None => quote!(impl #gens #self_t #wc),
        };
        let mut head = Printer::print(&self.sh.raws, head);
        // `str` and `String` are one type here: further conversions from the same type become plain functions
        let mut dup = false;
        if !self.heads.insert(format!("{}::{}", m.path.join("::"), norm(&head))) && tr.is_some() && kind != Kind::Drop {
            dup = true;
            kind = Kind::Inherent;
            self.dups += 1;
            head = Printer::print(&self.sh.raws, quote!(impl #gens #self_t #wc));
        }
        self.out.push_str(&format!("\n{} {{\n", head));
        if let Some(t) = isp.as_ref().and_then(|s| s.get("items")).filter(|_| !dup && (tr.is_some() || self.heads.insert(format!("items {}", tkey)))) {
            self.out.push_str(t);
            self.out.push('\n');
        }
        for i in &im.items {
            match i {
                syn::ImplItem::Fn(f) if live(&f.attrs) => {
                    let key = format!("{}::{}", tkey, f.sig.ident);
                    let mut f = f.clone();
                    if dup {
                        struct A(BTreeMap<String, syn::Type>);
                        impl VisitMut for A {
                            fn visit_type_mut(&mut self, t: &mut syn::Type) {
                                if let syn::Type::Path(p) = t {
                                    if p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" {
                                        if let Some(x) = self.0.get(&p.path.segments[1].ident.to_string()) {
                                            *t = x.clone();
                                            return;
                                        }
                                    }
                                }
                                syn::visit_mut::visit_type_mut(self, t);
                            }
                        }
                        let mut a = A(im.items.iter().filter_map(|i| match i {
                            syn::ImplItem::Type(t) => Some((t.ident.to_string(), t.ty.clone())),
                            _ => None,
                        }).collect());
                        a.visit_signature_mut(&mut f.sig);
                        f.sig.ident = Ident::new(&format!("{}__{}", f.sig.ident, self.dups), f.sig.ident.span());
                    }
                    let t = self.sh.fn_text(&f.sig, &f.block, &key, Some(ty.clone()), kind);
                    self.out.push_str(&t);
                }
                syn::ImplItem::Type(t) if !dup => {
                    let mut t = t.clone();
                    self.tx("").visit_type_mut(&mut t.ty);
                    let t = Printer::print(&self.sh.raws, t.to_token_stream());
                    self.out.push_str(&t);
                }
                syn::ImplItem::Const(c) => {
                    let t = Printer::print(&self.sh.raws, c.to_token_stream());
                    self.out.push_str(&t);
                }
                _ => {}
            }
        }
        self.out.push_str("}\n");
        if let Some(t) = isp.as_ref().and_then(|s| s.get("after")) {
            self.out.push_str(t);
            self.out.push('\n');
        }
    }

    pub fn map_json(&self) -> String {
        // output line ranges
        let mut ranges: BTreeMap<String, (usize, usize)> = BTreeMap::new();
        for (i, l) in self.out.lines().enumerate() {
            let l = l.trim();
            if let Some(k) = l.strip_prefix("//@fn ") {
                ranges.insert(k.to_string(), (i + 1, 0));
            } else if let Some(k) = l.strip_prefix("//@end ") {
                if let Some(r) = ranges.get_mut(k) {
                    r.1 = i + 1;
                }
            }
        }
        fn q(s: &str) -> String {
            format!("{:?}", s)
        }
        let fns: Vec<String> = self
            .sh
            .infos
            .iter()
            .map(|f| {
                let r = ranges.get(&f.key).cloned().unwrap_or((0, 0));
                format!(
                    "{{\"key\":{},\"file\":{},\"line\":{},\"end\":{},\"status\":{},\"loops\":{},\"closures\":{},\"spec_loops\":{},\"spec_closures\":{},\"contract\":{},\"spec_params\":{},\"params\":{},\"problems\":[{}],\"calls\":[{}],\"out\":[{},{}]}}",
                    q(&f.key), q(&f.file), f.line, f.end, q(&f.status), f.loops, f.closures, f.spec_loops, f.spec_closures, f.has_contract, f.spec_params, f.params,
                    f.problems.iter().map(|p| q(p)).collect::<Vec<_>>().join(","),
                    f.calls.iter().map(|p| q(p)).collect::<Vec<_>>().join(","),
                    r.0, r.1
                )
            })
            .collect();
        let unused: Vec<String> = self
            .sh
            .specs
            .fns
            .iter()
            .filter(|(_, s)| !s.used)
            .map(|(k, _)| q(k))
            .chain(self.sh.specs.impls.iter().filter(|(_, s)| !s.used).map(|(k, _)| q(k)))
            .collect();
        let own: Vec<String> = self.sh.effects.own.iter().map(|(k, v)| format!("{}:\"{:?}\"", q(k), v)).collect();
        format!("{{\"fns\":[\n{}\n],\"unused\":[{}],\"own\":{{{}}}}}\n", fns.join(",\n"), unused.join(","), own.join(","))
    }
}

#[allow(unused)]
fn spec_of(_: &FnSpec) {}

fn derives(attrs: &[syn::Attribute]) -> Vec<String> {
    let mut r = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| {
                r.push(m.path.segments.last().unwrap().ident.to_string());
                Ok(())
            });
        }
    }
    r
}
