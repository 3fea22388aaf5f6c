//! Rewrites of bodies: what Verus (or the stub environment) needs in another form.
use crate::{
    emit::Shared,
    scan::{call_key, is_report_method, live, Eff},
    spec::{subst, FnSpec},
};
use proc_macro2::{Ident, Span, TokenStream};
use quote::{quote, quote_spanned, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::{punctuated::Punctuated, spanned::Spanned, visit_mut::VisitMut, Expr, Stmt, Token};

pub const EXTERN: &[&str] = &[
    "std", "core", "alloc", "petgraph", "zstd", "bidiff", "bipatch", "tar", "walkdir", "tempfile", "git2", "url", "rusoto_core", "rusoto_s3", "md5", "base64",
    "human_sort", "smol_str", "chrono", "futures", "tokio", "erreur", "async_read_progress", "humansize", "log",
];

pub struct Tx<'a> {
    pub sh: &'a mut Shared,
    pub key: String,
    pub self_ty: Option<String>,
    pub spec: Option<FnSpec>,
    /// names of the spec -> names of the code
    pub names: BTreeMap<String, String>,
    pub world: Eff,
    pub loops: usize,
    pub closures: usize,
    pub lits: BTreeSet<String>,
    pub problems: Vec<String>,
    pub calls: BTreeSet<String>,
    pub fmt_arg: Option<String>,
    pub in_closure: usize,
    pub tmp: usize,
}

/// associated functions that would be ambiguous with those of the standard prelude
pub fn rename(n: &str) -> String {
    match n {
        "from" => "v_from".into(),
        "try_from" => "v_try_from".into(),
        "into" => "v_into".into(),
        "try_into" => "v_try_into".into(),
        "to_string" => "v_to_string".into(),
        n => n.into(),
    }
}

pub fn ident(s: &str) -> Ident {
    Ident::new(s, Span::call_site())
}

fn pexpr(t: TokenStream) -> Expr {
    Expr::Verbatim(t)
}

impl<'a> Tx<'a> {
    pub fn raw(&mut self, text: String) -> Ident {
        self.sh.raw(text)
    }

    fn section(&self, k: &str) -> Option<String> {
        self.spec.as_ref().and_then(|s| s.get(k)).map(|t| subst(t, &self.names))
    }

    fn world_arg(&self, need: Eff) -> Option<TokenStream> {
        if need == Eff::Pure {
            return None;
        }
        Some(if self.world == Eff::Read {
            quote!(w)
        } else if self.in_closure > 0 {
            quote!(w_ro)
        } else if need == Eff::Read {
            quote!(&*w)
        } else {
            quote!(w)
        })
    }

    // ---- paths
    pub fn fix_path(&mut self, p: &mut syn::Path) {
        if p.segments.len() == 1 {
            let s = &mut p.segments[0];
            let n = s.ident.to_string();
            if n == "str" || n == "String" {
                s.ident = Ident::new("Str", s.ident.span());
            }
        }
        if p.segments.len() >= 2 {
            let first = p.segments[0].ident.to_string();
            if first == "String" || first == "str" {
                p.segments[0].ident = Ident::new("Str", p.segments[0].ident.span());
            }
            let l = p.segments.last_mut().unwrap();
            l.ident = Ident::new(&rename(&l.ident.to_string()), l.ident.span());
            self.fix_root(p);
        }
    }

    fn fix_root(&mut self, p: &mut syn::Path) {
        let first = p.segments[0].ident.to_string();
        if first == "artefacta" {
            p.segments[0].ident = Ident::new("crate", p.segments[0].ident.span());
            p.leading_colon = None;
        }
        if EXTERN.contains(&first.as_str()) {
            let sp = p.segments[0].ident.span();
            if matches!(first.as_str(), "std" | "core" | "alloc") {
                p.segments[0].ident = Ident::new("std_", sp);
            }
            p.segments.insert(0, syn::PathSegment { ident: Ident::new("crate", sp), arguments: syn::PathArguments::None });
            p.leading_colon = None;
        }
    }

    // ---- uses
    pub fn fix_use(&mut self, u: &syn::ItemUse) -> Option<TokenStream> {
        let mut leaves = vec![];
        flatten(&u.tree, vec![], &mut leaves);
        let mut out = TokenStream::new();
        for (mut path, alias) in leaves {
            let first = path[0].clone();
            if matches!(first.as_str(), "log" | "structopt") {
                continue;
            }
            if first == "artefacta" {
                path[0] = "crate".into();
            }
            if EXTERN.contains(&first.as_str()) {
                if matches!(first.as_str(), "std" | "core" | "alloc") {
                    path[0] = "std_".into();
                }
                path.insert(0, "crate".into());
            }
            if path.last().unwrap() == "self" {
                path.pop();
            }
            let full = path.join("::");
            if self.sh.drop_use.contains(&full) {
                continue;
            }
            let glob = path.last().unwrap() == "*";
            let segs: Vec<TokenStream> = path.iter().map(|s| if s == "*" { quote!(*) } else { ident(s).to_token_stream() }).collect();
            let sp = u.span();
            out.extend(match alias {
                Some(a) if a == "_" => quote_spanned!(sp=> pub use #(#segs)::* as _;),
                Some(a) => {
                    let a = ident(&a);
                    quote_spanned!(sp=> pub use #(#segs)::* as #a;)
                }
                None if glob => quote_spanned!(sp=> pub use #(#segs)::*;),
                None => quote_spanned!(sp=> pub use #(#segs)::*;),
            });
        }
        Some(out)
    }

    // ---- macros
    fn args(&self, m: &syn::Macro) -> Option<Vec<Expr>> {
        m.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated).ok().map(|p| p.into_iter().collect())
    }

    fn format_parts(&mut self, args: &[Expr]) -> Option<Vec<Result<String, (Expr, String)>>> {
        let fmt = match &args[0] {
            Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) => s.value(),
            _ => return None,
        };
        let mut named: BTreeMap<String, Expr> = BTreeMap::new();
        let mut pos = vec![];
        for a in &args[1..] {
            if let Expr::Assign(x) = a {
                named.insert(x.left.to_token_stream().to_string(), (*x.right).clone());
            } else {
                pos.push(a.clone());
            }
        }
        let mut out = vec![];
        let mut text = String::new();
        let mut next = 0;
        let mut it = fmt.chars().peekable();
        while let Some(c) = it.next() {
            match c {
                '{' if it.peek() == Some(&'{') => {
                    it.next();
                    text.push('{');
                }
                '}' if it.peek() == Some(&'}') => {
                    it.next();
                    text.push('}');
                }
                '{' => {
                    let mut a = String::new();
                    for c in it.by_ref() {
                        if c == '}' {
                            break;
                        }
                        a.push(c);
                    }
                    if !text.is_empty() {
                        out.push(Ok(std::mem::take(&mut text)));
                    }
                    let (name, spec) = match a.split_once(':') {
                        Some((n, s)) => (n.to_string(), s.to_string()),
                        None => (a, String::new()),
                    };
                    let e = if name.is_empty() {
                        next += 1;
                        pos.get(next - 1)?.clone()
                    } else if let Ok(i) = name.parse::<usize>() {
                        pos.get(i)?.clone()
                    } else if let Some(e) = named.get(&name) {
                        e.clone()
                    } else {
                        syn::parse_str::<Expr>(&name).ok()?
                    };
                    out.push(Err((e, spec)));
                }
                c => text.push(c),
            }
        }
        if !text.is_empty() {
            out.push(Ok(text));
        }
        Some(out)
    }

    fn format_expr(&mut self, args: &[Expr], sp: Span) -> Option<TokenStream> {
        let parts = self.format_parts(args)?;
        let mut body = TokenStream::new();
        for p in parts {
            match p {
                Ok(t) => {
                    self.lits.insert(t.clone());
                    body.extend(quote_spanned!(sp=> f__.push_str(lit(#t));));
                }
                Err((mut e, spec)) => {
                    self.expr(&mut e);
                    match spec.as_str() {
                        "" => body.extend(quote_spanned!(sp=> f__.push_disp(&(#e));)),
                        "x" => body.extend(quote_spanned!(sp=> f__.push_hex(&(#e));)),
                        _ => body.extend(quote_spanned!(sp=> f__.push_any(&(#e));)),
                    }
                }
            }
        }
        Some(quote_spanned!(sp=> { let mut f__ = Str::new(); #body f__ }))
    }

    fn macro_expr(&mut self, m: &syn::Macro) -> Expr {
        let sp = m.span();
        let name = m.path.segments.last().unwrap().ident.to_string();
        let bad = |s: &mut Self| {
            s.problems.push(format!("macro {}!", name));
            pexpr(quote_spanned!(sp=> crate::base::unsupported()))
        };
        match name.as_str() {
            "format" => match self.args(m).and_then(|a| self.format_expr(&a, sp)) {
                Some(t) => pexpr(t),
                None => bad(self),
            },
            "write" | "writeln" => {
                let Some(a) = self.args(m) else { return bad(self) };
                let Some(parts) = self.format_parts(&a[1..]) else { return bad(self) };
                let f = &a[0];
                let mut body = TokenStream::new();
                for p in parts {
                    match p {
                        Ok(t) => {
                            self.lits.insert(t.clone());
                            body.extend(quote_spanned!(sp=> #f.write_str(lit(#t))?;));
                        }
                        Err((mut e, spec)) => {
                            self.expr(&mut e);
                            match spec.as_str() {
                                "" => body.extend(quote_spanned!(sp=> #f.write_disp(&(#e))?;)),
                                _ => body.extend(quote_spanned!(sp=> #f.write_any(&(#e))?;)),
                            }
                        }
                    }
                }
                pexpr(quote_spanned!(sp=> { #body Ok(()) }))
            }
            "bail" => pexpr(quote_spanned!(sp=> return Err(crate::erreur::Report::some()))),
            "ensure" => {
                let Some(mut a) = self.args(m) else { return bad(self) };
                let mut c = a.remove(0);
                self.expr(&mut c);
                pexpr(quote_spanned!(sp=> if !(#c) { return Err(crate::erreur::Report::some()); }))
            }
            "vec" => {
                if m.tokens.to_string().contains(';') {
                    return bad(self);
                }
                let Some(mut a) = self.args(m) else { return bad(self) };
                for e in &mut a {
                    self.expr(e);
                }
                pexpr(quote_spanned!(sp=> vec![#(#a),*]))
            }
            "matches" => {
                // matches!(e, pat) => match e { pat => true, _ => false }
                let t = m.tokens.clone();
                match syn::parse2::<syn::Expr>(quote!(match_helper!(#t))) {
                    Ok(_) => {}
                    Err(_) => return bad(self),
                }
                struct M(Expr, syn::Pat, Option<Expr>);
                impl syn::parse::Parse for M {
                    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
                        let e: Expr = i.parse()?;
                        let _: Token![,] = i.parse()?;
                        let p = syn::Pat::parse_multi_with_leading_vert(i)?;
                        let g = if i.peek(Token![if]) {
                            let _: Token![if] = i.parse()?;
                            Some(i.parse()?)
                        } else {
                            None
                        };
                        let _: Option<Token![,]> = i.parse()?;
                        Ok(M(e, p, g))
                    }
                }
                match syn::parse2::<M>(m.tokens.clone()) {
                    Ok(M(e, p, g)) => {
                        let g = g.map(|g| quote!(if #g));
                        let mut x: Expr = syn::parse_quote_spanned!(sp=> match #e { #p #g => true, _ => false });
                        self.expr(&mut x);
                        x
                    }
                    Err(_) => bad(self),
                }
            }
            "panic" | "unreachable" | "todo" | "unimplemented" => pexpr(quote_spanned!(sp=> crate::base::vpanic())),
            "dbg" | "println" | "eprintln" | "print" | "eprint" => pexpr(quote_spanned!(sp=> ())),
            "assert" | "debug_assert" => {
                let Some(mut a) = self.args(m) else { return bad(self) };
                let mut c = a.remove(0);
                self.expr(&mut c);
                pexpr(quote_spanned!(sp=> if !(#c) { crate::base::vpanic() }))
            }
            _ if is_log(&m.path) => pexpr(quote_spanned!(sp=> ())),
            _ => bad(self),
        }
    }

    // ---- statements
    pub fn block(&mut self, b: &mut syn::Block) {
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            if !live(stmt_attrs(&s)) {
                continue;
            }
            strip_stmt_attrs(&mut s);
            match s {
                Stmt::Macro(m) if is_log(&m.mac.path) => continue,
                Stmt::Macro(m) => {
                    let semi = m.semi_token.is_some();
                    let name = m.mac.path.segments.last().unwrap().ident.to_string();
                    if matches!(name.as_str(), "println" | "eprintln" | "dbg") && semi {
                        continue;
                    }
                    let e = self.macro_expr(&m.mac);
                    // a braces-only expression in statement position needs no semicolon, but never is harmed by one
                    out.push(Stmt::Expr(e, if semi { Some(Default::default()) } else { None }));
                }
                Stmt::Item(syn::Item::Use(u)) => {
                    if let Some(t) = self.fix_use_local(&u) {
                        out.push(Stmt::Expr(pexpr(t), None));
                    }
                }
                Stmt::Item(syn::Item::Fn(f)) => {
                    let text = self.sh.emit_nested(&f, &self.key, self.self_ty.clone());
                    let id = self.raw(text);
                    out.push(Stmt::Expr(pexpr(quote!(#id)), None));
                }
                Stmt::Item(syn::Item::Const(c)) => {
                    let mut e = (*c.expr).clone();
                    self.expr(&mut e);
                    let (n, mut t) = (c.ident.clone(), (*c.ty).clone());
                    self.visit_type_mut(&mut t);
                    out.push(Stmt::Expr(pexpr(quote!(const #n: #t = #e;)), None));
                }
                Stmt::Item(i) => {
                    self.problems.push(format!("item in body: {}", i.to_token_stream().to_string().chars().take(40).collect::<String>()));
                }
                Stmt::Local(mut l) => {
                    self.visit_pat_mut(&mut l.pat);
                    if let Some(i) = &mut l.init {
                        self.expr(&mut i.expr);
                        if let Some((_, d)) = &mut i.diverge {
                            self.expr(d);
                        }
                    }
                    out.push(Stmt::Local(l));
                }
                Stmt::Expr(mut e, semi) => {
                    self.expr(&mut e);
                    if let (Expr::Verbatim(t), true) = (&e, semi.is_some()) {
                        if t.to_string() == "()" {
                            continue;
                        }
                    }
                    out.push(Stmt::Expr(e, semi));
                }
            }
        }
        if self.world == Eff::Write && self.in_closure == 0 {
            let mut v = vec![];
            for s in out {
                if mentions(s.to_token_stream(), "w_ro") {
                    let id = self.raw("let w_ro: &World = &*w;".into());
                    v.push(Stmt::Expr(pexpr(quote!(#id)), None));
                }
                v.push(s);
            }
            out = v;
        }
        b.stmts = out;
    }

    fn fix_use_local(&mut self, u: &syn::ItemUse) -> Option<TokenStream> {
        let t = self.fix_use(u)?;
        // `pub use` is fine in a function body, but pointless
        Some(t.into_iter().filter(|t| t.to_string() != "pub").collect())
    }

    // ---- loops
    fn loop_clauses(&mut self, n: usize, auto_inv: &str, auto_ens: &str, auto_dec: &str) -> Ident {
        let mut t = String::new();
        if let Some(x) = self.section(&format!("loop {} invariant_except_break", n)) {
            t.push_str(&format!("\n    invariant_except_break {}\n", x));
        }
        let inv = self.section(&format!("loop {} invariant", n)).unwrap_or_default();
        let own = self.section("loops").unwrap_or_default();
        let all: Vec<&str> = [auto_inv, inv.as_str(), own.as_str()].into_iter().filter(|s| !s.trim().is_empty()).collect();
        if !all.is_empty() {
            t.push_str(&format!("\n    invariant {}\n", all.join(",\n        ")));
        }
        let ens = self.section(&format!("loop {} ensures", n)).unwrap_or_default();
        let all: Vec<&str> = [auto_ens, ens.as_str()].into_iter().filter(|s| !s.trim().is_empty()).collect();
        if !all.is_empty() {
            t.push_str(&format!("    ensures {}\n", all.join(",\n        ")));
        }
        let dec = self.section(&format!("loop {} decreases", n)).unwrap_or_else(|| auto_dec.to_string());
        if !dec.is_empty() {
            t.push_str(&format!("    decreases {}\n", dec));
        }
        self.raw(t)
    }

    fn loop_expr(&mut self, e: &mut Expr) {
        let n = self.loops;
        self.loops += 1;
        let sp = e.span();
        match e {
            Expr::ForLoop(f) => {
                let mut it = (*f.expr).clone();
                self.expr(&mut it);
                let mut pat = (*f.pat).clone();
                self.visit_pat_mut(&mut pat);
                let has_break = has_break(&f.body);
                let mut body = f.body.clone();
                self.block(&mut body);
                let (i, all, pos) = (ident(&format!("it{}", n)), ident(&format!("it{}_all", n)), ident(&format!("it{}_n", n)));
                let inv = format!("0 <= {pos} <= {all}.len(), {i}@ == {all}.skip({pos})", pos = pos, all = all, i = i);
                let ens = if has_break { String::new() } else { format!("{pos} == {all}.len()", pos = pos, all = all) };
                let dec = format!("{}.len() - {}", all, pos);
                let clauses = self.loop_clauses(n, &inv, &ens, &dec);
                let proof = self.proof_block(&format!("loop {} proof", n));
                let before = self.proof_block(&format!("loop {} before", n));
                let end = self.proof_block(&format!("loop {} end", n));
                let after = self.proof_block(&format!("loop {} after", n));
                let adv = self.raw(format!("proof {{ {pos} = {pos} + 1; }} /*LITS*/\n", pos = pos));
                let g1 = self.raw(format!("let ghost {all} = {i}@; let ghost mut {pos}: int = 0;", all = all, pos = pos, i = i));
                let stmts = &body.stmts;
                *e = pexpr(quote_spanned!(sp=> {
                    let mut #i = crate::base::IntoIt::into_it(#it);
                    #g1 #before
                    loop #clauses {
                        match #i.next() {
                            None => { break; }
                            Some(#pat) => { #adv #proof #(#stmts)* #end }
                        }
                    }
                    #after
                }));
            }
            Expr::While(w) => {
                let mut c = (*w.cond).clone();
                self.expr(&mut c);
                let mut body = w.body.clone();
                self.block(&mut body);
                let clauses = self.loop_clauses(n, "", "", "");
                let lits = self.raw("/*LITS*/\n".to_string());
                let proof = self.proof_block(&format!("loop {} proof", n));
                let proof = quote!(#lits #proof);
                let stmts = &body.stmts;
                if matches!(c, Expr::Let(_)) {
                    *e = pexpr(quote_spanned!(sp=> loop #clauses { if #c { #proof #(#stmts)* } else { break; } }));
                } else {
                    *e = pexpr(quote_spanned!(sp=> while #c #clauses { #proof #(#stmts)* }));
                }
            }
            Expr::Loop(l) => {
                let mut body = l.body.clone();
                self.block(&mut body);
                let clauses = self.loop_clauses(n, "", "", "");
                let lits = self.raw("/*LITS*/\n".to_string());
                let proof = self.proof_block(&format!("loop {} proof", n));
                let proof = quote!(#lits #proof);
                let stmts = &body.stmts;
                *e = pexpr(quote_spanned!(sp=> loop #clauses { #proof #(#stmts)* }));
            }
            _ => unreachable!(),
        }
    }

    fn proof_block(&mut self, k: &str) -> TokenStream {
        match self.section(k) {
            Some(t) => {
                let id = self.raw(format!("proof {{ {} }}\n", t));
                quote!(#id)
            }
            None => quote!(),
        }
    }

    // ---- closures
    fn closure(&mut self, e: &mut Expr) {
        let n = self.closures;
        self.closures += 1;
        let Expr::Closure(c) = e else { unreachable!() };
        let sp = c.span();
        let mut c = c.clone();
        let mut body = (*c.body).clone();
        if let Expr::Async(a) = &body {
            body = Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: a.block.clone() });
        }
        let orig = body.clone();
        self.in_closure += 1;
        let mut ps: Vec<syn::Pat> = c.inputs.iter().cloned().collect();
        let mut pnames = vec![];
        for p in &mut ps {
            self.visit_pat_mut(p);
            let mut q = &*p;
            while let syn::Pat::Type(t) = q {
                q = &t.pat;
            }
            if let syn::Pat::Ident(i) = q {
                pnames.push(i.ident.to_string());
            } else {
                pnames.push(String::new());
            }
        }
        self.expr(&mut body);
        self.in_closure -= 1;
        let mut names = self.names.clone();
        for (i, p) in pnames.iter().enumerate() {
            names.insert(format!("c{}", i), if p.is_empty() { format!("c{}", i) } else { p.clone() });
        }
        let sect = |s: &Self, k: &str| s.spec.as_ref().and_then(|x| x.get(&format!("closure {} {}", n, k)).map(|t| subst(t, &names)));
        let ret = match (&c.output, sect(self, "returns")) {
            (_, Some(t)) => t,
            (syn::ReturnType::Type(_, t), _) => {
                let mut t = (**t).clone();
                self.visit_type_mut(&mut t);
                t.to_token_stream().to_string()
            }
            _ => "_".to_string(),
        };
        let mut clauses = String::new();
        if let Some(t) = sect(self, "requires") {
            clauses.push_str(&format!(" requires {}", t));
        }
        if let Some(t) = sect(self, "ensures") {
            clauses.push_str(&format!(" ensures {}", t));
        } else if let Some(t) = self.pure_spec(&orig) {
            clauses.push_str(&if t.chars().all(|c| c.is_ascii_digit()) { format!(" ensures r == {}", t) } else { format!(" ensures eqs(r, {})", t) });
        }
        let proof = sect(self, "proof").map(|t| self.raw(format!("proof {{ {} }}", t)));
        // patterns other than names become a `let` inside (and in the contract)
        let mut lets = TokenStream::new();
        let mut params = vec![];
        let mut pre = String::new();
        for (i, p) in ps.iter().enumerate() {
            let (inner, ty) = match p {
                syn::Pat::Type(t) => ((*t.pat).clone(), Some(t.ty.clone())),
                q => (q.clone(), None),
            };
            let ty = ty.map(|t| {
                let mut t = (*t).clone();
                self.visit_type_mut(&mut t);
                quote!(: #t)
            });
            // what the compiler infers, written out because the contract needs it
            let ty = ty.or_else(|| {
                let all = sect(self, "types")?;
                let t = all.split(';').nth(i)?.trim().to_string();
                if t.is_empty() {
                    return None;
                }
                let t: TokenStream = t.parse().unwrap();
                Some(quote!(: #t))
            });
            match &inner {
                syn::Pat::Ident(_) => params.push(quote!(#inner #ty)),
                syn::Pat::Wild(_) => {
                    let id = ident(&format!("_c{}", i));
                    params.push(quote!(#id #ty))
                }
                other => {
                    let id = ident(&format!("c{}", i));
                    lets.extend(quote!(let #other = #id;));
                    pre.push_str(&format!("let {} = c{}; ", other.to_token_stream(), i));
                    params.push(quote!(#id #ty));
                }
            }
        }
        if !pre.is_empty() && !clauses.is_empty() {
            // only sound for the automatic form
            clauses = clauses.replacen("ensures eqs(r, ", &format!("ensures eqs(r, {{ {} ", pre), 1);
            if sect(self, "ensures").is_none() {
                clauses.truncate(clauses.len() - 1);
                clauses.push_str(" })");
            }
        }
        let cl = self.raw(format!(" -> (r: {}){} ", ret, clauses));
        *e = pexpr(quote_spanned!(sp=> |#(#params),*| #cl { #proof #lets #body }));
    }

    /// The specification of a closure body that is a plain expression.
    fn pure_spec(&mut self, e: &Expr) -> Option<String> {
        if !simple(e) {
            return None;
        }
        let mut e = e.clone();
        struct R;
        impl VisitMut for R {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                syn::visit_mut::visit_expr_mut(self, e);
                if let Expr::MethodCall(m) = e {
                    if m.method == "clone" {
                        m.method = ident("sp_clone");
                    }
                    if m.method == "as_ref" {
                        let x = &m.receiver;
                        *e = syn::parse_quote!(opt_ref(#x));
                    }
                }
            }
        }
        R.visit_expr_mut(&mut e);
        let saved = (self.lits.clone(), self.closures, self.loops, self.problems.clone());
        self.expr(&mut e);
        self.lits = saved.0;
        self.closures = saved.1;
        self.loops = saved.2;
        self.problems = saved.3;
        let t = e.to_token_stream().to_string();
        Some(t.replace("lit (", "slit ("))
    }

    // ---- expressions
    pub fn expr(&mut self, e: &mut Expr) {
        match e {
            Expr::Macro(m) => {
                let m = m.mac.clone();
                *e = self.macro_expr(&m);
            }
            Expr::Await(a) => {
                let mut b = (*a.base).clone();
                self.expr(&mut b);
                *e = b;
            }
            Expr::Closure(_) => self.closure(e),
            Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) => self.loop_expr(e),
            Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) => {
                let sp = s.span();
                self.lits.insert(s.value());
                *e = pexpr(quote_spanned!(sp=> lit(#s)));
            }
            Expr::Lit(syn::ExprLit { lit: syn::Lit::ByteStr(s), .. }) => {
                let sp = s.span();
                let v: Vec<_> = s.value().into_iter().map(|b| quote!(#b)).collect();
                *e = pexpr(quote_spanned!(sp=> &[#(#v),*]));
            }
            Expr::Match(m) if m.arms.iter().any(|a| has_str_pat(&a.pat)) => {
                self.expr(&mut m.expr);
                for a in &mut m.arms {
                    if let syn::Pat::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) = &a.pat {
                        let s = s.clone();
                        self.lits.insert(s.value());
                        let sp = s.span();
                        a.pat = syn::parse_quote_spanned!(sp=> s__);
                        let g: Expr = pexpr(quote_spanned!(sp=> *s__ == *lit(#s)));
                        a.guard = Some((Default::default(), Box::new(g)));
                    } else if has_str_pat(&a.pat) {
                        self.problems.push("text pattern".into());
                    }
                    self.expr(&mut a.body);
                }
            }
            Expr::MethodCall(_) => self.method(e),
            Expr::Call(_) => self.call(e),
            Expr::Struct(s) => {
                for f in &mut s.fields {
                    if f.colon_token.is_none() {
                        f.colon_token = Some(Default::default());
                    }
                }
                if let Some(r) = &mut s.rest {
                    if let Expr::Call(c) = &**r {
                        if c.args.is_empty() && matches!(&*c.func, Expr::Path(p) if p.path.segments.len() == 2 && p.path.segments[0].ident == "Default" && p.path.segments[1].ident == "default") {
                            **r = pexpr(quote!(crate::base::VDefault::v_default()));
                        }
                    }
                }
                syn::visit_mut::visit_expr_struct_mut(self, s);
            }
            Expr::Assign(a) if matches!(&*a.left, Expr::Index(_)) => {
                let Expr::Index(i) = &*a.left else { unreachable!() };
                let (mut b, mut k, mut v) = ((*i.expr).clone(), (*i.index).clone(), (*a.right).clone());
                let sp = a.eq_token.spans[0];
                self.expr(&mut b);
                self.expr(&mut k);
                self.expr(&mut v);
                *e = pexpr(quote_spanned!(sp=> #b.v_set(#k, #v)));
            }
            Expr::Index(i) => {
                let sp = i.bracket_token.span.open();
                let mut b = (*i.expr).clone();
                self.expr(&mut b);
                if let Expr::Range(r) = &*i.index {
                    let mut lo = r.start.as_deref().cloned();
                    let mut hi = r.end.as_deref().cloned();
                    for x in lo.iter_mut().chain(hi.iter_mut()) {
                        self.expr(x);
                    }
                    let incl = matches!(r.limits, syn::RangeLimits::Closed(_));
                    *e = match (lo, hi, incl) {
                        (Some(a), Some(c), false) => pexpr(quote_spanned!(sp=> (*(#b).v_range(#a, #c)))),
                        (Some(a), None, _) => pexpr(quote_spanned!(sp=> (*(#b).v_range_from(#a)))),
                        (None, Some(c), false) => pexpr(quote_spanned!(sp=> (*(#b).v_range_to(#c)))),
                        (None, Some(c), true) => pexpr(quote_spanned!(sp=> (*(#b).v_range_to_incl(#c)))),
                        _ => {
                            self.problems.push("range index".into());
                            pexpr(quote_spanned!(sp=> crate::base::unsupported()))
                        }
                    };
                } else {
                    let mut k = (*i.index).clone();
                    self.expr(&mut k);
                    *e = pexpr(quote_spanned!(sp=> (*crate::base::VIndex::v_index(&#b, #k))));
                }
            }
            Expr::Path(p) if p.path.segments.len() == 1 && p.qself.is_none() => {
                let n = p.path.segments[0].ident.to_string();
                if let Some(s) = self.sh.consts.get(&n).cloned() {
                    let sp = p.span();
                    self.lits.insert(s.value());
                    *e = pexpr(quote_spanned!(sp=> lit(#s)));
                } else {
                    self.fix_path(&mut p.path);
                }
            }
            Expr::Block(b) => self.block(&mut b.block),
            Expr::Binary(b) if matches!(b.op, syn::BinOp::Add(_)) && matches!(&*b.right, Expr::Reference(_) | Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(_), .. })) => {
                let (mut l, mut r) = ((*b.left).clone(), (*b.right).clone());
                let sp = b.op.span();
                self.expr(&mut l);
                self.expr(&mut r);
                *e = pexpr(quote_spanned!(sp=> #l.v_add_str(#r)));
            }
            Expr::Cast(c) => {
                self.expr(&mut c.expr);
                self.visit_type_mut(&mut c.ty);
            }
            Expr::Return(r) => {
                if let Some(x) = &mut r.expr {
                    self.expr(x);
                }
            }
            _ => syn::visit_mut::visit_expr_mut(self, e),
        }
    }

    fn method(&mut self, e: &mut Expr) {
        let Expr::MethodCall(m) = e else { unreachable!() };
        let name = m.method.to_string();
        let sp = m.method.span();
        if is_report_method(&name) {
            m.args.clear();
            self.expr(&mut m.receiver);
            return;
        }
        if name == "report_progress" {
            let mut r = (*m.receiver).clone();
            self.expr(&mut r);
            *e = r;
            return;
        }
        if name == "expect" {
            m.method = Ident::new("unwrap", sp);
            m.args.clear();
            self.expr(&mut m.receiver);
            return;
        }
        if name == "try_for_each_concurrent" {
            self.for_each(e);
            return;
        }
        let new = match name.as_str() {
            "iter" => "v_iter",
            "into_iter" => "v_into_iter",
            "windows" => "v_windows",
            "to_vec" => "v_to_vec",
            "sort" => "v_sort",
            "sort_by" => "v_sort_by",
            "extend" => "v_extend",
            "unwrap_or_default" => "v_unwrap_or_default",
            "into_boxed_slice" => "v_into_boxed_slice",
            "cmp" => "v_cmp",
            "into" => "v_into",
            "try_into" => "v_try_into",
            "to_string" => "v_to_string",
            n => n,
        }
        .to_string();
        if new != name {
            m.method = Ident::new(&new, sp);
        }
        if let Some(t) = &mut m.turbofish {
            for a in &mut t.args {
                if let syn::GenericArgument::Type(t) = a {
                    self.visit_type_mut(t);
                }
            }
        }
        self.expr(&mut m.receiver);
        {
            let mut x = &*m.receiver;
            while let Expr::Paren(p) = x {
                x = &p.expr;
            }
            if let (Expr::Range(r), true) = (x, name != "contains") {
                let r = r.clone();
                *m.receiver = pexpr(quote_spanned!(sp=> crate::base::IntoIt::into_it(#r)));
            }
        }
        for a in m.args.iter_mut() {
            self.expr(a);
        }
        let key = format!(".{}", name);
        self.calls.insert(key.clone());
        let eff = self.sh.effects.of_method(&name, m.args.len());
        if let Some(w) = self.world_arg(eff) {
            m.args.push(pexpr(w));
        }
    }

    /// `x.try_for_each_concurrent(n, |p| async { .. }).await` as a sequential loop
    fn for_each(&mut self, e: &mut Expr) {
        let Expr::MethodCall(m) = e else { unreachable!() };
        let sp = m.span();
        let mut recv = (*m.receiver).clone();
        let Some(Expr::Closure(c)) = m.args.last().cloned() else {
            self.problems.push("try_for_each_concurrent".into());
            return;
        };
        self.expr(&mut recv);
        let n = self.loops;
        self.loops += 1;
        let pat = c.inputs[0].clone();
        let mut body = match (*c.body).clone() {
            Expr::Async(a) => a.block,
            Expr::Block(b) => match &b.block.stmts[..] {
                [Stmt::Expr(Expr::Async(a), None)] => a.block.clone(),
                _ => b.block,
            },
            x => syn::parse_quote!({ #x }),
        };
        // leaving the block early is leaving one step, not the function
        struct Ret(bool);
        impl<'a> syn::visit::Visit<'a> for Ret {
            fn visit_expr_return(&mut self, r: &'a syn::ExprReturn) {
                let err = matches!(r.expr.as_deref(), Some(Expr::Call(c)) if c.func.to_token_stream().to_string() == "Err");
                self.0 |= !err;
            }
            fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
            fn visit_item(&mut self, _: &'a syn::Item) {}
        }
        let mut ret = Ret(false);
        syn::visit::Visit::visit_block(&mut ret, &body);
        if ret.0 {
            self.problems.push("return from a concurrent step".into());
        }
        // the value of the body is the result of one step: bind it, leave at the first error.
        // `?` inside leaves with the same error.
        let tail = match body.stmts.pop() {
            Some(Stmt::Expr(x, None)) => x,
            Some(s) => {
                body.stmts.push(s);
                syn::parse_quote!(Ok(()))
            }
            None => syn::parse_quote!(Ok(())),
        };
        self.block(&mut body);
        let mut tail = tail;
        self.expr(&mut tail);
        let (i, all, pos) = (ident(&format!("it{}", n)), ident(&format!("it{}_all", n)), ident(&format!("it{}_n", n)));
        let inv = format!("0 <= {pos} <= {all}.len(), {i}@ == {all}.skip({pos})", pos = pos, all = all, i = i);
        let ens = format!("{pos} == {all}.len()", pos = pos, all = all);
        let dec = format!("{}.len() - {}", all, pos);
        let clauses = self.loop_clauses(n, &inv, &ens, &dec);
        let proof = self.proof_block(&format!("loop {} proof", n));
        let before = self.proof_block(&format!("loop {} before", n));
        let end = self.proof_block(&format!("loop {} end", n));
        let after = self.proof_block(&format!("loop {} after", n));
        let adv = self.raw(format!("proof {{ {pos} = {pos} + 1; }} /*LITS*/\n", pos = pos));
        let g1 = self.raw(format!("let ghost {all} = {i}@; let ghost mut {pos}: int = 0;", all = all, pos = pos, i = i));
        let stmts = &body.stmts;
        *e = pexpr(quote_spanned!(sp=> {
            let mut #i = crate::base::try_items(#recv)?;
            #g1 #before
            loop #clauses {
                match #i.next() {
                    None => { break; }
                    Some(#pat) => { #adv #proof #(#stmts)* let step__: crate::erreur::Result<()> = #tail; step__?; #end }
                }
            }
            #after
            crate::base::ok_unit()
        }));
    }

    fn call(&mut self, e: &mut Expr) {
        let Expr::Call(c) = e else { unreachable!() };
        let mut eff = Eff::Pure;
        if let Expr::Path(p) = &mut *c.func {
            let key = call_key(&p.path, self.self_ty.as_deref());
            self.calls.insert(key.clone());
            eff = self.sh.effects.of(&key);
            if p.qself.is_none() {
                for s in p.path.segments.iter_mut() {
                    if let syn::PathArguments::AngleBracketed(a) = &mut s.arguments {
                        for a in &mut a.args {
                            if let syn::GenericArgument::Type(t) = a {
                                self.visit_type_mut(t);
                            }
                        }
                    }
                }
                self.fix_path(&mut p.path);
            }
        } else {
            self.expr(&mut c.func);
        }
        for a in c.args.iter_mut() {
            self.expr(a);
        }
        // what has to hold where the program ends
        if let Expr::Path(p) = &*c.func {
            let n: Vec<String> = p.path.segments.iter().rev().take(2).map(|s| s.ident.to_string()).collect();
            if n == ["exit", "process"] {
                let t = self.section("exits").unwrap_or_else(|| "true".into());
                let t = self.raw(format!("Ghost({})", t));
                c.args.push(pexpr(quote!(#t)));
            }
        }
        if let Some(w) = self.world_arg(eff) {
            c.args.push(pexpr(w));
        }
    }
}

impl<'a> VisitMut for Tx<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        self.expr(e);
    }
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        self.block(b);
    }
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        for s in p.segments.iter_mut() {
            match &mut s.arguments {
                syn::PathArguments::AngleBracketed(a) => {
                    for a in &mut a.args {
                        self.visit_generic_argument_mut(a);
                    }
                }
                syn::PathArguments::Parenthesized(a) => {
                    for t in &mut a.inputs {
                        self.visit_type_mut(t);
                    }
                    if let syn::ReturnType::Type(_, t) = &mut a.output {
                        self.visit_type_mut(t);
                    }
                }
                _ => {}
            }
        }
        self.fix_path(p);
    }
}

fn mentions(t: TokenStream, n: &str) -> bool {
    t.into_iter().any(|t| match t {
        proc_macro2::TokenTree::Ident(i) => i == n,
        proc_macro2::TokenTree::Group(g) => mentions(g.stream(), n),
        _ => false,
    })
}

pub fn is_log(p: &syn::Path) -> bool {
    p.segments.len() == 2 && p.segments[0].ident == "log"
}

fn stmt_attrs(s: &Stmt) -> &[syn::Attribute] {
    match s {
        Stmt::Local(l) => &l.attrs,
        Stmt::Macro(m) => &m.attrs,
        Stmt::Item(syn::Item::Use(u)) => &u.attrs,
        Stmt::Item(syn::Item::Fn(u)) => &u.attrs,
        Stmt::Expr(Expr::Block(b), _) => &b.attrs,
        Stmt::Expr(Expr::MethodCall(b), _) => &b.attrs,
        Stmt::Expr(Expr::Call(b), _) => &b.attrs,
        Stmt::Expr(Expr::If(b), _) => &b.attrs,
        _ => &[],
    }
}

fn strip_stmt_attrs(s: &mut Stmt) {
    match s {
        Stmt::Local(l) => l.attrs.clear(),
        Stmt::Macro(m) => m.attrs.clear(),
        Stmt::Expr(Expr::Block(b), _) => b.attrs.clear(),
        Stmt::Expr(Expr::MethodCall(b), _) => b.attrs.clear(),
        Stmt::Expr(Expr::Call(b), _) => b.attrs.clear(),
        Stmt::Expr(Expr::If(b), _) => b.attrs.clear(),
        _ => {}
    }
}

fn has_str_pat(p: &syn::Pat) -> bool {
    matches!(p, syn::Pat::Lit(syn::ExprLit { lit: syn::Lit::Str(_), .. })) || matches!(p, syn::Pat::Or(o) if o.cases.iter().any(has_str_pat))
}

fn has_break(b: &syn::Block) -> bool {
    struct B(bool);
    impl<'a> syn::visit::Visit<'a> for B {
        fn visit_expr_break(&mut self, _: &'a syn::ExprBreak) {
            self.0 = true;
        }
        fn visit_expr_for_loop(&mut self, _: &'a syn::ExprForLoop) {}
        fn visit_expr_while(&mut self, _: &'a syn::ExprWhile) {}
        fn visit_expr_loop(&mut self, _: &'a syn::ExprLoop) {}
        fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
    }
    let mut v = B(false);
    syn::visit::Visit::visit_block(&mut v, b);
    v.0
}

/// Expressions whose text can also be read as a specification.
fn simple(e: &Expr) -> bool {
    match e {
        Expr::Path(_) => true,
        Expr::Lit(_) => true,
        Expr::Field(f) => simple(&f.base),
        Expr::Paren(p) => simple(&p.expr),
        Expr::Group(p) => simple(&p.expr),
        Expr::Reference(r) => r.mutability.is_none() && simple(&r.expr),
        Expr::Unary(u) => simple(&u.expr),
        Expr::Cast(c) => simple(&c.expr),
        Expr::Tuple(t) => t.elems.iter().all(simple),
        Expr::Binary(b) => {
            simple(&b.left)
                && simple(&b.right)
                && !matches!(b.op, syn::BinOp::Add(_) | syn::BinOp::Sub(_) | syn::BinOp::Mul(_) | syn::BinOp::Div(_) | syn::BinOp::Rem(_))
                && !b.op.to_token_stream().to_string().ends_with("=") | matches!(b.op, syn::BinOp::Eq(_) | syn::BinOp::Ne(_) | syn::BinOp::Le(_) | syn::BinOp::Ge(_))
        }
        Expr::Struct(s) => s.rest.is_none() && s.fields.iter().all(|f| simple(&f.expr)),
        Expr::MethodCall(m) => {
            SPEC_METHODS.contains(&m.method.to_string().as_str()) && simple(&m.receiver) && m.args.iter().all(simple)
        }
        Expr::Call(c) => {
            matches!(&*c.func, Expr::Path(p) if SPEC_CALLS.contains(&p.path.segments.last().unwrap().ident.to_string().as_str())) && c.args.iter().all(simple)
        }
        Expr::Block(b) => match &b.block.stmts[..] {
            [Stmt::Expr(x, None)] => simple(x),
            _ => false,
        },
        _ => false,
    }
}

/// exec methods that are declared with `when_used_as_spec` in the prelude or that vstd can use in specifications
const SPEC_METHODS: &[&str] = &[
    "contains", "starts_with", "ends_with", "is_some", "is_none", "is_ok", "is_err", "as_ref", "as_str", "clone", "is_file", "is_dir", "is_symlink", "file_type", "len", "version",
    "ok", "strip_suffix", "strip_prefix", "size", "weight", "is_tag",
];
const SPEC_CALLS: &[&str] = &["Some", "Ok", "Err"];

fn flatten(t: &syn::UseTree, mut pre: Vec<String>, out: &mut Vec<(Vec<String>, Option<String>)>) {
    match t {
        syn::UseTree::Path(p) => {
            pre.push(p.ident.to_string());
            flatten(&p.tree, pre, out);
        }
        syn::UseTree::Name(n) => {
            pre.push(n.ident.to_string());
            out.push((pre, None));
        }
        syn::UseTree::Rename(r) => {
            pre.push(r.ident.to_string());
            out.push((pre, Some(r.rename.to_string())));
        }
        syn::UseTree::Glob(_) => {
            pre.push("*".into());
            out.push((pre, None));
        }
        syn::UseTree::Group(g) => {
            for i in &g.items {
                flatten(i, pre.clone(), out);
            }
        }
    }
}
