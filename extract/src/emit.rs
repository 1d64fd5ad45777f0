//! Assembles one Verus crate from the prelude, the extracted types and the extracted functions.
use crate::db::*;
use crate::passes::*;
use crate::repo::*;
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::VisitMut;
use syn::*;

// ------------------------------------------------------------------ printing
struct Printer<'a> {
    out: String,
    indent: usize,
    sections: &'a BTreeMap<String, String>,
    loops: BTreeMap<String, usize>,
    used: BTreeSet<String>,
    probe: bool,
    kinds: BTreeMap<usize, bool>, // loop -> is iterator loop
}
impl<'a> Printer<'a> {
    fn nl(&mut self) {
        while self.out.ends_with(' ') {
            self.out.pop();
        }
        self.out.push('\n');
        for _ in 0..self.indent {
            self.out.push_str("    ");
        }
    }
    fn text(&mut self, s: &str) {
        for l in s.trim_end().lines() {
            self.nl();
            self.out.push_str(l.trim_end());
        }
        self.nl();
    }
    fn section(&mut self, k: &str) {
        if let Some(t) = self.sections.get(k) {
            self.used.insert(k.to_string());
            let t = t.clone();
            self.text(&t);
        }
    }
    fn loop_no(&mut self, raw: &str) -> usize {
        let n = self.loops.len();
        *self.loops.entry(raw.to_string()).or_insert(n)
    }
    fn rename(&mut self, id: &str) -> String {
        if let Some(r) = id.strip_prefix("__VXL") {
            let us = r.find('_').unwrap();
            let k = self.loop_no(&r[..us]);
            let rest = &r[us + 1..];
            // it -> __it0, r -> __r0, x2 -> __x0_2
            let (a, d): (String, String) = (rest.chars().take_while(|c| c.is_alphabetic()).collect(), rest.chars().skip_while(|c| c.is_alphabetic()).collect());
            return if d.is_empty() || d == "0" { format!("__{a}{k}") } else { format!("__{a}{k}_{d}") };
        }
        id.to_string()
    }
    fn stream(&mut self, ts: TokenStream) {
        let toks: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < toks.len() {
            match &toks[i] {
                TokenTree::Ident(id) => {
                    let s = id.to_string();
                    if s.starts_with("__VXL") && s.ends_with("_g") {
                        let us = s.rfind('_').unwrap();
                        let k = self.loop_no(&s[5..us]);
                        self.kinds.insert(k, true);
                        self.out.push_str(&format!("let ghost __s{k} = __it{k}.seq();"));
                        self.section(&format!("before_loop {k}"));
                        i += 2;
                        self.nl();
                        continue;
                    }
                    if let Some(a) = s.strip_prefix("__VXC_") {
                        let us = a.rfind('_').unwrap();
                        let (n, k) = (&a[..us], &a[us + 1..]);
                        let key = if !self.sections.contains_key(&format!("closure {n} {k}")) && self.sections.contains_key(&format!("closure {n}")) { format!("closure {n}") } else { format!("closure {n} {k}") };
                        if let (Some(h), TokenTree::Group(g)) = (self.sections.get(&key).cloned(), &toks[i + 1]) {
                            self.used.insert(key);
                            self.text(&h);
                            self.stream(g.stream());
                        } else {
                            self.out.push_str("vx_closure_without_spec");
                            i += 1;
                            continue;
                        }
                        i += 2;
                        continue;
                    }
                    if let Some(a) = s.strip_prefix("__VXG_") {
                        let key = if a == "entry" || a == "exit" {
                            a.to_string()
                        } else {
                            let (kind, rest) = if let Some(r) = a.strip_prefix("before_call_") { ("before_call", r) } else { ("after_call", a.strip_prefix("after_call_").unwrap()) };
                            let us = rest.rfind('_').unwrap();
                            format!("{kind} {} {}", &rest[..us], &rest[us + 1..])
                        };
                        if self.sections.contains_key(&key) {
                            self.section(&key);
                        } else {
                            // default call number omitted in the section title
                            let k2 = key.trim_end_matches(" 0").to_string();
                            self.section(&k2);
                        }
                        i += 1;
                        if i < toks.len() {
                            if let TokenTree::Punct(p) = &toks[i] {
                                if p.as_char() == ';' {
                                    i += 1;
                                }
                            }
                        }
                        continue;
                    }
                    let s = self.rename(&s);
                    self.out.push_str(&s);
                    self.out.push(' ');
                }
                TokenTree::Literal(l) => {
                    self.out.push_str(&l.to_string());
                    self.out.push(' ');
                }
                TokenTree::Punct(p) => {
                    if p.as_char() == '.' {
                        while self.out.ends_with(' ') {
                            self.out.pop();
                        }
                    }
                    self.out.push(p.as_char());
                    if p.spacing() == Spacing::Alone && p.as_char() != '.' {
                        self.out.push(' ');
                    }
                    if p.as_char() == ';' {
                        self.nl();
                    }
                }
                TokenTree::Group(g) => {
                    let inner = g.stream();
                    match g.delimiter() {
                        Delimiter::Brace => {
                            let first = inner.clone().into_iter().next();
                            let mut lp = None;
                            if let Some(TokenTree::Ident(id)) = &first {
                                let s = id.to_string();
                                if s.starts_with("__VXL") && s.ends_with("_m") {
                                    let us = s.rfind('_').unwrap();
                                    lp = Some(self.loop_no(&s[5..us]));
                                }
                            }
                            let mut inner = inner;
                            if let Some(k) = lp {
                                inner = inner.into_iter().skip(2).collect();
                                let sec = format!("loop {k}");
                                self.indent += 1;
                                let iter = *self.kinds.get(&k).unwrap_or(&false);
                                if iter {
                                    let t = self.sections.get(&sec).cloned().unwrap_or_default();
                                    self.used.insert(sec);
                                    // the section may start with `invariant_except_break` / `ensures`; plain clauses are invariants
                                    let t = match t.split_once("\n--\n") {
                                        Some((a, b)) => {
                                            self.text(&format!("invariant_except_break\n{a}"));
                                            b.to_string()
                                        }
                                        None => t,
                                    };
                                    self.text(&format!("invariant\n  __it{k}.seq() == __s{k}, 0 <= __it{k}.pos() <= __s{k}.len(),"));
                                    self.text(&t);
                                    if !t.contains("decreases") {
                                        self.text(&format!("decreases __s{k}.len() - __it{k}.pos(),"));
                                    }
                                } else {
                                    // clauses written for an iterator loop are invariants of any loop
                                    let bare = self.sections.get(&sec).map(|t| !t.trim().is_empty() && !["invariant", "ensures", "decreases"].iter().any(|k| t.trim_start().starts_with(k)) && !t.contains("\n--\n")).unwrap_or(false);
                                    if bare {
                                        self.out.push_str(" invariant ");
                                    }
                                    self.section(&sec);
                                }
                                self.indent -= 1;
                            }
                            self.out.push_str("{ ");
                            self.indent += 1;
                            self.nl();
                            if let Some(k) = lp {
                                self.section(&format!("loop_start {k}"));
                                if self.probe {
                                    self.text("proof { assert(false); }");
                                }
                            }
                            self.stream(inner);
                            if let Some(k) = lp {
                                if self.sections.contains_key(&format!("loop_end {k}")) {
                                    if !self.out.trim_end().ends_with(|c| c == ';' || c == '}' || c == '{') {
                                        self.out.push(';');
                                    }
                                    self.section(&format!("loop_end {k}"));
                                }
                            }
                            self.indent -= 1;
                            self.nl();
                            self.out.push_str("} ");
                            if let Some(k) = lp {
                                self.section(&format!("after_loop {k}"));
                            }
                            self.nl();
                        }
                        Delimiter::Parenthesis => {
                            while self.out.ends_with(' ') && self.out.trim_end().ends_with(|c: char| c.is_alphanumeric() || c == '_') && !["if ", "in ", "match ", "return ", "while "].iter().any(|k| self.out.ends_with(k)) {
                                self.out.pop();
                            }
                            self.out.push('(');
                            self.stream(inner);
                            while self.out.ends_with(' ') {
                                self.out.pop();
                            }
                            self.out.push_str(") ");
                        }
                        Delimiter::Bracket => {
                            while self.out.ends_with(' ') {
                                self.out.pop();
                            }
                            self.out.push('[');
                            self.stream(inner);
                            self.out.push_str("] ");
                        }
                        Delimiter::None => self.stream(inner),
                    }
                }
            }
            i += 1;
        }
    }
}

/// `vars=a,b`: the sections name the `let mut` locals a and b, which may have other names in the code
fn rename_locals(sections: &BTreeMap<String, String>, vars: &str, b: &Block, errors: &mut Vec<String>) -> BTreeMap<String, String> {
    struct Lets(Vec<String>);
    impl<'a> syn::visit::Visit<'a> for Lets {
        fn visit_local(&mut self, l: &'a Local) {
            let p = if let Pat::Type(t) = &l.pat { &*t.pat } else { &l.pat };
            if let Pat::Ident(i) = p {
                if i.mutability.is_some() {
                    self.0.push(i.ident.to_string());
                }
            }
            syn::visit::visit_local(self, l);
        }
    }
    let mut l = Lets(vec![]);
    syn::visit::Visit::visit_block(&mut l, b);
    let vars: Vec<&str> = vars.split(',').collect();
    let gone: Vec<&str> = vars.iter().copied().filter(|v| !l.0.iter().any(|x| x == v)).collect();
    let new: Vec<&String> = l.0.iter().filter(|x| !vars.contains(&x.as_str())).collect();
    if gone.is_empty() {
        return sections.clone();
    }
    if gone.len() != new.len() {
        errors.push(format!("anchor lost: locals {}", gone.join(", ")));
        return sections.clone();
    }
    let mut out = sections.clone();
    for (k, t) in out.iter_mut() {
        if k == "entry" || k == "pre" || k == "from_spec" || k == "exit" {
            continue;
        }
        let mut r = String::new();
        let mut word = String::new();
        for ch in t.chars().chain(std::iter::once('\n')) {
            if ch.is_alphanumeric() || ch == '_' {
                word.push(ch);
                continue;
            }
            let w = std::mem::take(&mut word);
            let field = r.ends_with('.') && !r.ends_with("..");
            match gone.iter().position(|g| *g == w) {
                Some(i) if !field => r.push_str(new[i]),
                _ => r.push_str(&w),
            }
            r.push(ch);
        }
        *t = r;
    }
    out
}

// ------------------------------------------------------------------ types
fn derives(attrs: &[Attribute]) -> BTreeSet<String> {
    let mut s = BTreeSet::new();
    for a in attrs {
        if a.path().is_ident("derive") {
            let t = ts(&a.meta);
            if let Some(i) = t.find('(') {
                for d in t[i + 1..t.len() - 1].split(',') {
                    s.insert(d.rsplit("::").next().unwrap().to_string());
                }
            }
        }
    }
    s
}

pub struct Generic {
    pub decl: String,
    pub args: String,
    pub names: Vec<String>,
}
/// generics without bounds (except traits known to the prelude)
pub fn generics(g: &Generics, traits: &BTreeSet<String>, skip: &BTreeSet<String>) -> Generic {
    let mut d = vec![];
    let mut a = vec![];
    let mut names = vec![];
    for p in &g.params {
        match p {
            GenericParam::Lifetime(l) => {
                d.push(l.lifetime.to_string());
                a.push(l.lifetime.to_string());
            }
            GenericParam::Type(t) => {
                let n = t.ident.to_string();
                if skip.contains(&n) {
                    continue;
                }
                let mut bounds: Vec<String> = vec![];
                let mut add = |bs: &punctuated::Punctuated<TypeParamBound, Token![+]>| {
                    for b in bs {
                        if let TypeParamBound::Trait(tb) = b {
                            let nm = tb.path.segments.last().unwrap().ident.to_string();
                            if (nm == "Fn" || nm == "FnMut") && skip.contains("#hofn") {
                                let mut path = tb.path.clone();
                                path.segments.last_mut().unwrap().ident = Ident::new("Fn", proc_macro2::Span::call_site());
                                bounds.push(path.to_token_stream().to_string());
                                continue;
                            }
                            if traits.contains("VxStr") && ["AsRef<str>", "Into<String>"].contains(&ts(&tb.path).replace(' ', "").as_str()) {
                                bounds.push("VxStr".into());
                                continue;
                            }
                            if traits.contains(&nm) && tb.modifier == TraitBoundModifier::None {
                                bounds.push(ts(&tb.path));
                            }
                        }
                    }
                };
                add(&t.bounds);
                if let Some(w) = &g.where_clause {
                    for p in &w.predicates {
                        if let WherePredicate::Type(pt) = p {
                            if ts(&pt.bounded_ty) == n {
                                add(&pt.bounds);
                            }
                        }
                    }
                }
                if skip.contains("#static") {
                    bounds.push("'static".into());
                }
                d.push(if bounds.is_empty() { n.clone() } else { format!("{n}: {}", bounds.join(" + ")) });
                a.push(n.clone());
                names.push(n);
            }
            GenericParam::Const(c) => {
                d.push(format!("const {}: {}", c.ident, ts(&c.ty)));
                a.push(c.ident.to_string());
            }
        }
    }
    Generic { decl: if d.is_empty() { String::new() } else { format!("<{}>", d.join(", ")) }, args: if a.is_empty() { String::new() } else { format!("<{}>", a.join(", ")) }, names }
}

fn ty_str(t: &Type) -> String {
    let mut t = t.clone();
    TypeRewrite.visit_type_mut(&mut t);
    t.to_token_stream().to_string()
}

fn field_str(f: &Field) -> String {
    match &f.ident {
        Some(i) => format!("pub {i}: {}", ty_str(&f.ty)),
        None => format!("pub {}", ty_str(&f.ty)),
    }
}

fn emit_type(it: &Item, traits: &BTreeSet<String>, custom: &BTreeSet<String>) -> String {
    let none = BTreeSet::new();
    let mut o = String::new();
    let with_defaults = |g: &Generics, mut r: Generic| {
        for p in &g.params {
            if let GenericParam::Type(t) = p {
                if let Some(d) = &t.default {
                    let n = t.ident.to_string();
                    let mut parts: Vec<String> = r.decl.trim_start_matches('<').trim_end_matches('>').split(", ").map(|x| x.to_string()).collect();
                    for q in parts.iter_mut() {
                        if *q == n || q.starts_with(&format!("{n}:")) {
                            *q = format!("{q} = {}", ty_str(d));
                        }
                    }
                    r.decl = format!("<{}>", parts.join(", "));
                }
            }
        }
        r
    };
    let (name, g, attrs): (String, Generic, &Vec<Attribute>) = match it {
        Item::Struct(s) => {
            let g = with_defaults(&s.generics, generics(&s.generics, traits, &none));
            o.push_str(&format!("pub struct {}{} ", s.ident, g.decl));
            match &s.fields {
                Fields::Named(n) => o.push_str(&format!("{{ {} }}\n", n.named.iter().filter(|f| cfg_ok(&f.attrs)).map(field_str).collect::<Vec<_>>().join(", "))),
                Fields::Unnamed(n) => o.push_str(&format!("({});\n", n.unnamed.iter().map(field_str).collect::<Vec<_>>().join(", "))),
                Fields::Unit => o.push_str(";\n"),
            }
            (s.ident.to_string(), g, &s.attrs)
        }
        Item::Enum(s) => {
            let g = with_defaults(&s.generics, generics(&s.generics, traits, &none));
            o.push_str(&format!("pub enum {}{} {{\n", s.ident, g.decl));
            for v in &s.variants {
                if !cfg_ok(&v.attrs) {
                    continue;
                }
                let f = match &v.fields {
                    Fields::Named(n) => format!("{{ {} }}", n.named.iter().map(|f| field_str(f).replacen("pub ", "", 1)).collect::<Vec<_>>().join(", ")),
                    Fields::Unnamed(n) => format!("({})", n.unnamed.iter().map(|f| field_str(f).replacen("pub ", "", 1)).collect::<Vec<_>>().join(", ")),
                    Fields::Unit => String::new(),
                };
                o.push_str(&format!("    {}{},\n", v.ident, f));
            }
            o.push_str("}\n");
            (s.ident.to_string(), g, &s.attrs)
        }
        Item::Type(t) => {
            return format!("pub type {}{} = {};\n", t.ident, ts(&t.generics), ty_str(&t.ty));
        }
        _ => return String::new(),
    };
    let d = derives(attrs);
    let (gd, ga) = (&g.decl, &g.args);
    if d.contains("Copy") {
        let gd = if gd.is_empty() { String::new() } else { format!("<{}>", gd[1..gd.len() - 1].split(',').map(|x| { let x = x.trim(); if x.starts_with('\'') || x.is_empty() { x.to_string() } else if x.contains(':') { format!("{x} + Copy") } else { format!("{x}: Copy") } }).collect::<Vec<_>>().join(", ")) };
        o.push_str(&format!("impl{gd} Copy for {name}{ga} {{}}\n"));
    }
    if d.contains("Clone") && !custom.contains(&format!("{name}#Clone")) {
        o.push_str(&format!("impl{gd} Clone for {name}{ga} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}\n"));
    }
    if d.contains("PartialEq") && !custom.contains(&format!("{name}#PartialEq")) {
        o.push_str(&format!(
            "impl{gd} PartialEqSpecImpl for {name}{ga} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, o: &Self) -> bool {{ *self == *o }} }}\nimpl{gd} PartialEq for {name}{ga} {{ #[verifier::external_body] fn eq(&self, o: &Self) -> bool {{ unimplemented!() }} }}\n"
        ));
    }
    if d.contains("Default") {
        if let Item::Enum(s) = it {
            for v in &s.variants {
                if v.attrs.iter().any(|a| a.path().is_ident("default")) {
                    o.push_str(&format!("impl{gd} Default for {name}{ga} {{ fn default() -> (r: Self) ensures r == {name}::{0} {{ {name}::{0} }} }}\n", v.ident));
                }
            }
        }
    }
    o
}

// ------------------------------------------------------------------ functions
struct Emitted {
    text: String,
    /// text before and after the function inside its impl
    header: String,
    footer: String,
    info: Value,
}

fn subst_types(t: &mut Type, m: &BTreeMap<String, String>) {
    struct S<'a>(&'a BTreeMap<String, String>);
    impl<'a> VisitMut for S<'a> {
        fn visit_type_mut(&mut self, t: &mut Type) {
            if let Type::Path(p) = t {
                if let Some(i) = p.path.get_ident() {
                    if let Some(n) = self.0.get(&i.to_string()) {
                        *t = parse_str(n).unwrap();
                        return;
                    }
                }
            }
            syn::visit_mut::visit_type_mut(self, t);
        }
    }
    S(m).visit_type_mut(t);
}

/// resolves Self::X associated types of the impl
fn assoc_types(t: &mut Type, f: &FnItem) {
    struct S<'a>(&'a FnItem);
    impl<'a> VisitMut for S<'a> {
        fn visit_type_mut(&mut self, t: &mut Type) {
            let s = ts(t);
            if let Some(n) = s.strip_prefix("Self::") {
                if let Some(a) = self.0.assoc.iter().find(|a| a.ident == n) {
                    *t = a.ty.clone();
                    return;
                }
            }
            syn::visit_mut::visit_type_mut(self, t);
        }
    }
    S(f).visit_type_mut(t);
}

fn emit_fn(repo: &Repo, db: &Db, unit: &Unit, c: &Contract, f: &FnItem, traits: &BTreeSet<String>, want_stub: bool, probe: bool) -> Emitted {
    let mut errors: Vec<String> = vec![];
    let subst: BTreeMap<String, String> = c.opts.iter().filter_map(|(k, v)| k.strip_prefix("inst.").map(|k| (k.to_string(), v.clone()))).collect();
    let mut skip: BTreeSet<String> = subst.keys().cloned().collect();
    if c.flags.contains("hofn") {
        skip.insert("#hofn".into());
    }
    if c.flags.contains("statref") {
        skip.insert("#static".into());
    }
    let g = generics(&f.sig.generics, traits, &skip);
    // parameters
    let mut params: Vec<String> = vec![];
    let mut binds: Vec<Stmt> = vec![];
    let mut selfmut = false;
    let mut k = 0;
    let typed: Vec<&PatType> = f.sig.inputs.iter().filter_map(|i| if let FnArg::Typed(t) = i { Some(t) } else { None }).collect();
    let cparams: Vec<(String, Option<String>)> = c
        .params
        .iter()
        .map(|p| match p.split_once(':') {
            Some((a, b)) => (a.trim().to_string(), Some(b.trim().to_string())),
            None => (p.clone(), None),
        })
        .filter(|p| p.0 != "self")
        .collect();
    if typed.len() != cparams.len() {
        errors.push(format!("parameter count {} (contract has {})", typed.len(), cparams.len()));
    }
    for i in &f.sig.inputs {
        match i {
            FnArg::Receiver(r) if ts(&r.ty).replace(' ', "") == "Pin<&mutSelf>" => params.push("&mut self".into()),
            FnArg::Receiver(r) => {
                if r.reference.is_some() {
                    // interior mutability: the contract may ask for &mut self
                    let m = r.mutability.is_some() || c.flags.contains("mutself");
                    params.push(if m { "&mut self".into() } else { "&self".into() });
                } else {
                    if r.mutability.is_some() {
                        selfmut = true;
                    }
                    params.push("self".into());
                }
            }
            FnArg::Typed(t) => {
                let (n, ty) = cparams.get(k).cloned().unwrap_or((format!("__p{k}"), None));
                k += 1;
                let ty = match ty {
                    Some(x) => x,
                    None => {
                        let mut tt = (*t.ty).clone();
                        subst_types(&mut tt, &subst);
                        assoc_types(&mut tt, f);
                        ty_str(&tt)
                    }
                };
                params.push(format!("{n}: {ty}"));
                let pat = &t.pat;
                if ts(pat) != n {
                    let id: Ident = format_ident2(&n);
                    binds.push(parse_quote!(let #pat = #id;));
                }
            }
        }
    }
    if c.world() {
        params.push("w: &mut World".into());
    }
    let mut ret = match &f.sig.output {
        ReturnType::Default => None,
        ReturnType::Type(_, t) => Some((**t).clone()),
    };
    if let Some(t) = &ret {
        let s = ts(t);
        if s.starts_with("implFuture<Output=") || s.starts_with("implstd::future::Future<Output=") || s.starts_with("implcore::future::Future<Output=") {
            let a = s.find('=').unwrap() + 1;
            // up to the matching '>'
            let mut depth = 1;
            let mut end = a;
            for (i, ch) in s[a..].char_indices() {
                match ch {
                    '<' => depth += 1,
                    '>' => {
                        depth -= 1;
                        if depth == 0 {
                            end = a + i;
                            break;
                        }
                    }
                    _ => {}
                }
            }
            ret = parse_str(&s[a..end]).ok();
        }
    }
    let ret_s = match (c.opts.get("ret"), ret) {
        (Some(r), _) => format!(" -> (r: {})", r.replace('_', " ").replace("  ", "_")),
        (None, Some(mut t)) => {
            subst_types(&mut t, &subst);
            assoc_types(&mut t, f);
            if c.flags.contains("statref") {
                struct StatRef;
                impl VisitMut for StatRef {
                    fn visit_type_reference_mut(&mut self, r: &mut TypeReference) {
                        r.lifetime = Some(parse_str("'static").unwrap());
                        syn::visit_mut::visit_type_reference_mut(self, r);
                    }
                }
                StatRef.visit_type_mut(&mut t);
            }
            let s = ty_str(&t);
            if s == "()" {
                String::new()
            } else {
                format!(" -> (r: {s})")
            }
        }
        _ => String::new(),
    };
    // body
    let mut body = String::new();
    let mut inlined = vec![];
    let mut nloops = 0;
    let mut stub = want_stub;
    if !stub && errors.is_empty() {
        let self_name = f.self_ty.as_ref().map(|t| match t {
            Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
            t => ts(t),
        });
        let mut cx = Cx {
            repo,
            db,
            unit,
            contract: c,
            module: f.module.clone(),
            self_ty: self_name.or(f.in_trait.clone()),
            loops: 0,
            errors: vec![],
            inlined: vec![],
            depth: 0,
            closures: vec![],
            subst: subst.clone(),
            uses_w: false,
            tmp: 0,
            closure_no: BTreeMap::new(),
        };
        let mut b = f.block.clone();
        let mut v = binds.clone();
        v.extend(b.stmts);
        b.stmts = v;
        identity_into(&mut b, f, &typed, &subst, traits.contains("VxStr"));
        let b = cx.run(b, selfmut);
        errors.extend(cx.errors.clone());
        inlined = cx.inlined.clone();
        let b = body_types(b, &subst);
        let sections = match c.opts.get("vars") {
            Some(v) => rename_locals(&c.sections, v, &f.block, &mut errors),
            None => c.sections.clone(),
        };
        let mut p = Printer { out: String::new(), indent: 1, sections: &sections, loops: BTreeMap::new(), used: BTreeSet::new(), probe, kinds: BTreeMap::new() };
        if probe {
            p.text("proof { assert(false); }");
        }
        let stream: TokenStream = b.stmts.iter().map(|s| s.to_token_stream()).collect();
        p.stream(stream);
        nloops = p.loops.len();
        for s in c.sections.keys() {
            if s == "from_spec" || s == "pre" {
                continue;
            }
            let alt = format!("{s} 0");
            if s.starts_with("before_call") || s.starts_with("after_call") || s.starts_with("closure") {
                // a hint at a call that is gone: the obligations decide without it
                continue;
            }
            if !p.used.contains(s) && !p.used.contains(&alt) {
                errors.push(format!("anchor lost: {s}"));
            }
        }
        body = p.out;
        // `self.x` after SubstSelf etc. stays as printed
        if cx.uses_w && !c.world() {
            errors.push("touches global state, contract says it does not (nw)".into());
        }
        let want: usize = c.opts.get("loops").and_then(|x| x.parse().ok()).unwrap_or_else(|| c.sections.keys().filter(|k| k.starts_with("loop ")).count());
        if want != nloops && !c.flags.contains("anyloops") {
            errors.push(format!("anchor lost: {nloops} loops, contract describes {want}"));
        }
    }
    let supported = errors.is_empty();
    if !supported {
        stub = true;
    }
    let attrs = if stub {
        "#[verifier::external_body]\n".to_string()
    } else {
        let mut a = "#[verifier::exec_allows_no_decreases_clause]\n#[verifier::loop_isolation(false)]\n".to_string();
        if c.sections.values().any(|t| t.contains("\n--\n") || t.contains("invariant_except_break")) {
            a.push_str("#[verifier::allow_complex_invariants]\n");
        }
        if let Some(r) = c.opts.get("rlimit") {
            a.push_str(&format!("#[verifier::rlimit({r})]\n"));
        }
        if c.flags.contains("spinoff") {
            a.push_str("#[verifier::spinoff_prover]\n");
        }
        a
    };
    let fname = c.opts.get("as").cloned().unwrap_or_else(|| f.sig.ident.to_string());
    let is_eq = c.key.contains("#PartialEq<");
    let is_from = c.key.contains("#From<") || is_eq;
    let vis = if is_from { "" } else { "pub " };
    let no_unwind = "";
    let mut text = format!("{attrs}{vis}fn {fname}{}({}){ret_s}{no_unwind}\n{}{{\n", g.decl, params.join(", "), c.spec);
    if stub {
        text.push_str("    unimplemented!()\n}\n");
    } else {
        text.push_str(&body);
        text.push_str("\n}\n");
    }
    // impl header
    let (mut header, mut footer) = (String::new(), String::new());
    if let Some(st) = &f.self_ty {
        let empty = Generics::default();
        let ig = generics(f.impl_generics.as_ref().unwrap_or(&empty), traits, &skip);
        let mut st = st.clone();
        subst_types(&mut st, &subst);
        let stn = ty_str(&st);
        if is_from {
            let tr = f.trait_path.as_ref().unwrap();
            let mut argt: Type = match &tr.segments.last().unwrap().arguments {
                PathArguments::AngleBracketed(a) => a.args.iter().find_map(|x| if let GenericArgument::Type(t) = x { Some(t.clone()) } else { None }),
                _ => None,
            }
            .expect("a type argument");
            TypeRewrite.visit_type_mut(&mut argt);
            subst_types(&mut argt, &subst);
            let arg = argt.to_token_stream().to_string();
            let spec = c.sections.get("from_spec").map(|s| s.trim().to_string());
            if is_eq {
                header.push_str(&format!(
                    "impl{0} PartialEqSpecImpl<{arg}> for {stn} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, {1}: &{arg}) -> bool {{ {2} }} }}\nimpl{0} PartialEq<{arg}> for {stn} {{\n",
                    ig.decl, cparams[0].0, spec.clone().unwrap_or_default()
                ));
            }
            match spec.filter(|_| !is_eq) {
                Some(s) => header.push_str(&format!(
                    "impl{0} FromSpecImpl<{arg}> for {stn} {{ open spec fn obeys_from_spec() -> bool {{ true }} open spec fn from_spec({1}: {arg}) -> Self {{ {s} }} }}\n",
                    ig.decl, cparams[0].0
                )),
                None if !is_eq => header.push_str(&format!(
                    "impl{0} FromSpecImpl<{arg}> for {stn} {{ open spec fn obeys_from_spec() -> bool {{ false }} open spec fn from_spec({1}: {arg}) -> Self {{ arbitrary() }} }}\n",
                    ig.decl, cparams[0].0
                )),
                None => {}
            }
            if !is_eq {
                header.push_str(&format!("impl{} From<{arg}> for {stn} {{\n", ig.decl));
            }
        } else {
            header.push_str(&format!("impl{} {stn} {{\n", ig.decl));
        }
        footer.push_str("}\n");
    }
    if let Some(t) = c.sections.get("pre") {
        header = format!("{t}\n{header}");
    }
    let info = json!({
        "key": c.key, "module": c.module, "contract": format!("{}:{}", c.file, c.line),
        "mode": if c.flags.contains("trusted") { "trusted" } else if want_stub { "stub" } else if !supported { "unsupported" } else { "verified" },
        "errors": errors, "inlined": inlined, "loops": nloops,
        "requires": c.spec.contains("requires"),
    });
    Emitted { text, header, footer, info }
}

/// `p.into()` where `p: T`, `T: Into<U>` and the contract instantiates T with U is the identity
fn identity_into(b: &mut Block, f: &FnItem, typed: &[&PatType], subst: &BTreeMap<String, String>, texts_known: bool) {
    let mut ids: BTreeSet<String> = BTreeSet::new();
    let nospace = |x: &str| x.replace(' ', "");
    let mut bounds: Vec<(String, String)> = vec![];
    for p in f.sig.generics.params.iter() {
        if let GenericParam::Type(t) = p {
            for b in &t.bounds {
                bounds.push((t.ident.to_string(), ts(b)));
            }
        }
    }
    if let Some(wc) = &f.sig.generics.where_clause {
        for p in &wc.predicates {
            if let WherePredicate::Type(t) = p {
                for b in &t.bounds {
                    bounds.push((ts(&t.bounded_ty), ts(b)));
                }
            }
        }
    }
    let mut texts: BTreeSet<String> = BTreeSet::new();
    for t in typed {
        let tn = ts(&t.ty);
        if texts_known && !subst.contains_key(&tn) && bounds.iter().any(|(a, b)| *a == tn && ["AsRef<str>", "Into<String>"].contains(&nospace(b).as_str())) {
            texts.insert(ts(&t.pat).trim_start_matches("mut ").to_string());
        }
        if let Some(u) = subst.get(&tn) {
            if bounds.iter().any(|(a, b)| *a == tn && nospace(b) == format!("Into<{}>", nospace(u))) {
                ids.insert(ts(&t.pat));
            }
        }
    }
    struct V(BTreeSet<String>, BTreeSet<String>);
    impl VisitMut for V {
        fn visit_expr_mut(&mut self, x: &mut Expr) {
            syn::visit_mut::visit_expr_mut(self, x);
            if let Expr::MethodCall(m) = x {
                if self.1.contains(&ts(&m.receiver)) && (m.method == "as_ref" || m.method == "into") {
                    m.method = Ident::new(if m.method == "into" { "vx_string" } else { "vx_str" }, proc_macro2::Span::call_site());
                }
                if m.method == "into" && self.0.contains(&ts(&m.receiver)) {
                    *x = (*m.receiver).clone();
                }
            }
        }
    }
    V(ids, texts).visit_block_mut(b);
}
fn format_ident2(s: &str) -> Ident {
    Ident::new(s, proc_macro2::Span::call_site())
}

/// type-level rewrites inside bodies (turbofish, let types, casts)
fn body_types(mut b: Block, subst: &BTreeMap<String, String>) -> Block {
    struct S<'a>(&'a BTreeMap<String, String>);
    impl<'a> VisitMut for S<'a> {
        fn visit_type_mut(&mut self, t: &mut Type) {
            TypeRewrite.visit_type_mut(t);
            subst_types(t, self.0);
        }
        fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
            // std::x::Y::z -> Y::z ; crate::m::f -> f is resolved by glob imports
            let segs = &p.path.segments;
            if segs.len() > 2 && ["std", "tokio", "dashmap", "flume", "core"].contains(&segs[0].ident.to_string().as_str()) {
                let n = segs.len();
                let keep: Vec<PathSegment> = segs.iter().skip(n - 2).cloned().collect();
                let first = keep[0].ident.to_string();
                let keep: Vec<PathSegment> = if first.chars().next().unwrap().is_lowercase() { keep[1..].to_vec() } else { keep };
                p.path.segments = keep.into_iter().collect();
                p.path.leading_colon = None;
            }
            syn::visit_mut::visit_expr_path_mut(self, p);
        }
    }
    S(subst).visit_block_mut(&mut b);
    b
}

pub fn emit(repo: &Repo, db: &Db, unit: &Unit, stubs: &BTreeSet<String>, probe: bool) -> (String, Value) {
    let mut out = String::new();
    let mut traits: BTreeSet<String> = BTreeSet::new();
    let mut world_extra: Vec<String> = vec![];
    for (_, t) in &unit.prelude {
        for l in t.lines() {
            if let Some(r) = l.trim().strip_prefix("//@trait ") {
                traits.extend(r.split_whitespace().map(|x| x.to_string()));
            }
            if let Some(r) = l.trim().strip_prefix("//@world ") {
                world_extra.push(r.trim().to_string());
            }
        }
    }
    out.push_str("#![allow(unused)]\n#![allow(non_snake_case, non_camel_case_types, non_upper_case_globals)]\nuse vstd::prelude::*;\nuse vstd::std_specs::cmp::*;\nuse vstd::std_specs::convert::*;\nverus! {\n");
    const USES: &str = "use vstd::prelude::*;\nuse vstd::std_specs::cmp::*;\nuse vstd::std_specs::convert::*;\nuse crate::vx::*;\nuse crate::*;\n";
    out.push_str("pub mod vx {\nuse vstd::prelude::*;\nuse vstd::std_specs::cmp::*;\nuse vstd::std_specs::convert::*;\nuse crate::*;\n");
    for (n, t) in &unit.prelude {
        out.push_str(&format!("// ---- prelude {n}\n{t}\n"));
    }
    out.push_str("}\nbroadcast use crate::vx::vx_axioms;\n");
    // world
    let mut world = format!("pub mod vxw {{\n{USES}pub struct World {{\n");
    let mut seen = BTreeSet::new();
    for s in &repo.statics {
        if unit.modules.contains(&s.module) && !unit.hide.contains(&s.name) && !unit.hide.contains(&s.field) && seen.insert(s.field.clone()) {
            world.push_str(&format!("    pub {}: {},\n", s.field, ty_str(&s.ty)));
        }
    }
    for e in &world_extra {
        world.push_str(&format!("    pub {e},\n"));
    }
    world.push_str("}\n}\npub use vxw::*;\n");
    out.push_str(&world);
    let custom: BTreeSet<String> = repo.fns.values().filter(|f| f.trait_path.is_some()).map(|f| format!("{}#{}", ts(f.self_ty.as_ref().unwrap()), trait_str(f.trait_path.as_ref().unwrap()))).collect();
    let mut infos: Vec<Value> = vec![];
    let mut missing: Vec<String> = vec![];
    for m in &unit.modules {
        out.push_str(&format!("pub mod {m} {{\n{USES}broadcast use crate::vx::vx_axioms;\n"));
        if let Some(ts_) = repo.types.get(m) {
            for it in ts_ {
                let n = match it {
                    Item::Struct(s) => s.ident.to_string(),
                    Item::Enum(s) => s.ident.to_string(),
                    Item::Type(s) => s.ident.to_string(),
                    _ => continue,
                };
                if unit.skip_types.contains(&n) || unit.skip_types.contains(&format!("{m}::{n}")) || unit.skip_types.contains(&format!("{m}::*")) {
                    continue;
                }
                out.push_str(&emit_type(it, &traits, &custom));
            }
        }
        if let Some(cs) = repo.consts.get(m) {
            for it in cs {
                if let Item::Const(c) = it {
                    if unit.hide.contains(&c.ident.to_string()) {
                        continue;
                    }
                    let t = ty_str(&c.ty);
                    let simple = ["u8", "u16", "u32", "u64", "usize", "bool", "i32", "i64"].contains(&t.as_str());
                    if simple {
                        let mut v = { let e = &c.expr; let s = quote::quote!(#e).to_string(); if s.contains("size_of") { ts(&c.expr) } else { s } };
                        for (n, b) in [("u8", 1), ("u16", 2), ("u32", 4), ("u64", 8)] {
                            v = v.replace(&format!("std::mem::size_of::<{n}>()"), &b.to_string()).replace(&format!("size_of::<{n}>()"), &b.to_string());
                        }
                        out.push_str(&format!("pub const {}: {t} = {v};\n", c.ident));
                    }
                }
            }
        }
        for k in &db.order {
            let c = &db.contracts[k];
            if &c.module != m {
                continue;
            }
            if unit.hide.contains(c.name()) || unit.hide.contains(&c.key) || !unit.allows(&c.key) {
                continue;
            }
            let verify = unit.verify.contains(k);
            let Some(f) = repo.fns.get(k) else {
                missing.push(k.clone());
                continue;
            };
            let want_stub = !verify || stubs.contains(k) || c.flags.contains("trusted");
            let e = emit_fn(repo, db, unit, c, f, &traits, want_stub, probe);
            out.push_str(&e.header);
            let begin = out.matches('\n').count() + 1;
            out.push_str(&format!("// @@ {k}\n"));
            out.push_str(&e.text);
            let end = out.matches('\n').count();
            out.push_str(&e.footer);
            let mut info = e.info;
            info["begin"] = json!(begin);
            info["end"] = json!(end);
            info["verify"] = json!(verify);
            infos.push(info);
        }
        out.push_str("}\n");
        out.push_str(&format!("pub use {m}::*;\n"));
    }
    out.push_str("}\nfn main() {}\n");
    let verified_missing: Vec<&String> = missing.iter().filter(|k| unit.verify.contains(k)).collect();
    let meta = json!({"unit": unit.name, "functions": infos, "missing": verified_missing, "probe": probe});
    let _ = quote!();
    (out, meta)
}
