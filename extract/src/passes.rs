//! Syntactic rewrites applied to a function body. Each one is listed in DESIGN.md ("What the extraction changes").
use crate::db::*;
use crate::repo::*;
use proc_macro2::Span;
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Cx<'a> {
    pub repo: &'a Repo,
    pub db: &'a Db,
    pub unit: &'a Unit,
    pub contract: &'a Contract,
    pub module: String,
    pub self_ty: Option<String>,
    pub loops: usize,
    pub errors: Vec<String>,
    pub inlined: Vec<String>,
    pub depth: usize,
    pub closures: Vec<BTreeMap<String, ExprClosure>>,
    pub subst: BTreeMap<String, String>,
    pub uses_w: bool,
    pub tmp: usize,
    pub closure_no: BTreeMap<String, usize>,
}

fn e(s: &str) -> Expr {
    parse_str(s).unwrap_or_else(|x| panic!("bad generated expr {s}: {x}"))
}
fn st(s: &str) -> Vec<Stmt> {
    let b: Block = parse_str(&format!("{{ {s} }}")).unwrap_or_else(|x| panic!("bad generated stmts {s}: {x}"));
    b.stmts
}
pub fn path_ident(x: &Expr) -> Option<String> {
    if let Expr::Path(p) = x {
        if p.qself.is_none() {
            if let Some(i) = p.path.get_ident() {
                return Some(i.to_string());
            }
        }
    }
    None
}
/// a path without its generic arguments
pub fn path_names(p: &Path) -> String {
    p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::")
}
fn strip_paren(x: Expr) -> Expr {
    match x {
        Expr::Paren(p) => strip_paren(*p.expr),
        Expr::Group(p) => strip_paren(*p.expr),
        x => x,
    }
}
fn block_expr(b: Block) -> Expr {
    Expr::Block(ExprBlock { attrs: vec![], label: None, block: b })
}
/// the two ends of a range expression over `b`
fn range_ends(b: &Expr, r: &Expr) -> (Expr, Expr) {
    let Expr::Range(r) = r else { unreachable!() };
    let lo = r.start.as_ref().map(|x| (**x).clone()).unwrap_or(e("0"));
    let hi = match (&r.end, &r.limits) {
        (Some(x), RangeLimits::HalfOpen(_)) => (**x).clone(),
        (Some(x), _) => parse_quote!(#x + 1),
        (None, _) => parse_quote!(#b.len()),
    };
    (lo, hi)
}
fn expr_block(x: Expr) -> Block {
    match x {
        Expr::Block(b) if b.label.is_none() => b.block,
        x => Block { brace_token: Default::default(), stmts: vec![Stmt::Expr(x, None)] },
    }
}

// ---------------------------------------------------------------- strip: cfg, tracing, attributes, async
struct Strip<'c> {
    flags: &'c std::collections::BTreeSet<String>,
    futures: &'c std::collections::BTreeSet<String>,
    errors: Vec<String>,
    /// variables bound by a pattern to something that is not a closure: calling one is the call of a function value
    values: BTreeSet<String>,
}
#[derive(Default)]
struct BoundValues {
    names: BTreeSet<String>,
    closures: BTreeSet<String>,
}
impl<'a> Visit<'a> for BoundValues {
    fn visit_local(&mut self, l: &'a Local) {
        if let (Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
            if matches!(&*init.expr, Expr::Closure(_)) {
                self.closures.insert(i.ident.to_string());
            }
        }
        syn::visit::visit_local(self, l);
    }
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        self.names.insert(p.ident.to_string());
    }
    fn visit_expr_closure(&mut self, c: &'a ExprClosure) {
        self.visit_expr(&c.body);
    }
}
fn bound_values(b: &Block) -> BTreeSet<String> {
    let mut v = BoundValues::default();
    v.visit_block(b);
    v.names.difference(&v.closures).cloned().collect()
}
fn is_log_macro(m: &Macro) -> bool {
    let p = ts(&m.path);
    p.starts_with("tracing::") || p == "println" || p == "eprintln" || p == "print" || p == "eprint" || p == "dbg" || p == "debug_assert" || p == "debug_assert_eq" || p == "debug_assert_ne"
}
fn stmt_attrs(s: &Stmt) -> Vec<Attribute> {
    match s {
        Stmt::Local(l) => l.attrs.clone(),
        Stmt::Macro(m) => m.attrs.clone(),
        Stmt::Expr(x, _) => expr_attrs(x),
        Stmt::Item(_) => vec![],
    }
}
fn expr_attrs(x: &Expr) -> Vec<Attribute> {
    match x {
        Expr::Block(b) => b.attrs.clone(),
        Expr::If(b) => b.attrs.clone(),
        Expr::Match(b) => b.attrs.clone(),
        Expr::Call(b) => b.attrs.clone(),
        Expr::MethodCall(b) => b.attrs.clone(),
        Expr::Macro(b) => b.attrs.clone(),
        Expr::Assign(b) => b.attrs.clone(),
        Expr::Let(b) => b.attrs.clone(),
        Expr::ForLoop(b) => b.attrs.clone(),
        Expr::Path(b) => b.attrs.clone(),
        _ => vec![],
    }
}
impl<'c> VisitMut for Strip<'c> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain(|s| {
            if !cfg_ok(&stmt_attrs(s)) {
                return false;
            }
            match s {
                Stmt::Macro(m) => !is_log_macro(&m.mac),
                Stmt::Expr(Expr::Macro(m), Some(_)) => !is_log_macro(&m.mac),
                Stmt::Item(Item::Static(_)) => false,
                // names of other crates are global in the output; a renaming import is kept (and refused by the verifier)
                Stmt::Item(Item::Use(u)) => {
                    let own = match &u.tree {
                        UseTree::Path(p) => {
                            let n = p.ident.to_string();
                            n.starts_with(char::is_uppercase) || ["crate", "self", "super"].contains(&n.as_str())
                        }
                        _ => true,
                    };
                    own || u.to_token_stream().to_string().contains(" as ")
                }
                _ => true,
            }
        });
        // statement macros become expressions
        for s in b.stmts.iter_mut() {
            if let Stmt::Macro(m) = s {
                let semi = m.semi_token;
                *s = Stmt::Expr(Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() }), semi);
            }
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
    fn visit_expr_struct_mut(&mut self, x: &mut ExprStruct) {
        x.fields = x.fields.iter().filter(|f| cfg_ok(&f.attrs)).cloned().collect();
        visit_mut::visit_expr_struct_mut(self, x);
    }
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        visit_mut::visit_arm_mut(self, a);
    }
    fn visit_expr_match_mut(&mut self, m: &mut ExprMatch) {
        m.arms.retain(|a| cfg_ok(&a.attrs));
        split_or_guards(m);
        visit_mut::visit_expr_match_mut(self, m);
    }
    fn visit_expr_mut(&mut self, x: &mut Expr) {
        // the body of a spawned task is not part of the function that spawns it
        if let Expr::Call(c) = x {
            let f = ts(&c.func);
            if f == "tokio::spawn" || f == "tokio::task::spawn" || f.starts_with("Process::spawn") {
                for a in c.args.iter_mut() {
                    opaque_future(a, self.futures);
                }
            }
        }
        visit_mut::visit_expr_mut(self, x);
        let new = match x {
            Expr::Await(a) if self.flags.contains("awaits") && (path_ident(&a.base).is_some() || matches!(&*a.base, Expr::Field(f) if path_ident(&f.base).is_some())) => {
                let b = &a.base;
                Some(parse_quote!(vx_await(#b)))
            }
            Expr::Await(a) => Some((*a.base).clone()),
            Expr::Try(t) if self.flags.contains("tryid") => {
                let e = &t.expr;
                Some(parse_quote!(match #e { Ok(__v) => __v, Err(__e) => return Err(__e) }))
            }
            // the ? operator in a function that returns a Poll
            Expr::Try(t) if self.flags.contains("trypoll") => {
                let e = &t.expr;
                Some(parse_quote!(match #e { Ok(__v) => __v, Err(__e) => return Poll::Ready(Err(__e)) }))
            }
            // pin projection: the field itself
            Expr::Field(f) if self.flags.contains("trypoll") && matches!(&*f.base, Expr::MethodCall(m) if m.method == "project" && m.args.is_empty()) => {
                let Expr::MethodCall(m) = &*f.base else { unreachable!() };
                let (r, n) = (&m.receiver, &f.member);
                Some(parse_quote!((&mut #r.#n)))
            }
            // catch_unwind(AssertUnwindSafe(|| E)): the prelude's poll gives back the panic of the polled future, which ends the closure
            Expr::Call(c) if self.flags.contains("trypoll") && ts(&c.func) == "catch_unwind" && c.args.len() == 1 => match &c.args[0] {
                Expr::Closure(f) if f.inputs.is_empty() => {
                    let b = &f.body;
                    Some(parse_quote!(vx_caught(#b)))
                }
                Expr::Call(w) if ts(&w.func).ends_with("AssertUnwindSafe") && w.args.len() == 1 => match &w.args[0] {
                    Expr::Closure(f) if f.inputs.is_empty() => {
                        let b = &f.body;
                        Some(parse_quote!(vx_caught(#b)))
                    }
                    _ => None,
                },
                _ => None,
            },
            // the future is driven to its end unless the time is over before
            Expr::Call(c) if self.flags.contains("timeouts") && ts(&c.func) == "Process::timeout" && c.args.len() == 2 => {
                let (d, f) = (&c.args[0], &c.args[1]);
                Some(parse_quote!({ let __d = #d; if vx_timed_out(__d) { Err(Timeout) } else { Ok(#f) } }))
            }
            // the ? operator's error conversion, made explicit
            Expr::Try(t) if self.flags.contains("tryfrom") => {
                let e = &t.expr;
                Some(parse_quote!(match #e { Ok(__v) => __v, Err(__e) => return Err(__e.into()) }))
            }
            Expr::Async(a) => {
                let mut f = HasReturn(false);
                f.visit_block(&a.block);
                if f.0 {
                    // kept: the caller of this pass unwraps a tail `async` block (its returns become function returns)
                    None
                } else {
                    Some(block_expr(a.block.clone()))
                }
            }
            Expr::Paren(p) => match &*p.expr {
                Expr::Path(_) | Expr::Field(_) | Expr::MethodCall(_) | Expr::Call(_) => Some((*p.expr).clone()),
                _ => None,
            },
            Expr::Group(p) => Some((*p.expr).clone()),
            Expr::Macro(m) => self.mac(&m.mac),
            Expr::Call(c) => {
                let f = ts(&c.func);
                if f == "Box::new" && self.flags.contains("anybox") {
                    let a = &c.args[0];
                    Some(parse_quote!(vx_any_box(#a)))
                } else if f == "std::mem::replace" && matches!(&c.args[0], Expr::Reference(r) if matches!(&*r.expr, Expr::Index(_))) {
                    let Expr::Reference(r) = &c.args[0] else { unreachable!() };
                    let Expr::Index(ix) = &*r.expr else { unreachable!() };
                    let (v, i, a) = (&ix.expr, &ix.index, &c.args[1]);
                    Some(parse_quote!(#v.vx_replace(#i, #a)))
                } else if f == "std::panic::set_hook" {
                    let a = c.args.iter();
                    Some(parse_quote!(vx_set_hook(#(#a),*)))
                } else if f == "std::mem::take" || f == "mem::take" {
                    let a = &c.args[0];
                    Some(parse_quote!(vx_mem_take(#a)))
                } else if ["Pin::from", "Box::pin", "AssertUnwindSafe", "RefCell::new", "Mutex::new", "Arc::new"].contains(&f.as_str()) {
                    Some(c.args[0].clone())
                } else if matches!(&*c.func, Expr::Call(_) | Expr::MethodCall(_)) || !self.flags.contains("hofn") && !self.flags.contains("hof") && path_ident(&c.func).is_some_and(|n| self.values.contains(&n)) {
                    // call of a computed function value
                    let func = &c.func;
                    let args = c.args.iter();
                    Some(parse_quote!(vx_dyn_call(#func, (#(#args,)*))))
                } else {
                    None
                }
            }
            _ => None,
        };
        if let Some(n) = new {
            *x = n;
        }
    }
}
fn opaque_future(a: &mut Expr, futures: &BTreeSet<String>) {
    match a {
        Expr::Call(c) => {
            if let Expr::Path(p) = &mut *c.func {
                let s = p.path.segments.last_mut().unwrap();
                if futures.contains(&s.ident.to_string()) {
                    let f = format_ident!("vx_fut_{}", s.ident);
                    p.path = parse_quote!(#f);
                }
            }
        }
        Expr::Async(_) => *a = e("vx_future()"),
        Expr::MethodCall(m) if m.method == "scope" && m.args.len() == 2 => {
            let p = m.args[0].clone();
            *a = parse_quote!(vx_scope(#p));
        }
        _ => {}
    }
}
impl<'c> Strip<'c> {
    fn mac(&mut self, m: &Macro) -> Option<Expr> {
        let name = m.path.segments.last().unwrap().ident.to_string();
        match name.as_str() {
            "panic" | "todo" | "unimplemented" | "unreachable" => {
                let ok = if name == "unreachable" { self.flags.contains("unreachable_ok") || self.flags.contains("panics") } else { self.flags.contains("panics") };
                Some(if self.flags.contains("panicsat") { e("vx_panic_at()") } else if ok { e("vx_panic()") } else { e("vx_no_panic()") })
            }
            "assert" | "assert_eq" | "assert_ne" => {
                let args: punctuated::Punctuated<Expr, Token![,]> = m.parse_body_with(punctuated::Punctuated::parse_terminated).ok()?;
                let p = if self.flags.contains("panics") { e("vx_panic()") } else { e("vx_no_panic()") };
                let (a, b) = (args.first()?.clone(), args.iter().nth(1).cloned());
                Some(match name.as_str() {
                    "assert" => parse_quote!(if !(#a) { #p }),
                    "assert_eq" => parse_quote!(if !(#a == #b) { #p }),
                    _ => parse_quote!(if #a == #b { #p }),
                })
            }
            "format" => Some(e("vx_format()")),
            "vec" => {
                if let Ok(args) = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
                    if args.is_empty() {
                        return Some(e("Vec::new()"));
                    }
                    let args: Vec<_> = args
                        .into_iter()
                        .map(|mut a| {
                            self.visit_expr_mut(&mut a);
                            a
                        })
                        .collect();
                    return Some(parse_quote!({ let mut __v = Vec::new(); #(__v.push(#args);)* __v }));
                }
                let r: Result<(Expr, Expr)> = m.parse_body_with(|i: parse::ParseStream| {
                    let a: Expr = i.parse()?;
                    i.parse::<Token![;]>()?;
                    let b: Expr = i.parse()?;
                    Ok((a, b))
                });
                r.ok().map(|(a, b)| parse_quote!(vx_vec_repeat(#a, #b)))
            }
            "matches" => {
                let r: Result<(Expr, Pat, Option<Expr>)> = m.parse_body_with(|i: parse::ParseStream| {
                    let a: Expr = i.parse()?;
                    i.parse::<Token![,]>()?;
                    let p = Pat::parse_multi_with_leading_vert(i)?;
                    let g = if i.peek(Token![if]) {
                        i.parse::<Token![if]>()?;
                        Some(i.parse::<Expr>()?)
                    } else {
                        None
                    };
                    let _ = i.parse::<Option<Token![,]>>()?;
                    Ok((a, p, g))
                });
                match r {
                    Ok((mut a, p, g)) => {
                        self.visit_expr_mut(&mut a);
                        Some(match g {
                            Some(mut g) => {
                                self.visit_expr_mut(&mut g);
                                let mut m: ExprMatch = parse_quote!(match #a { #p if #g => true, _ => false });
                                split_or_guards(&mut m);
                                Expr::Match(m)
                            }
                            None => parse_quote!(match #a { #p => true, _ => false }),
                        })
                    }
                    Err(x) => {
                        self.errors.push(format!("matches!: {x}"));
                        None
                    }
                }
            }
            // any branch whose future is ready may win; the others are dropped and have done nothing
            "select" if self.flags.contains("selects") => {
                let r: Result<Vec<(Pat, Expr, Expr)>> = m.parse_body_with(|i: parse::ParseStream| {
                    let mut v = vec![];
                    if i.peek(Ident) && i.peek2(Token![;]) {
                        i.parse::<Ident>()?;
                        i.parse::<Token![;]>()?;
                    }
                    while !i.is_empty() {
                        let p = Pat::parse_multi_with_leading_vert(i)?;
                        i.parse::<Token![=]>()?;
                        let f: Expr = i.parse()?;
                        i.parse::<Token![=>]>()?;
                        let b: Expr = i.parse()?;
                        let _ = i.parse::<Option<Token![,]>>()?;
                        v.push((p, f, b));
                    }
                    Ok(v)
                });
                match r {
                    Ok(v) if v.iter().all(|(p, _, _)| matches!(p, Pat::Ident(_) | Pat::Wild(_))) && !v.is_empty() => {
                        let mut out: Option<Expr> = None;
                        for (p, mut f, mut b) in v.into_iter().rev() {
                            self.visit_expr_mut(&mut f);
                            self.visit_expr_mut(&mut b);
                            let one: Expr = parse_quote!({ let #p = #f; #b });
                            out = Some(match out {
                                None => one,
                                Some(o) => parse_quote!(if vx_pick() #one else { #o }),
                            });
                        }
                        out
                    }
                    Ok(_) => {
                        self.errors.push("select! with a refutable pattern".into());
                        None
                    }
                    Err(x) => {
                        self.errors.push(format!("select!: {x}"));
                        None
                    }
                }
            }
            _ => {
                self.errors.push(format!("macro {name}!"));
                None
            }
        }
    }
}

pub struct HasReturn(pub bool);
impl<'ast> Visit<'ast> for HasReturn {
    fn visit_expr_return(&mut self, _: &'ast ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'ast ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
    fn visit_expr_async(&mut self, _: &'ast ExprAsync) {}
}
fn has_return(s: &[Stmt]) -> bool {
    let mut h = HasReturn(false);
    for x in s {
        h.visit_stmt(x);
    }
    h.0
}
fn has_return_e(x: &Expr) -> bool {
    let mut h = HasReturn(false);
    h.visit_expr(x);
    h.0
}

/// Rewrites a block so that it evaluates to its return value instead of returning.
pub fn elim_returns(stmts: Vec<Stmt>) -> std::result::Result<Vec<Stmt>, String> {
    if !has_return(&stmts) {
        return Ok(stmts);
    }
    let mut out = vec![];
    let mut it = stmts.into_iter();
    while let Some(s) = it.next() {
        if !has_return(std::slice::from_ref(&s)) {
            out.push(s);
            continue;
        }
        let rest: Vec<Stmt> = it.collect();
        let with_rest = |b: Vec<Stmt>| -> std::result::Result<Block, String> {
            // statements of b run for effect, then rest
            let mut v = b;
            if let Some(Stmt::Expr(x, semi)) = v.last_mut() {
                if semi.is_none() && !rest.is_empty() && !matches!(x, Expr::Return(_)) {
                    *semi = Some(Default::default());
                }
            }
            v.extend(rest.iter().cloned());
            Ok(Block { brace_token: Default::default(), stmts: elim_returns(v)? })
        };
        match s {
            Stmt::Expr(Expr::Return(r), _) => {
                match r.expr {
                    Some(x) => {
                        if has_return_e(&x) {
                            return Err("nested return".into());
                        }
                        out.push(Stmt::Expr(*x, None))
                    }
                    None => out.push(Stmt::Expr(e("()"), None)),
                }
                return Ok(out);
            }
            Stmt::Expr(Expr::If(mut i), _) => {
                if has_return_e(&i.cond) {
                    return Err("return in condition".into());
                }
                i.then_branch = with_rest(i.then_branch.stmts)?;
                let els = match i.else_branch {
                    Some((_, x)) => with_rest(expr_block(*x).stmts)?,
                    None => with_rest(vec![])?,
                };
                i.else_branch = Some((Default::default(), Box::new(block_expr(els))));
                out.push(Stmt::Expr(Expr::If(i), None));
                return Ok(out);
            }
            Stmt::Expr(Expr::Match(mut m), _) => {
                if has_return_e(&m.expr) {
                    return Err("return in scrutinee".into());
                }
                for a in m.arms.iter_mut() {
                    let b = with_rest(expr_block((*a.body).clone()).stmts)?;
                    *a.body = block_expr(b);
                    a.comma = None;
                }
                out.push(Stmt::Expr(Expr::Match(m), None));
                return Ok(out);
            }
            Stmt::Expr(Expr::Block(b), _) if b.label.is_none() => {
                let b = with_rest(b.block.stmts)?;
                out.push(Stmt::Expr(block_expr(b), None));
                return Ok(out);
            }
            Stmt::Local(l) => {
                let init = l.init.clone().unwrap();
                if let Some((_, els)) = init.diverge {
                    if has_return_e(&init.expr) {
                        return Err("return in let-else initialiser".into());
                    }
                    let d = Block { brace_token: Default::default(), stmts: elim_returns(expr_block(*els).stmts)? };
                    let r = with_rest(vec![])?;
                    let pat = &l.pat;
                    let ex = &init.expr;
                    out.push(Stmt::Expr(parse_quote!(if let #pat = #ex #r else #d), None));
                    return Ok(out);
                }
                match *init.expr {
                    Expr::Match(mut m) if !has_return_e(&m.expr) => {
                        for a in m.arms.iter_mut() {
                            let body = &a.body;
                            let b = if matches!(&**body, Expr::Return(_)) {
                                with_rest(vec![Stmt::Expr((**body).clone(), None)])?
                            } else {
                                let mut bl = expr_block((**body).clone());
                                let has_tail = matches!(bl.stmts.last(), Some(Stmt::Expr(x, None)) if !matches!(x, Expr::Return(_)));
                                if has_tail {
                                    if let Some(Stmt::Expr(x, None)) = bl.stmts.pop() {
                                        let pat = &l.pat;
                                        bl.stmts.push(parse_quote!(let #pat = #x;));
                                    }
                                }
                                with_rest(bl.stmts)?
                            };
                            *a.body = block_expr(b);
                            a.comma = None;
                        }
                        out.push(Stmt::Expr(Expr::Match(m), None));
                        return Ok(out);
                    }
                    Expr::Try(_) => return Err("? in an inlined body".into()),
                    _ => return Err("return in let initialiser".into()),
                }
            }
            _ => return Err("return inside an unsupported construct".into()),
        }
    }
    Ok(out)
}

/// Names bound anywhere in a block.
struct Binders<'a>(&'a mut BTreeMap<String, String>, usize);
impl<'a, 'ast> Visit<'ast> for Binders<'a> {
    fn visit_pat_ident(&mut self, p: &'ast PatIdent) {
        let n = p.ident.to_string();
        if n.chars().next().map(|c| c.is_lowercase() || c == '_').unwrap_or(false) && n != "self" {
            let k = self.1;
            self.0.insert(n.clone(), format!("{n}__i{k}"));
        }
        visit::visit_pat_ident(self, p);
    }
    fn visit_field_pat(&mut self, p: &'ast FieldPat) {
        visit::visit_field_pat(self, p);
    }
}
struct Rename<'a>(&'a BTreeMap<String, String>);
impl<'a> VisitMut for Rename<'a> {
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        if let Some(n) = self.0.get(&p.ident.to_string()) {
            p.ident = format_ident!("{}", n);
        }
        visit_mut::visit_pat_ident_mut(self, p);
    }
    fn visit_field_pat_mut(&mut self, p: &mut FieldPat) {
        if p.colon_token.is_none() {
            p.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_pat_mut(self, p);
    }
    fn visit_field_value_mut(&mut self, p: &mut FieldValue) {
        if p.colon_token.is_none() {
            p.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_value_mut(self, p);
    }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.qself.is_none() {
            if let Some(i) = p.path.get_ident() {
                if let Some(n) = self.0.get(&i.to_string()) {
                    p.path = format_ident!("{}", n).into();
                }
            }
        }
    }
}

/// Substitutes a single-segment path by another expression.
pub struct SubstIdent<'a>(pub &'a str, pub &'a Expr);
impl<'a> VisitMut for SubstIdent<'a> {
    fn visit_expr_mut(&mut self, x: &mut Expr) {
        if path_ident(x).as_deref() == Some(self.0) {
            *x = self.1.clone();
            return;
        }
        visit_mut::visit_expr_mut(self, x);
    }
}
struct SubstSelf;
impl VisitMut for SubstSelf {
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        if i == "self" {
            *i = Ident::new("__self", i.span());
        }
    }
}

const ITER_SRC: &[&str] = &["iter", "into_iter", "values", "keys", "drain", "range", "vx_iter", "vx_into_iter", "iter_mut", "into_values", "into_keys", "vx_range"];
const ITER_STAGE: &[&str] = &["rev", "enumerate", "copied", "cloned", "skip", "take"];

fn is_iterish(x: &Expr) -> bool {
    match x {
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            if ITER_SRC.contains(&n.as_str()) {
                return true;
            }
            if ITER_STAGE.contains(&n.as_str()) || ["map", "filter", "filter_map"].contains(&n.as_str()) {
                return is_iterish(&m.receiver);
            }
            false
        }
        Expr::Range(_) => true,
        Expr::Paren(p) => is_iterish(&p.expr),
        Expr::Call(c) => ts(&c.func) == "vx_range",
        _ => false,
    }
}

/// An entry of a static map that is kept across other operations: the entry becomes a plain token (key and old
/// value) and its `insert`/`remove` go to the map itself, so that the map is not borrowed in between.
#[derive(Default)]
struct HeldEntry {
    statics: BTreeSet<String>,
    bound: BTreeSet<String>,
}
fn static_path(x: &Expr) -> Option<String> {
    if let Expr::Path(p) = x {
        let n = p.path.segments.last()?.ident.to_string();
        if n.len() > 1 && n.chars().all(|c| c.is_uppercase() || c == '_' || c.is_ascii_digit()) {
            return Some(n);
        }
    }
    None
}
fn entry_pat(p: &Path) -> Option<Ident> {
    let n = p.segments.len();
    let l = p.segments.last()?.ident.clone();
    if n >= 2 && p.segments[n - 2].ident == "Entry" && (l == "Vacant" || l == "Occupied") {
        Some(l)
    } else {
        None
    }
}
impl<'ast> Visit<'ast> for HeldEntry {
    fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) {
        if m.method == "entry" && m.args.len() == 1 {
            if let Some(s) = static_path(&m.receiver) {
                self.statics.insert(s);
            }
        }
        if let Expr::MethodCall(r) = &*m.receiver {
            if r.method == "entry" && static_path(&r.receiver).is_some() {
                for a in r.args.iter().chain(m.args.iter()) {
                    self.visit_expr(a);
                }
                return;
            }
        }
        visit::visit_expr_method_call(self, m);
    }
    fn visit_pat_tuple_struct(&mut self, p: &'ast PatTupleStruct) {
        if entry_pat(&p.path).is_some() {
            if let Some(Pat::Ident(i)) = p.elems.first() {
                self.bound.insert(i.ident.to_string());
            }
        }
        visit::visit_pat_tuple_struct(self, p);
    }
}
struct HeldRewrite {
    stat: Ident,
    bound: BTreeSet<String>,
}
impl VisitMut for HeldRewrite {
    fn visit_pat_tuple_struct_mut(&mut self, p: &mut PatTupleStruct) {
        if let Some(l) = entry_pat(&p.path) {
            p.path = parse_quote!(VxEntry::#l);
        }
        visit_mut::visit_pat_tuple_struct_mut(self, p);
    }
    fn visit_expr_mut(&mut self, x: &mut Expr) {
        visit_mut::visit_expr_mut(self, x);
        if let Expr::MethodCall(m) = x {
            let st = self.stat.clone();
            if m.method == "entry" && static_path(&m.receiver).map(|s| st == s).unwrap_or(false) {
                m.method = format_ident!("vx_entry");
                return;
            }
            let chained = match &*m.receiver {
                Expr::MethodCall(r) => r.method == "vx_entry",
                _ => false,
            };
            if chained {
                if let Expr::MethodCall(r) = &mut *m.receiver {
                    r.method = format_ident!("entry");
                }
                return;
            }
            if let Some(id) = path_ident(&m.receiver) {
                if self.bound.contains(&id) && (m.method == "insert" || m.method == "remove") {
                    let f = format_ident!("vx_entry_{}", m.method);
                    let (r, a) = (&m.receiver, m.args.iter());
                    *x = parse_quote!(#st.#f(#r, #(#a),*));
                }
            }
        }
    }
}
fn held_entries(b: &mut Block) {
    let mut h = HeldEntry::default();
    h.visit_block(b);
    if h.statics.len() == 1 {
        let stat = format_ident!("{}", h.statics.iter().next().unwrap());
        HeldRewrite { stat, bound: h.bound }.visit_block_mut(b);
    }
}

/// `let x = <call>;` whose every use is `x.await` or the future of a `timeout(_, x)`: a future does nothing before it
/// is awaited, so the call is put at its uses
struct LazyUses<'n>(&'n str, usize, usize);
impl<'ast, 'n> Visit<'ast> for LazyUses<'n> {
    fn visit_expr(&mut self, x: &'ast Expr) {
        match x {
            Expr::Await(a) if path_ident(&a.base).as_deref() == Some(self.0) => self.2 += 1,
            Expr::Call(c) if ts(&c.func).ends_with("timeout") && c.args.len() == 2 && path_ident(&c.args[1]).as_deref() == Some(self.0) => self.2 += 1,
            _ => {}
        }
        if path_ident(x).as_deref() == Some(self.0) {
            self.1 += 1;
        }
        visit::visit_expr(self, x);
    }
}
struct LazyLets;
impl VisitMut for LazyLets {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut i = 0;
        while i < b.stmts.len() {
            let mut hit: Option<(String, Expr)> = None;
            if let Stmt::Local(l) = &b.stmts[i] {
                if let (Pat::Ident(pi), Some(init)) = (&l.pat, &l.init) {
                    if init.diverge.is_none() && matches!(&*init.expr, Expr::Call(_) | Expr::MethodCall(_)) {
                        let n = pi.ident.to_string();
                        let mut u = LazyUses(&n, 0, 0);
                        for s in &b.stmts[i + 1..] {
                            u.visit_stmt(s);
                        }
                        if u.1 > 0 && u.1 == u.2 {
                            hit = Some((n.clone(), (*init.expr).clone()));
                        }
                    }
                }
            }
            if let Some((n, x)) = hit {
                b.stmts.remove(i);
                for s in b.stmts[i..].iter_mut() {
                    SubstIdent(&n, &x).visit_stmt_mut(s);
                }
                continue;
            }
            i += 1;
        }
        visit_mut::visit_block_mut(self, b);
    }
}

/// A sink's `send_all` is what it does, spelled out: pull an item, feed it, stop at the first error, flush at the end.
/// The iterator it is given is lazy, so the closures of its stages run as the items are pulled.
/// `accept_hdr_async_with_config(stream, callback, config)`: read the request, ask the callback, answer
struct Handshake;
impl VisitMut for Handshake {
    fn visit_expr_mut(&mut self, x: &mut Expr) {
        visit_mut::visit_expr_mut(self, x);
        if let Expr::Call(c) = x {
            if let (Expr::Path(p), 3) = (&*c.func, c.args.len()) {
                if p.path.segments.last().unwrap().ident == "accept_hdr_async_with_config" {
                    let (s, cb, cfg) = (&c.args[0], &c.args[1], &c.args[2]);
                    let ask: Expr = if matches!(cb, Expr::Closure(_)) { parse_quote!({ let __cb = #cb; __cb(&__rq, __rs) }) } else { parse_quote!(#cb(&__rq, __rs)) };
                    *x = parse_quote!({
                        let __hs = vx_handshake(#s, #cfg);
                        match vx_request(&__hs) {
                            Err(__e) => Err(__e),
                            Ok((__rq, __rs)) => { let __an = #ask; vx_answer(__hs, __an) }
                        }
                    });
                }
            }
        }
    }
}
struct SendAll {
    n: usize,
    errors: Vec<String>,
}
fn lazy_iter(x: &Expr) -> bool {
    match x {
        Expr::MethodCall(m) => ["map", "filter", "filter_map", "take_while"].contains(&m.method.to_string().as_str()) && is_iterish(&m.receiver),
        Expr::Call(c) => ts(&c.func) == "stream::iter",
        _ => false,
    }
}
impl SendAll {
    /// the body that handles item `x` of a pipeline with the remaining stages
    fn stages(&mut self, mut src: Expr) -> (Expr, Vec<(String, Expr)>) {
        let mut v = vec![];
        loop {
            let next = match &src {
                Expr::Call(c) if ts(&c.func) == "stream::iter" && c.args.len() == 1 => c.args[0].clone(),
                Expr::MethodCall(m) if ["map", "filter", "filter_map"].contains(&m.method.to_string().as_str()) && m.args.len() == 1 => {
                    v.push((m.method.to_string(), m.args[0].clone()));
                    (*m.receiver).clone()
                }
                _ => break,
            };
            src = next;
        }
        v.reverse();
        (src, v)
    }
    fn expand(&mut self, sink: &Expr, pipe: Expr) -> Expr {
        self.n += 1;
        let n = self.n;
        let (src, stages) = self.stages(pipe);
        let r = format_ident!("__snd{}", n);
        let last = format_ident!("__snd{}_x{}", n, stages.len());
        let mut tail: Expr = parse_quote!(match #last { Ok(__m) => { #r = #sink.feed(__m); } Err(__e) => { #r = Err(__e); } });
        let mut lets: Vec<Stmt> = vec![];
        for (k, (name, f)) in stages.iter().enumerate().rev() {
            let (xin, xout, fk, bk) = (format_ident!("__snd{}_x{}", n, k), format_ident!("__snd{}_x{}", n, k + 1), format_ident!("__snd{}_f{}", n, k), format_ident!("__snd{}_b{}", n, k));
            let fk: Expr = if matches!(f, Expr::Closure(_)) { lets.push(parse_quote!(let #fk = #f;)); parse_quote!(#fk) } else { f.clone() };
            tail = match name.as_str() {
                "map" => parse_quote!({ let #xout = #fk(#xin); #tail }),
                "filter" => parse_quote!({ let #bk = #fk(&#xin); if #bk { let #xout = #xin; #tail } }),
                _ => parse_quote!({ let #bk = #fk(#xin); if let Some(#xout) = #bk { #tail } }),
            };
        }
        let x0 = format_ident!("__snd{}_x0", n);
        parse_quote!({ let mut #r = Ok(()); #(#lets)* for #x0 in #src { if #r.is_ok() { #tail } } if #r.is_ok() { #r = #sink.flush(); } #r })
    }
}
impl VisitMut for SendAll {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut i = 0;
        while i < b.stmts.len() {
            let mut hit: Option<(String, Expr)> = None;
            if let Stmt::Local(l) = &b.stmts[i] {
                if let (Pat::Ident(pi), Some(init)) = (&l.pat, &l.init) {
                    if init.diverge.is_none() && lazy_iter(&init.expr) {
                        hit = Some((pi.ident.to_string(), (*init.expr).clone()));
                    }
                }
            }
            if let Some((n, x)) = hit {
                b.stmts.remove(i);
                for s in b.stmts[i..].iter_mut() {
                    // a later binding of the same name: its initializer is the last thing that means this one
                    let again = matches!(s, Stmt::Local(l) if matches!(&l.pat, Pat::Ident(p) if p.ident == n));
                    SubstIdent(&n, &x).visit_stmt_mut(s);
                    if again {
                        break;
                    }
                }
                continue;
            }
            i += 1;
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, x: &mut Expr) {
        visit_mut::visit_expr_mut(self, x);
        if let Expr::MethodCall(m) = x {
            if m.method == "send_all" && m.args.len() == 1 {
                let a = match &m.args[0] {
                    Expr::Reference(r) => (*r.expr).clone(),
                    a => a.clone(),
                };
                if lazy_iter(&a) {
                    *x = self.expand(&m.receiver.clone(), a);
                } else {
                    self.errors.push("send_all of something other than an iterator".into());
                }
            }
        }
    }
}

impl<'a> Cx<'a> {
    fn err(&mut self, s: impl Into<String>) {
        self.errors.push(s.into());
    }
    fn fresh(&mut self) -> usize {
        self.tmp += 1;
        self.tmp
    }
    pub fn run(&mut self, mut b: Block, selfmut: bool) -> Block {
        if self.contract.flags.contains("lazy") {
            LazyLets.visit_block_mut(&mut b);
        }
        if self.contract.flags.contains("handshake") {
            Handshake.visit_block_mut(&mut b);
        }
        if self.contract.flags.contains("sendall") {
            let mut v = SendAll { n: 0, errors: vec![] };
            v.visit_block_mut(&mut b);
            self.errors.extend(v.errors);
        }
        self.virtual_futures(&mut b);
        let mut s = Strip { flags: &self.contract.flags, futures: &self.unit.futures, errors: vec![], values: bound_values(&b) };
        s.visit_block_mut(&mut b);
        self.errors.extend(s.errors);
        // tail `async move { .. }` block: its body is the function body
        if b.stmts.len() >= 1 {
            if let Some(Stmt::Expr(Expr::Async(a), None)) = b.stmts.last() {
                let inner = a.block.clone();
                b.stmts.pop();
                b.stmts.extend(inner.stmts);
                let mut s = Strip { flags: &self.contract.flags, futures: &self.unit.futures, errors: vec![], values: bound_values(&b) };
                s.visit_block_mut(&mut b);
            }
        }
        held_entries(&mut b);
        if selfmut {
            SubstSelf.visit_block_mut(&mut b);
            let mut v = st("let mut __self = self;");
            v.extend(b.stmts);
            b.stmts = v;
        }
        self.visit_block_mut(&mut b);
        Loops { cx: self }.visit_block_mut(&mut b);
        WorldPass { cx: self }.visit_block_mut(&mut b);
        self.anchors(&mut b);
        b
    }

    /// an `async` block that has a contract of its own (`KEY@n`): the block is a function of what it captures, the
    /// enclosing function only builds it
    fn virtual_futures(&mut self, b: &mut Block) {
        let pre = format!("{}@", self.contract.key);
        let cs: BTreeMap<usize, &Contract> = self.db.contracts.values().filter_map(|c| c.key.strip_prefix(&pre).and_then(|k| k.parse().ok()).map(|k: usize| (k, c))).collect();
        if cs.is_empty() {
            return;
        }
        struct V<'c>(BTreeMap<usize, &'c Contract>, usize);
        impl<'c> VisitMut for V<'c> {
            fn visit_expr_mut(&mut self, x: &mut Expr) {
                if let Expr::Async(_) = x {
                    let k = self.1;
                    self.1 += 1;
                    if let Some(c) = self.0.get(&k) {
                        // the blocks inside it keep their numbers
                        struct N(usize);
                        impl<'ast> Visit<'ast> for N {
                            fn visit_expr_async(&mut self, a: &'ast ExprAsync) {
                                self.0 += 1;
                                visit::visit_expr_async(self, a);
                            }
                        }
                        let mut n = N(0);
                        n.visit_expr(x);
                        self.1 += n.0 - 1;
                        let f = format_ident!("{}", c.opts.get("future").map(|s| s.as_str()).unwrap_or("vx_future"));
                        let a: Vec<Ident> = c.params.iter().map(|p| format_ident!("{}", p.split(':').next().unwrap().trim())).collect();
                        *x = parse_quote!(#f(#(#a),*));
                        return;
                    }
                }
                visit_mut::visit_expr_mut(self, x);
            }
        }
        V(cs, 0).visit_block_mut(b);
    }
    fn find_closure(&self, n: &str) -> Option<ExprClosure> {
        self.closures.iter().rev().find_map(|m| m.get(n).cloned())
    }

    /// `closure(args)` -> `{ let params = args; body }`
    fn beta(&mut self, c: &ExprClosure, args: Vec<Expr>) -> Option<Expr> {
        if c.inputs.len() != args.len() {
            self.err("closure arity");
            return None;
        }
        let body = expr_block((*c.body).clone());
        let stmts = match elim_returns(body.stmts) {
            Ok(s) => s,
            Err(x) => {
                self.err(format!("closure body: {x}"));
                return None;
            }
        };
        let mut out: Vec<Stmt> = vec![];
        let pats: Vec<Pat> = c.inputs.iter().cloned().collect();
        match pats.len() {
            0 => {}
            1 => {
                let (p, a) = (&pats[0], &args[0]);
                if ts(p) != ts(a) {
                    out.push(parse_quote!(let #p = #a;));
                }
            }
            _ => {
                let ps: Vec<Pat> = pats
                    .iter()
                    .map(|p| match p {
                        Pat::Type(t) => (*t.pat).clone(),
                        p => p.clone(),
                    })
                    .collect();
                out.push(parse_quote!(let (#(#ps),*) = (#(#args),*);));
            }
        }
        out.extend(stmts);
        Some(block_expr(Block { brace_token: Default::default(), stmts: out }))
    }

    /// Applies a function-valued argument (closure, local closure name, or path) to args.
    fn apply(&mut self, f: &Expr, args: Vec<Expr>) -> Option<Expr> {
        match strip_paren(f.clone()) {
            Expr::Closure(c) => self.beta(&c, args),
            Expr::Path(p) => {
                if let Some(i) = p.path.get_ident() {
                    if let Some(c) = self.find_closure(&i.to_string()) {
                        return self.beta(&c, args);
                    }
                }
                if ts(&p) == "Into::into" {
                    let a = &args[0];
                    return Some(parse_quote!(#a.into()));
                }
                Some(parse_quote!(#p(#(#args),*)))
            }
            _ => {
                self.err("unsupported function value");
                None
            }
        }
    }

    pub fn contract_for_path(&self, p: &Path) -> Option<&'a Contract> {
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        let n = segs.last()?.clone();
        if segs.len() >= 2 {
            let mut t = segs[segs.len() - 2].clone();
            if t == "Self" {
                t = self.self_ty.clone()?;
            }
            if t.chars().next().unwrap().is_uppercase() {
                return self.db.contracts.values().find(|c| c.name() == n && c.ty().as_deref() == Some(&t) && self.available(c));
            }
        }
        self.db.contracts.values().find(|c| c.name() == n && c.ty().is_none() && self.available(c))
    }
    fn available(&self, c: &Contract) -> bool {
        self.unit.modules.contains(&c.module) && self.unit.allows(&c.key)
    }
    /// `onself` contracts only count for calls on `self` (their name is too common for a bare method name)
    pub fn contract_for_method(&self, n: &str, recv: &Expr) -> Option<&'a Contract> {
        let on_self = path_ident(recv).map(|i| i == "self").unwrap_or(false);
        let fits = |c: &&Contract| c.name() == n && c.ty().is_some() && self.available(c) && self.is_method(&c.key) && (!c.flags.contains("onself") || (on_self && c.ty() == self.self_ty));
        if on_self {
            if let Some(c) = self.db.contracts.values().filter(fits).find(|c| c.ty() == self.self_ty) {
                return Some(c);
            }
        }
        self.db.contracts.values().find(fits)
    }
    fn is_method(&self, key: &str) -> bool {
        self.repo.fns.get(key).map(|f| f.sig.receiver().is_some()).unwrap_or(false)
    }

    fn inline_fn(&mut self, f: &FnItem, recv: Option<Expr>, args: Vec<Expr>, turbo: &[Type]) -> Option<Expr> {
        if self.depth > 4 {
            self.err(format!("inlining too deep at {}", f.key));
            return None;
        }
        let mut block = f.block.clone();
        // its type parameters: as given at the call, inferred otherwise
        let tparams: Vec<String> = f.sig.generics.params.iter().filter_map(|p| if let GenericParam::Type(t) = p { Some(t.ident.to_string()) } else { None }).collect();
        if !tparams.is_empty() {
            let given = turbo.len() == tparams.len();
            let m: BTreeMap<String, Type> = tparams.into_iter().enumerate().map(|(i, n)| (n, if given { turbo[i].clone() } else { parse_quote!(_) })).collect();
            TypeParams(&m).visit_block_mut(&mut block);
        }
        let mut sig = f.sig.clone();
        // a closure argument is substituted into the body: the callee's own names must not capture the closure's
        let is_fn_arg = |a: &Expr| match a {
            Expr::Closure(_) => true,
            x => path_ident(x).map(|i| self.find_closure(&i).is_some()).unwrap_or(false),
        };
        if args.iter().any(|a| is_fn_arg(&strip_paren(a.clone()))) {
            let mut names = BTreeMap::new();
            let mut b = Binders(&mut names, self.inlined.len());
            for (i, a) in sig.inputs.iter().filter(|i| matches!(i, FnArg::Typed(_))).zip(&args) {
                if let FnArg::Typed(t) = i {
                    if !is_fn_arg(&strip_paren(a.clone())) {
                        b.visit_pat(&t.pat);
                    }
                }
            }
            b.visit_block(&block);
            let mut r = Rename(&names);
            r.visit_block_mut(&mut block);
            for i in sig.inputs.iter_mut() {
                if let FnArg::Typed(t) = i {
                    r.visit_pat_mut(&mut t.pat);
                }
            }
        }
        if self.contract.flags.contains("lazy") {
            LazyLets.visit_block_mut(&mut block);
        }
        let mut s = Strip { flags: &self.contract.flags, futures: &self.unit.futures, errors: vec![], values: bound_values(&block) };
        s.visit_block_mut(&mut block);
        held_entries(&mut block);
        let errs = s.errors;
        self.errors.extend(errs);
        // a parameter of the callee does not shadow a parameter the contract names
        let mut names = BTreeMap::new();
        for (i, a) in sig.inputs.iter().filter_map(|i| if let FnArg::Typed(t) = i { Some(t) } else { None }).zip(&args) {
            if let Pat::Ident(p) = &*i.pat {
                let n = p.ident.to_string();
                if self.contract.params.contains(&n) && ts(&strip_paren(a.clone())) != n {
                    names.insert(n.clone(), format!("{n}__i{}", self.inlined.len()));
                }
            }
        }
        if !names.is_empty() {
            let mut r = Rename(&names);
            r.visit_block_mut(&mut block);
            for i in sig.inputs.iter_mut() {
                if let FnArg::Typed(t) = i {
                    r.visit_pat_mut(&mut t.pat);
                }
            }
        }
        let mut stmts = match elim_returns(block.stmts) {
            Ok(s) => s,
            Err(x) => {
                self.err(format!("inlining {}: {x}", f.key));
                return None;
            }
        };
        let mut pre: Vec<Stmt> = vec![];
        if let Some(r) = recv {
            let is_self = path_ident(&r).map(|x| x == "self" || x == "__self").unwrap_or(false);
            if !is_self || path_ident(&r).as_deref() == Some("__self") {
                let mut b = Block { brace_token: Default::default(), stmts };
                SubstSelf.visit_block_mut(&mut b);
                stmts = b.stmts;
                if !is_self {
                    let rc = f.sig.receiver().unwrap();
                    let bind: Stmt = if rc.reference.is_some() {
                        if rc.mutability.is_some() { parse_quote!(let __self = &mut #r;) } else { parse_quote!(let __self = &#r;) }
                    } else {
                        parse_quote!(let mut __self = #r;)
                    };
                    pre.push(bind);
                }
            }
        }
        let params: Vec<Pat> = sig.inputs.iter().filter_map(|i| if let FnArg::Typed(t) = i { Some((*t.pat).clone()) } else { None }).collect();
        if params.len() != args.len() {
            self.err(format!("arity of {}", f.key));
            return None;
        }
        let mut scope = BTreeMap::new();
        let (mut ps, mut as_) = (vec![], vec![]);
        for (p, a) in params.into_iter().zip(args) {
            let a = strip_paren(a);
            let pn = ts(&p).trim_start_matches("mut").to_string();
            match &a {
                Expr::Closure(c) => {
                    scope.insert(pn, c.clone());
                    continue;
                }
                Expr::Path(pp) => {
                    if let Some(i) = pp.path.get_ident() {
                        if let Some(c) = self.find_closure(&i.to_string()) {
                            scope.insert(pn, c);
                            continue;
                        }
                    }
                }
                _ => {}
            }
            if ts(&p) == ts(&a) {
                continue;
            }
            ps.push(p);
            as_.push(a);
        }
        match ps.len() {
            0 => {}
            1 => {
                let (p, a) = (&ps[0], &as_[0]);
                pre.push(parse_quote!(let #p = #a;));
            }
            _ => pre.push(parse_quote!(let (#(#ps),*) = (#(#as_),*);)),
        }
        pre.extend(stmts);
        let mut b = Block { brace_token: Default::default(), stmts: pre };
        let mut h = HasReturn(false);
        h.visit_block(&b);
        if h.0 {
            self.err(format!("inlining {}: remaining return", f.key));
        }
        self.inlined.push(f.key.clone());
        self.closures.push(scope);
        self.depth += 1;
        self.visit_block_mut(&mut b);
        self.depth -= 1;
        self.closures.pop();
        Some(block_expr(b))
    }

    fn repo_fn(&self, p: &Path) -> Option<&'a FnItem> {
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        let n = segs.last()?.clone();
        let keys = self.repo.by_name.get(&n)?;
        if segs.len() >= 2 {
            let mut t = segs[segs.len() - 2].clone();
            if t == "Self" {
                t = self.self_ty.clone()?;
            }
            if t.chars().next().unwrap().is_uppercase() {
                let suffix = format!("::{t}::{n}");
                return keys.iter().find(|k| k.ends_with(&suffix)).map(|k| &self.repo.fns[k]);
            }
        }
        let local = format!("{}::{n}", self.module);
        if let Some(f) = self.repo.fns.get(&local) {
            return Some(f);
        }
        let free: Vec<_> = keys.iter().filter(|k| k.matches("::").count() == 1).collect();
        if free.len() == 1 {
            return Some(&self.repo.fns[free[0]]);
        }
        None
    }

    /// iterator pipeline ending in a consumer -> loop
    fn pipeline(&mut self, consumer: &str, x: &ExprMethodCall) -> Option<Expr> {
        // collect stages with closures
        let mut stages: Vec<(String, Expr)> = vec![];
        let mut src = (*x.receiver).clone();
        loop {
            if let Expr::MethodCall(m) = &src {
                let n = m.method.to_string();
                if ["map", "filter", "filter_map"].contains(&n.as_str()) && m.args.len() == 1 {
                    stages.push((n, m.args[0].clone()));
                    let r = (*m.receiver).clone();
                    src = r;
                    continue;
                }
            }
            break;
        }
        stages.reverse();
        if stages.is_empty() && consumer == "collect" {
            let src = self.iter_source(src);
            return Some(parse_quote!(#src.vx_collect()));
        }
        self.loops += 1;
        let l = self.loops;
        let it = format_ident!("__VXL{}_it", l);
        let r = format_ident!("__VXL{}_r", l);
        let g = format_ident!("__VXL{}_g", l);
        let m = format_ident!("__VXL{}_m", l);
        let b = format_ident!("__VXL{}_b", l);
        let v0 = format_ident!("__VXL{}_x0", l);
        let mut body_tail: Expr;
        let last = format_ident!("__VXL{}_x{}", l, stages.len());
        match consumer {
            "collect" => body_tail = parse_quote!({ #r.push(#last); }),
            "count" => body_tail = parse_quote!({ #r = #r + 1; }),
            "any" => {
                let c = self.apply(&x.args[0], vec![parse_quote!(#last)])?;
                body_tail = parse_quote!({ let #b = #c; if #b { #r = true; } });
            }
            "all" => {
                let c = self.apply(&x.args[0], vec![parse_quote!(#last)])?;
                body_tail = parse_quote!({ let #b = #c; if !#b { #r = false; } });
            }
            "position" => {
                let c = self.apply(&x.args[0], vec![parse_quote!(#last)])?;
                if !stages.is_empty() {
                    self.err("position after map/filter");
                }
                body_tail = parse_quote!({ let #b = #c; if #b { #r = Some(#it.last_index()); } });
            }
            "find" => {
                let c = self.apply(&x.args[0], vec![parse_quote!(&#last)])?;
                body_tail = parse_quote!({ let #b = #c; if #b { #r = Some(#last); } });
            }
            "find_map" => {
                let c = self.apply(&x.args[0], vec![parse_quote!(#last)])?;
                body_tail = parse_quote!({ let #b = #c; if let Some(__y) = #b { #r = Some(__y); } });
            }
            "for_each" => {
                let c = self.apply(&x.args[0], vec![parse_quote!(#last)])?;
                body_tail = parse_quote!({ let _ = #c; });
            }
            _ => return None,
        }
        for (k, (n, f)) in stages.iter().enumerate().rev() {
            let xin = format_ident!("__VXL{}_x{}", l, k);
            let xout = format_ident!("__VXL{}_x{}", l, k + 1);
            let bk = format_ident!("__VXL{}_b{}", l, k);
            body_tail = match n.as_str() {
                "map" => {
                    let c = self.apply(f, vec![parse_quote!(#xin)])?;
                    parse_quote!({ let #xout = #c; #body_tail })
                }
                "filter" => {
                    let c = self.apply(f, vec![parse_quote!(&#xin)])?;
                    parse_quote!({ let #bk = #c; if #bk { let #xout = #xin; #body_tail } })
                }
                _ => {
                    let c = self.apply(f, vec![parse_quote!(#xin)])?;
                    parse_quote!({ let #bk = #c; if let Some(#xout) = #bk { #body_tail } })
                }
            };
        }
        let src = self.iter_source(src);
        let (init, cond): (Expr, Expr) = match consumer {
            "collect" => (e("Vec::new()"), parse_quote!(#it.has_next())),
            "count" => (e("0usize"), parse_quote!(#it.has_next())),
            "any" => (e("false"), parse_quote!(!#r && #it.has_next())),
            "all" => (e("true"), parse_quote!(#r && #it.has_next())),
            "for_each" => (e("()"), parse_quote!(#it.has_next())),
            _ => (e("None"), parse_quote!(#r.is_none() && #it.has_next())),
        };
        let decl: Stmt = if consumer == "position" { parse_quote!(let mut #r: Option<usize> = None;) } else { parse_quote!(let mut #r = #init;) };
        Some(parse_quote!({
            let mut #it = #src;
            #g;
            #decl
            while #cond { #m; let #v0 = #it.take_next(); #body_tail }
            #r
        }))
    }

    /// the expression that yields a VIter
    fn iter_source(&mut self, x: Expr) -> Expr {
        match x {
            Expr::Paren(p) => self.iter_source(*p.expr),
            Expr::Range(r) => {
                let a = r.start.map(|x| *x).unwrap_or_else(|| e("0"));
                match (r.end, r.limits) {
                    (Some(b), RangeLimits::HalfOpen(_)) => parse_quote!(vx_range(#a, #b)),
                    (Some(b), _) => parse_quote!(vx_range_inclusive(#a, #b)),
                    _ => {
                        self.err("unbounded range");
                        e("vx_unsupported()")
                    }
                }
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if ITER_STAGE.contains(&n.as_str()) && is_iterish(&m.receiver) {
                    let r = self.iter_source(*m.receiver);
                    let a = m.args.iter();
                    let mm = &m.method;
                    return parse_quote!(#r.#mm(#(#a),*));
                }
                match n.as_str() {
                    "iter" | "into_iter" | "values" | "keys" | "into_values" | "into_keys" => {
                        let r = &m.receiver;
                        let mm = format_ident!("vx_{}", n);
                        parse_quote!(#r.#mm())
                    }
                    _ => Expr::MethodCall(m),
                }
            }
            Expr::Reference(r) => {
                let inner = &r.expr;
                if r.mutability.is_some() {
                    self.err("iteration by &mut");
                }
                parse_quote!(#inner.vx_iter())
            }
            x => parse_quote!(#x.vx_into_iter()),
        }
    }
}

/// a chain of fields and plain names
fn is_place(x: &Expr) -> bool {
    match x {
        Expr::Path(p) => p.path.get_ident().is_some(),
        Expr::Field(f) => is_place(&f.base),
        _ => false,
    }
}
/// `let [mut] x = place.borrow[_mut]()` / `place.lock().unwrap()`: x is another name of the place
fn alias_borrows(stmts: &mut Vec<Stmt>) {
    // a guard that is only held: `let _guard = lock.lock().unwrap();`
    stmts.retain(|s| {
        if let Stmt::Local(l) = s {
            if let (Pat::Ident(pi), Some(init)) = (&l.pat, &l.init) {
                return !(pi.ident.to_string().starts_with('_') && ts(&init.expr).ends_with(".lock().unwrap()"));
            }
        }
        true
    });
    let mut i = 0;
    while i < stmts.len() {
        let mut found: Option<(String, Expr)> = None;
        if let Stmt::Local(l) = &stmts[i] {
            if let (Pat::Ident(pi), Some(init)) = (&l.pat, &l.init) {
                if let Expr::MethodCall(m) = &*init.expr {
                    if init.diverge.is_none() && (m.method == "borrow" || m.method == "borrow_mut") && m.args.is_empty() && is_place(&m.receiver) {
                        found = Some((pi.ident.to_string(), (*m.receiver).clone()));
                    }
                }
            }
        }
        if let Some((n, place)) = found {
            stmts.remove(i);
            let rest: Vec<Stmt> = stmts.drain(i..).collect();
            let mut b = Block { brace_token: Default::default(), stmts: rest };
            b.stmts.retain(|s| !matches!(s, Stmt::Expr(Expr::Call(c), _) if ts(&c.func) == "drop" && c.args.len() == 1 && ts(&c.args[0]) == n));
            SubstIdent(&n, &place).visit_block_mut(&mut b);
            stmts.extend(b.stmts);
            continue;
        }
        i += 1;
    }
}
/// in a loop over a place of the node state the element is worked on in a copy that is written back after each call
struct WriteBack<'a>(&'a Ident, &'a Expr, &'a Ident, bool);
impl<'a> VisitMut for WriteBack<'a> {
    fn visit_expr_mut(&mut self, x: &mut Expr) {
        if let Expr::Call(c) = x {
            let hits = c.args.iter().filter(|a| path_ident(a).map(|i| *self.0 == i).unwrap_or(false)).count();
            if hits == 1 {
                for a in c.args.iter_mut() {
                    if path_ident(a).map(|i| *self.0 == i).unwrap_or(false) {
                        let n = self.0;
                        *a = parse_quote!(&mut #n);
                    }
                }
                let (n, v, i) = (self.0, self.1, self.2);
                let c = c.clone();
                *x = parse_quote!({ let __wb = #c; #v.vx_set(#i, vx_dup(&#n)); __wb });
                return;
            }
        }
        if path_ident(x).map(|i| *self.0 == i).unwrap_or(false) {
            self.3 = true;
        }
        visit_mut::visit_expr_mut(self, x);
    }
}

/// step 2: closures, higher-order functions, combinators, helpers
impl<'a> VisitMut for Cx<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        self.closures.push(BTreeMap::new());
        alias_borrows(&mut b.stmts);
        let stmts = std::mem::take(&mut b.stmts);
        for mut s in stmts {
            if let Stmt::Local(l) = &s {
                if let (Pat::Ident(pi), Some(init)) = (&l.pat, &l.init) {
                    if let Expr::Closure(c) = &*init.expr {
                        self.closures.last_mut().unwrap().insert(pi.ident.to_string(), c.clone());
                        continue;
                    }
                }
            }
            self.visit_stmt_mut(&mut s);
            b.stmts.push(s);
        }
        self.closures.pop();
    }

    fn visit_expr_mut(&mut self, x: &mut Expr) {
        // calls with closure arguments are handled before visiting the closure bodies
        let taken = std::mem::replace(x, Expr::Verbatim(Default::default()));
        *x = self.rewrite(taken);
    }
}

impl<'a> Cx<'a> {
    fn again(&mut self, mut x: Expr) -> Expr {
        self.visit_expr_mut(&mut x);
        x
    }
    fn rewrite(&mut self, x: Expr) -> Expr {
        match x {
            Expr::MethodCall(m) => self.rewrite_method(m),
            Expr::Call(c) => self.rewrite_call(c),
            // a range of a buffer
            Expr::Reference(r) if matches!(&*r.expr, Expr::Index(ix) if matches!(&*ix.index, Expr::Range(_))) => {
                let Expr::Index(ix) = &*r.expr else { unreachable!() };
                let b = (*ix.expr).clone();
                let (lo, hi) = range_ends(&b, &ix.index);
                let out: Expr = parse_quote!(#b.vx_sub(#lo, #hi));
                self.again(out)
            }
            Expr::Binary(b) if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && (matches!(&*b.left, Expr::Index(ix) if matches!(&*ix.index, Expr::Range(_))) || matches!(&*b.right, Expr::Index(ix) if matches!(&*ix.index, Expr::Range(_)))) => {
                let mut b = b;
                for x in [&mut b.left, &mut b.right] {
                    if let Expr::Index(ix) = &**x {
                        if matches!(&*ix.index, Expr::Range(_)) {
                            let (lo, hi) = range_ends(&ix.expr, &ix.index);
                            let v = &ix.expr;
                            **x = parse_quote!(*#v.vx_sub(#lo, #hi));
                        }
                    }
                }
                self.again(Expr::Binary(b))
            }
            mut x => {
                visit_mut::visit_expr_mut(self, &mut x);
                x
            }
        }
    }
    fn rewrite_call(&mut self, mut c: ExprCall) -> Expr {
        let f = ts(&c.func);
        if f == "u32::from_le_bytes" || f == "u32::from_be_bytes" {
            c.func = Box::new(e(&format!("vx_{}", f.replace("::", "_"))));
        }
        if f == "Vec::from" && c.args.len() == 1 {
            let a = &c.args[0];
            return parse_quote!(#a.vx_to_vec());
        }
        if f == "Vec::from_iter" && c.args.len() == 1 {
            let a = &c.args[0];
            let x: Expr = if is_iterish(a) { parse_quote!(#a.collect::<Vec<_>>()) } else { parse_quote!(#a.into_iter().collect::<Vec<_>>()) };
            return self.again(x);
        }
        if let Expr::Path(p) = &*c.func {
            let p = p.path.clone();
            if let Some(i) = p.get_ident() {
                if let Some(cl) = self.find_closure(&i.to_string()) {
                    let args: Vec<Expr> = c.args.iter().cloned().collect();
                    if let Some(n) = self.beta(&cl, args) {
                        return self.again(n);
                    }
                }
            }
            let has_closure = c.args.iter().any(|a| matches!(a, Expr::Closure(_)));
            let n = p.segments.last().unwrap().ident.to_string();
            let full = path_names(&p);
            let known = self.contract_for_path(&p).map(|k| k.key.clone());
            let prelude_fn = self.unit.wfns.contains(&full) || self.unit.wfns.contains(&n) || self.unit.hide.contains(&n);
            if !prelude_fn && (known.is_none() || (has_closure && !self.contract_for_path(&p).unwrap().flags.contains("hof"))) {
                if let Some(f) = self.repo_fn(&p) {
                    if n != "from" && n != "new" && n != "default" || has_closure {
                        let mut args: Vec<Expr> = c.args.iter().cloned().collect();
                        let mut recv = None;
                        if f.sig.receiver().is_some() && !args.is_empty() {
                            recv = Some(args.remove(0));
                        }
                        // arguments are visited in the caller's scope
                        for a in args.iter_mut() {
                            if !matches!(a, Expr::Closure(_)) {
                                self.visit_expr_mut(a);
                            }
                        }
                        let f = f.clone();
                        let turbo = turbofish(p.segments.last().map(|s| &s.arguments));
                        if let Some(n) = self.inline_fn(&f, recv, args, &turbo) {
                            return n;
                        }
                    }
                }
            }
        }
        visit_mut::visit_expr_call_mut(self, &mut c);
        Expr::Call(c)
    }
    fn rewrite_method(&mut self, mut m: ExprMethodCall) -> Expr {
        let n = m.method.to_string();
        let nargs = m.args.len();
        let closure_arg = nargs > 0 && (matches!(m.args[nargs - 1], Expr::Closure(_)) || path_ident(&m.args[nargs - 1]).map(|i| self.find_closure(&i).is_some()).unwrap_or(false));
        let path_arg = nargs > 0 && matches!(m.args[nargs - 1], Expr::Path(_)) && path_ident(&m.args[nargs - 1]).map(|i| i.chars().next().unwrap().is_uppercase() || self.db.contracts.values().any(|c| c.name() == i)).unwrap_or(true);
        // PROCESS.with(|process| body)
        if n == "with" && ts(&m.receiver).ends_with("PROCESS") && nargs == 1 {
            if let Expr::Closure(c) = &m.args[0] {
                let pn = ts(&c.inputs[0]);
                let mut body = expr_block((*c.body).clone());
                SubstIdent(&pn, &e("PROCESS")).visit_block_mut(&mut body);
                match elim_returns(body.stmts) {
                    Ok(stmts) => {
                        let b = Block { brace_token: Default::default(), stmts };
                        let out = if b.stmts.len() == 1 {
                            if let Stmt::Expr(x, None) = &b.stmts[0] { x.clone() } else { block_expr(b) }
                        } else {
                            block_expr(b)
                        };
                        return self.again(out);
                    }
                    Err(x) => self.err(format!("PROCESS.with: {x}")),
                }
            }
        }
        // RefCell / Mutex access
        if (n == "borrow" || n == "borrow_mut") && nargs == 0 {
            return self.again(*m.receiver);
        }
        if n == "unwrap" && nargs == 0 {
            if let Expr::MethodCall(l) = &*m.receiver {
                if l.method == "lock" {
                    let r = &l.receiver;
                    let r: Expr = parse_quote!((&mut #r));
                    return self.again(r);
                }
            }
        }
        if ((n == "unwrap" && nargs == 0) || (n == "expect" && nargs == 1)) && self.contract.flags.contains("panics") {
            let r = &m.receiver;
            let r: Expr = parse_quote!(#r.vx_unwrap());
            return self.again(r);
        }
        // a constructor as a function value
        if n == "map" && nargs == 1 && path_ident(&m.args[0]).is_some_and(|a| a == "Ok") && is_iterish(&m.receiver) {
            let r = &m.receiver;
            let r: Expr = parse_quote!(#r.vx_map_ok());
            return self.again(r);
        }
        if n == "into_iter" && nargs == 0 {
            let r = &m.receiver;
            let r: Expr = parse_quote!(#r.vx_into_iter());
            return self.again(r);
        }
        if (n == "cloned" || n == "copied") && nargs == 0 && !is_iterish(&m.receiver) {
            let r = &m.receiver;
            let r: Expr = parse_quote!(#r.vx_cloned());
            return self.again(r);
        }
        if (n == "split_once" && nargs == 1) || (n == "parse" && nargs == 0) {
            m.method = format_ident!("vx_{}", n);
            return Expr::MethodCall(m);
        }
        if n == "to_string" && nargs == 0 {
            let r = &m.receiver;
            let r: Expr = parse_quote!(#r.vx_to_string());
            return self.again(r);
        }
        if n == "to_owned" && nargs == 0 {
            let r = &m.receiver;
            let r: Expr = parse_quote!(#r.vx_to_owned());
            return self.again(r);
        }
        if n == "clone" && nargs == 0 {
            let r = &m.receiver;
            let r: Expr = parse_quote!(#r.vx_clone());
            return self.again(r);
        }
        if (n == "to_le_bytes" || n == "to_be_bytes") && nargs == 0 {
            let r = &m.receiver;
            let f = format_ident!("vx_{}", n);
            let r: Expr = parse_quote!(#r.#f());
            return self.again(r);
        }
        // slices of buffers: copying into a range
        if n == "copy_from_slice" && nargs == 1 {
            let a = m.args[0].clone();
            let out: Expr = match &*m.receiver {
                Expr::Index(ix) if matches!(&*ix.index, Expr::Range(_)) => {
                    let b = (*ix.expr).clone();
                    let (lo, hi) = range_ends(&b, &ix.index);
                    parse_quote!(#b.vx_copy_at(#lo, #hi, #a))
                }
                r => parse_quote!(#r.vx_copy_all(#a)),
            };
            return self.again(out);
        }
        if n == "clone_from" && nargs == 1 {
            let (r, a) = (&m.receiver, &m.args[0]);
            let r: Expr = parse_quote!({ #r = (#a).vx_clone(); });
            return self.again(r);
        }
        if n == "unwrap_or_default" && nargs == 0 {
            let r = &m.receiver;
            let r: Expr = parse_quote!(#r.vx_or_default());
            return self.again(r);
        }
        if n == "alter" && nargs == 2 && closure_arg {
            let k = self.fresh();
            let (v, s, kk) = (format_ident!("__v{}", k), format_ident!("__n{}", k), format_ident!("__k{}", k));
            let r = &m.receiver;
            let key = &m.args[0];
            if let Expr::Closure(c) = &m.args[1] {
                let mut c = c.clone();
                let mut vp = c.inputs.pop().unwrap().into_value();
                if let Pat::Ident(i) = &mut vp {
                    // interior mutability: the modelled table is changed through a mutable variable
                    i.mutability = Some(Default::default());
                }
                c.inputs = std::iter::once(vp).collect();
                if let Some(b) = self.beta(&c, vec![parse_quote!(#v)]) {
                    let out: Expr = parse_quote!({ let #kk = #key; if let Some(#v) = #r.vx_take(#kk) { let #s = #b; #r.vx_put(#kk, #s); } });
                    return self.again(out);
                }
            }
        }
        if n == "remove_if" && nargs == 2 && closure_arg {
            let k = self.fresh();
            let (v, bb, kk) = (format_ident!("__v{}", k), format_ident!("__b{}", k), format_ident!("__k{}", k));
            let r = &m.receiver;
            let key = &m.args[0];
            if let Expr::Closure(c) = &m.args[1] {
                let kp = c.inputs[0].clone();
                if matches!(kp, Pat::Wild(_)) {
                    let mut c = c.clone();
                    let vp = c.inputs.pop().unwrap().into_value();
                    c.inputs = std::iter::once(vp).collect();
                    if let Some(b) = self.beta(&c, vec![parse_quote!(#v)]) {
                        let out: Expr = parse_quote!({ let #kk = #key; let #bb = match #r.get(#kk) { Some(#v) => #b, None => false }; if #bb { #r.remove(#kk) } else { None } });
                        return self.again(out);
                    }
                } else {
                    self.err("remove_if with key pattern");
                }
            }
        }
        if n == "and_modify" && nargs == 1 && closure_arg {
            let k = self.fresh();
            let (v, en) = (format_ident!("__v{}", k), format_ident!("__en{}", k));
            let r = &m.receiver;
            if let Some(b) = self.apply(&m.args[0].clone(), vec![parse_quote!(#v)]) {
                let out: Expr = parse_quote!({ let mut #en = #r; if let Some(#v) = #en.vx_occupied_mut() { let _ = #b; } #en });
                return self.again(out);
            }
        }
        if (n == "or_insert_with" || n == "or_default") && nargs <= 1 {
            if n == "or_insert_with" {
                if let Some(b) = self.apply(&m.args[0].clone(), vec![]) {
                    // evaluated lazily in the original; the bodies met here are constructors
                    let r = &m.receiver;
                    let out: Expr = parse_quote!(#r.or_insert(#b));
                    return self.again(out);
                }
            }
        }
        if (n == "retain" || n == "retain_mut") && nargs == 1 && closure_arg && !self.unit.hofns.contains(&n) {
            self.loops += 1;
            let l = self.loops;
            let it = format_ident!("__VXL{}_it", l);
            let g = format_ident!("__VXL{}_g", l);
            let mk = format_ident!("__VXL{}_m", l);
            let b = format_ident!("__VXL{}_b", l);
            let xx = format_ident!("__VXL{}_x0", l);
            let r = &m.receiver;
            let arg: Expr = if n == "retain" { parse_quote!(&#xx) } else { parse_quote!(&mut #xx) };
            let multi = matches!(&m.args[0], Expr::Closure(c) if c.inputs.len() > 1);
            if multi {
                self.err("retain on a map");
            } else if let Some(c) = self.apply(&m.args[0].clone(), vec![arg]) {
                let out: Expr = parse_quote!({
                    let mut #it = #r.vx_take_all();
                    #g;
                    while #it.has_next() { #mk; let mut #xx = #it.take_next(); let #b = #c; if #b { #r.push(#xx); } }
                });
                return self.again(out);
            }
        }
        if n == "remove" && nargs == 1 && closure_arg && self.unit.wfns.contains("vx_mail_begin") {
            self.loops += 1;
            let l = self.loops;
            let it = format_ident!("__VXL{}_it", l);
            let g = format_ident!("__VXL{}_g", l);
            let mk = format_ident!("__VXL{}_m", l);
            let b = format_ident!("__VXL{}_b", l);
            let xx = format_ident!("__VXL{}_x0", l);
            let r = &m.receiver;
            if let Some(c) = self.apply(&m.args[0].clone(), vec![parse_quote!(&__msg)]) {
                let out: Expr = parse_quote!({
                    let __r = #r;
                    let mut #it = vx_mail_begin(&__r);
                    #g;
                    while #it.has_next() {
                        #mk;
                        let #xx = #it.take_next();
                        let #b = match vx_mail_look(&__r, &#xx) { Some(__msg) => #c, None => false };
                        if !#b { vx_mail_keep(#xx); }
                    }
                });
                return self.again(out);
            }
        }
        let iterish = is_iterish(&m.receiver);
        if iterish && (["position", "any", "all", "find", "find_map", "for_each"].contains(&n.as_str()) && nargs == 1 || ["collect", "count"].contains(&n.as_str())) {
            let keep = self.unit.hofns.contains(&n) && !matches!(&*m.receiver, Expr::MethodCall(r) if ["map", "filter", "filter_map"].contains(&r.method.to_string().as_str()));
            if keep {
                let r = std::mem::replace(&mut *m.receiver, e("()"));
                *m.receiver = self.iter_source(r);
            } else if let Some(out) = self.pipeline(&n, &m) {
                return self.again(out);
            }
        }
        if n == "binary_search_by_key" && nargs == 2 {
            if let Expr::Closure(c) = &m.args[1] {
                let (r, key, p, b) = (&m.receiver, &m.args[0], &c.inputs, &c.body);
                let out: Expr = parse_quote!(#r.binary_search_by(|#p| #b.cmp(#key)));
                return self.again(out);
            }
        }
        if !iterish && (closure_arg || path_arg) {
            let k = self.fresh();
            let v = format_ident!("__o{}", k);
            let f = m.args[nargs - 1].clone();
            let r = (*m.receiver).clone();
            let ve: Expr = parse_quote!(#v);
            let vr: Expr = parse_quote!(&#v);
            let result_like = self.contract.opts.get(&format!("{n}")).map(|x| x == "result").unwrap_or(false) || matches!(&r, Expr::MethodCall(mc) if ["downcast", "recv_async", "send_async", "ok_or", "ok_or_else", "map_err"].contains(&mc.method.to_string().as_str()));
            // methods of a Poll, where the contract says so
            let poll_like = self.contract.opts.get(&format!("{n}")).map(|x| x == "poll").unwrap_or(false);
            let out: Option<Expr> = match n.as_str() {
                "map" if nargs == 1 && poll_like => self.apply(&f, vec![ve]).map(|b| parse_quote!(match #r { Poll::Ready(#v) => Poll::Ready(#b), Poll::Pending => Poll::Pending })),
                "map_err" if poll_like => self.apply(&f, vec![ve]).map(|b| parse_quote!(match #r { Poll::Ready(Ok(__ok)) => Poll::Ready(Ok(__ok)), Poll::Ready(Err(#v)) => Poll::Ready(Err(#b)), Poll::Pending => Poll::Pending })),
                "map_ok" if poll_like => self.apply(&f, vec![ve]).map(|b| parse_quote!(match #r { Poll::Ready(Ok(#v)) => Poll::Ready(Ok(#b)), Poll::Ready(Err(__e)) => Poll::Ready(Err(__e)), Poll::Pending => Poll::Pending })),
                "map" if nargs == 1 && result_like => self.apply(&f, vec![ve]).map(|b| parse_quote!(match #r { Ok(#v) => Ok(#b), Err(__e) => Err(__e) })),
                "map" if nargs == 1 => self.apply(&f, vec![ve]).map(|b| parse_quote!(match #r { Some(#v) => Some(#b), None => None })),
                "and_then" if nargs == 1 && result_like => self.apply(&f, vec![ve]).map(|b| parse_quote!(match #r { Ok(#v) => #b, Err(__e) => Err(__e) })),
                "and_then" if nargs == 1 => self.apply(&f, vec![ve]).map(|b| parse_quote!(match #r { Some(#v) => #b, None => None })),
                "is_some_and" => self.apply(&f, vec![ve]).map(|b| parse_quote!(match #r { Some(#v) => #b, None => false })),
                "is_none_or" => self.apply(&f, vec![ve]).map(|b| parse_quote!(match #r { Some(#v) => #b, None => true })),
                "is_ok_and" => self.apply(&f, vec![ve]).map(|b| parse_quote!(match #r { Ok(#v) => #b, Err(_) => false })),
                "filter" => self.apply(&f, vec![vr]).map(|b| parse_quote!(match #r { Some(#v) => if #b { Some(#v) } else { None }, None => None })),
                "unwrap_or_else" if matches!(&f, Expr::Closure(c) if c.inputs.is_empty()) => self.apply(&f, vec![]).map(|b| parse_quote!(match #r { Some(#v) => #v, None => #b })),
                "unwrap_or_else" if matches!(&f, Expr::Closure(c) if c.inputs.len() == 1) => self.apply(&f, vec![ve]).map(|b| parse_quote!(match #r { Ok(__ok) => __ok, Err(#v) => #b })),
                "or_else" if matches!(&f, Expr::Closure(c) if c.inputs.is_empty()) => self.apply(&f, vec![]).map(|b| parse_quote!(match #r { Some(#v) => Some(#v), None => #b })),
                "ok_or_else" => self.apply(&f, vec![]).map(|b| parse_quote!(match #r { Some(#v) => Ok(#v), None => Err(#b) })),
                "map_err" => self.apply(&f, vec![ve]).map(|b| parse_quote!(match #r { Ok(__ok) => Ok(__ok), Err(#v) => Err(#b) })),
                "map_or" if nargs == 2 => {
                    let d = m.args[0].clone();
                    self.apply(&f, vec![ve]).map(|b| parse_quote!(match #r { Some(#v) => #b, None => #d }))
                }
                "then" => self.apply(&f, vec![]).map(|b| parse_quote!(if #r { Some(#b) } else { None })),
                _ => None,
            };
            if let Some(o) = out {
                return self.again(o);
            }
        }
        if n == "then_some" && nargs == 1 {
            let (r, a) = (&m.receiver, &m.args[0]);
            let out: Expr = parse_quote!({ let __c = #r; let __a = #a; if __c { Some(__a) } else { None } });
            return self.again(out);
        }
        // helper methods without contract, called on self
        let on_self = path_ident(&m.receiver).map(|x| x == "self" || x == "__self").unwrap_or(false);
        if on_self {
            if let Some(t) = self.self_ty.clone() {
                let suffix = format!("::{t}::{n}");
                let key = self.repo.by_name.get(&n).and_then(|ks| ks.iter().find(|k| k.ends_with(&suffix)).cloned());
                let kept = closure_arg && self.contract_for_method(&n, &m.receiver).map(|c| c.flags.contains("hofn")).unwrap_or(false);
                if let (Some(k), false) = (key, kept) {
                    let has = self.db.contracts.get(&k).map(|c| self.available(c)).unwrap_or(false);
                    if !has || closure_arg {
                        let f = self.repo.fns[&k].clone();
                        let mut args: Vec<Expr> = m.args.iter().cloned().collect();
                        for a in args.iter_mut() {
                            if !matches!(a, Expr::Closure(_)) {
                                self.visit_expr_mut(a);
                            }
                        }
                        let turbo: Vec<Type> = m.turbofish.as_ref().map(|t| t.args.iter().filter_map(|a| if let GenericArgument::Type(t) = a { Some(t.clone()) } else { None }).collect()).unwrap_or_default();
                        if let Some(x) = self.inline_fn(&f, Some((*m.receiver).clone()), args, &turbo) {
                            return x;
                        }
                    }
                }
            }
        } else if !self.unit.wmethods.contains(&n) && !self.unit.hide.contains(&n) && self.contract_for_method(&n, &m.receiver).is_none() {
            // unique inherent method of the repository without a contract
            let keys: Vec<String> = self.repo.by_name.get(&n).map(|ks| ks.iter().filter(|k| k.matches("::").count() == 2 && !k.contains('#') && self.is_method(k) && self.repo.fns[*k].in_trait.is_none()).cloned().collect()).unwrap_or_default();
            const COMMON: &[&str] = &["get", "len", "remove", "insert", "push", "clear", "contains", "new", "name", "start", "next", "entry", "take", "key", "value", "clone", "send", "iter", "receive", "select", "lock", "id", "node", "stop", "call", "cast", "decode", "encode", "poll", "timeout", "drain", "restart", "alter", "is_empty", "await"];
            if keys.len() == 1 && !COMMON.contains(&n.as_str()) {
                let f = self.repo.fns[&keys[0]].clone();
                let mut args: Vec<Expr> = m.args.iter().cloned().collect();
                for a in args.iter_mut() {
                    self.visit_expr_mut(a);
                }
                let mut r = (*m.receiver).clone();
                self.visit_expr_mut(&mut r);
                if let Some(x) = self.inline_fn(&f, Some(r), args, &[]) {
                    return x;
                }
            }
        }
        let mut m = m;
        let lib_hof = self.unit.hofns.contains(&n);
        if closure_arg && (lib_hof || self.contract_for_method(&n, &m.receiver).map(|c| c.flags.contains("hofn")).unwrap_or(false)) {
            if lib_hof {
                m.method = format_ident!("vx_{}", n);
            }
            // the callee is verified for every function argument: the closure stays, its specification is the `@closure` section
            if let Some(Expr::Closure(c)) = m.args.last().cloned() {
                let k = self.closure_no.entry(n.clone()).or_insert(0);
                let id = format_ident!("__VXC_{}_{}", n, *k);
                *k += 1;
                let (body, inputs) = (&c.body, &c.inputs);
                let pat = inputs.first().map(|p| match p { Pat::Type(t) => (*t.pat).clone(), p => p.clone() });
                let blk: Expr = match pat {
                    Some(Pat::Wild(_)) | None => parse_quote!({ #body }),
                    Some(p) => parse_quote!({ let #p = __vxc; #body }),
                };
                let cv = format_ident!("__c{}", self.closure_no.values().sum::<usize>() - 1);
                *m.args.last_mut().unwrap() = parse_quote!(#cv);
                let mut blk = blk;
                self.visit_expr_mut(&mut blk);
                visit_mut::visit_expr_method_call_mut(self, &mut m);
                return parse_quote!({ let #cv = #id(#blk); #m });
            }
        }
        visit_mut::visit_expr_method_call_mut(self, &mut m);
        Expr::MethodCall(m)
    }
}

/// `let mut it = ITER; while let Some(P) = it.next() { B }`  ->  `for P in ITER { B }` when `it` is used nowhere else
fn while_next(stmts: &mut Vec<Stmt>) {
    let mut i = 0;
    while i + 1 < stmts.len() {
        let mut hit = None;
        if let (Stmt::Local(l), Stmt::Expr(Expr::While(w), _)) = (&stmts[i], &stmts[i + 1]) {
            if let (Pat::Ident(pi), Some(init), Expr::Let(c)) = (&l.pat, &l.init, &*w.cond) {
                if let (Pat::TupleStruct(p), Expr::MethodCall(m)) = (&*c.pat, &*c.expr) {
                    let n = pi.ident.to_string();
                    if w.label.is_none() && m.method == "next" && p.path.is_ident("Some") && p.elems.len() == 1 && path_ident(&m.receiver).as_deref() == Some(n.as_str()) && is_iterish(&init.expr) && init.diverge.is_none() {
                        let mut c = Mentions(&n, 0);
                        c.visit_block(&w.body);
                        for s in &stmts[i + 2..] {
                            c.visit_stmt(s);
                        }
                        if c.1 == 0 {
                            let (pat, src, body) = (&p.elems[0], &init.expr, &w.body);
                            hit = Some(parse_quote!(for #pat in #src #body));
                        }
                    }
                }
            }
        }
        if let Some(x) = hit {
            stmts[i] = Stmt::Expr(x, None);
            stmts.remove(i + 1);
        }
        i += 1;
    }
}
struct Mentions<'n>(&'n str, usize);
impl<'n, 'ast> Visit<'ast> for Mentions<'n> {
    fn visit_ident(&mut self, i: &'ast Ident) {
        if i == self.0 {
            self.1 += 1;
        }
    }
    fn visit_macro(&mut self, m: &'ast Macro) {
        if m.tokens.to_string().split(|c: char| !c.is_alphanumeric() && c != '_').any(|t| t == self.0) {
            self.1 += 1;
        }
    }
}
/// `for P in I.map(F) { B }` -> `for x in I { let P = F(x); B }`, likewise a filter: `for x in I { if F(&x) { let P = x; B } }`
fn peel_stages(f: &mut ExprForLoop) {
    let mut k = 0usize;
    loop {
        let Expr::MethodCall(m) = strip_paren((*f.expr).clone()) else { return };
        let n = m.method.to_string();
        if !(n == "map" || n == "filter") || m.args.len() != 1 || !is_iterish(&m.receiver) {
            return;
        }
        let x = format_ident!("__px{}", k);
        k += 1;
        let (pat, body) = (&f.pat, &f.body);
        let body: Block = match (&m.args[0], n.as_str()) {
            (Expr::Closure(c), _) if c.inputs.len() != 1 => return,
            (Expr::Closure(c), "map") => {
                let (p, b) = (untyped(&c.inputs[0]), &c.body);
                let s = &body.stmts;
                parse_quote!({ let #p = #x; let #pat = #b; #(#s)* })
            }
            (Expr::Closure(c), _) => {
                let (p, b) = (untyped(&c.inputs[0]), &c.body);
                let bind: Stmt = match &p {
                    Pat::Reference(r) => {
                        let q = &r.pat;
                        parse_quote!(let #q = #x;)
                    }
                    _ => parse_quote!(let #p = &#x;),
                };
                parse_quote!({ if { #bind #b } { let #pat = #x; #body } })
            }
            (Expr::Path(g), "map") => {
                let s = &body.stmts;
                parse_quote!({ let #pat = #g(#x); #(#s)* })
            }
            (Expr::Path(g), _) => parse_quote!({ if #g(&#x) { let #pat = #x; #body } }),
            _ => return,
        };
        f.body = body;
        *f.pat = parse_quote!(#x);
        *f.expr = (*m.receiver).clone();
    }
}
fn untyped(p: &Pat) -> Pat {
    match p {
        Pat::Type(t) => (*t.pat).clone(),
        p => p.clone(),
    }
}

/// step 3: loops
struct Loops<'b, 'a> {
    cx: &'b mut Cx<'a>,
}
impl<'b, 'a> VisitMut for Loops<'b, 'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        while_next(&mut b.stmts);
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, x: &mut Expr) {
        match x {
            Expr::ForLoop(f) => {
                peel_stages(f);
                self.cx.loops += 1;
                let l = self.cx.loops;
                let it = format_ident!("__VXL{}_it", l);
                let g = format_ident!("__VXL{}_g", l);
                let m = format_ident!("__VXL{}_m", l);
                let idx = format_ident!("__VXL{}_i", l);
                let pat = &f.pat;
                let stmts = &f.body.stmts;
                if f.label.is_some() {
                    self.cx.err("labelled loop");
                }
                // iter_mut() pipelines become index loops
                let mut base = (*f.expr).clone();
                let mut st_: Vec<String> = vec![];
                let mut mutsrc: Option<Expr> = None;
                loop {
                    let next = match &base {
                        Expr::MethodCall(mc) => {
                            let n = mc.method.to_string();
                            if n == "iter_mut" {
                                mutsrc = Some((*mc.receiver).clone());
                                break;
                            }
                            if n == "rev" || n == "enumerate" {
                                st_.push(n);
                                (*mc.receiver).clone()
                            } else {
                                break;
                            }
                        }
                        Expr::Reference(r) if r.mutability.is_some() && st_.is_empty() => {
                            mutsrc = Some((*r.expr).clone());
                            break;
                        }
                        _ => break,
                    };
                    base = next;
                }
                st_.reverse();
                let new: Expr = if let Some(v) = mutsrc {
                    let rev = st_.iter().any(|s| s == "rev");
                    let en = st_.iter().any(|s| s == "enumerate");
                    if st_.first().map(|s| s == "rev").unwrap_or(false) && en {
                        self.cx.err("rev().enumerate() over iter_mut");
                    }
                    let src: Expr = if rev { parse_quote!(vx_range(0, #v.len()).rev()) } else { parse_quote!(vx_range(0, #v.len())) };
                    let bind: Stmt = if en { parse_quote!(let #pat = (#idx, &mut #v[#idx]);) } else { parse_quote!(let #pat = &mut #v[#idx];) };
                    // split the tuple pattern: Verus has no tuples of &mut in let patterns
                    let binds: Vec<Stmt> = match (en, &*f.pat) {
                        (true, Pat::Tuple(t)) if t.elems.len() == 2 => {
                            let (a, b) = (&t.elems[0], &t.elems[1]);
                            vec![parse_quote!(let #a = #idx;), parse_quote!(let #b = &mut #v[#idx];)]
                        }
                        _ => vec![bind],
                    };
                    let global = matches!(&v, Expr::Field(f) if { let mut x: &Expr = &f.base; while let Expr::Field(g) = x { x = &g.base; } path_ident(x).map(|i| i.chars().all(|c| c.is_uppercase() || c == '_')).unwrap_or(false) });
                    if global {
                        let (a, b): (Option<Pat>, Pat) = match (en, &*f.pat) {
                            (true, Pat::Tuple(t)) if t.elems.len() == 2 => (Some(t.elems[0].clone()), t.elems[1].clone()),
                            (_, p) => (None, p.clone()),
                        };
                        let n = match &b {
                            Pat::Ident(i) => i.ident.clone(),
                            _ => {
                                self.cx.err("pattern in a loop over &mut global state");
                                format_ident!("__x")
                            }
                        };
                        let mut body = f.body.clone();
                        let mut wb = WriteBack(&n, &v, &idx, false);
                        wb.visit_block_mut(&mut body);
                        if wb.3 {
                            self.cx.err("direct use of an element of global state in a loop over it");
                        }
                        let stmts = &body.stmts;
                        let a: Vec<Stmt> = a.map(|a| parse_quote!(let #a = #idx;)).into_iter().collect();
                        parse_quote!({ let mut #it = #src; #g; while #it.has_next() { #m; let #idx = #it.take_next(); #(#a)* let mut #n = vx_dup(&#v[#idx]); #(#stmts)* } })
                    } else {
                    parse_quote!({ let mut #it = #src; #g; while #it.has_next() { #m; let #idx = #it.take_next(); #(#binds)* #(#stmts)* } })
                    }
                } else {
                    let src = self.cx.iter_source((*f.expr).clone());
                    parse_quote!({ let mut #it = #src; #g; while #it.has_next() { #m; let #pat = #it.take_next(); #(#stmts)* } })
                };
                *x = new;
                // children (the while body) are visited, but the while itself must not be renumbered
                if let Expr::Block(b) = x {
                    for s in b.block.stmts.iter_mut() {
                        if let Stmt::Expr(Expr::While(w), _) = s {
                            for s in w.body.stmts.iter_mut() {
                                self.visit_stmt_mut(s);
                            }
                        } else {
                            self.visit_stmt_mut(s);
                        }
                    }
                }
            }
            Expr::While(w) => {
                let marked = matches!(w.body.stmts.first(), Some(Stmt::Expr(p, _)) if path_ident(p).map(|i| i.starts_with("__VXL")).unwrap_or(false));
                if !marked {
                    if matches!(&*w.cond, Expr::Let(_)) {
                        // while let P = E { B }  ->  loop { match E { P => { B } _ => break } }
                        if let Expr::Let(l) = &*w.cond {
                            let (p, ex, b) = (&l.pat, &l.expr, &w.body);
                            *x = parse_quote!(loop { match #ex { #p => #b, _ => { break; } } });
                            return self.visit_expr_mut(x);
                        }
                    }
                    self.cx.loops += 1;
                    let m = format_ident!("__VXL{}_m", self.cx.loops);
                    w.body.stmts.insert(0, parse_quote!(#m;));
                }
                visit_mut::visit_expr_mut(self, x);
            }
            Expr::Loop(w) => {
                self.cx.loops += 1;
                let m = format_ident!("__VXL{}_m", self.cx.loops);
                w.body.stmts.insert(0, parse_quote!(#m;));
                visit_mut::visit_expr_mut(self, x);
            }
            _ => visit_mut::visit_expr_mut(self, x),
        }
    }
}

/// step 4: statics and the world parameter
struct WorldPass<'b, 'a> {
    cx: &'b mut Cx<'a>,
}
struct MentionsW(bool);
impl<'ast> Visit<'ast> for MentionsW {
    fn visit_expr_path(&mut self, p: &'ast ExprPath) {
        if p.path.is_ident("w") {
            self.0 = true;
        }
    }
}
/// whether the whole world is handed to a call in this expression
struct BareW(bool);
impl<'ast> Visit<'ast> for BareW {
    fn visit_expr_path(&mut self, p: &'ast ExprPath) {
        if p.path.is_ident("w") {
            self.0 = true;
        }
    }
    fn visit_expr_field(&mut self, f: &'ast ExprField) {
        if path_ident(&f.base).as_deref() != Some("w") {
            visit::visit_expr_field(self, f);
        }
    }
}
impl<'b, 'a> VisitMut for WorldPass<'b, 'a> {
    fn visit_expr_mut(&mut self, x: &mut Expr) {
        visit_mut::visit_expr_mut(self, x);
        match x {
            Expr::Path(p) if p.qself.is_none() => {
                let n = p.path.segments.last().unwrap().ident.to_string();
                if n.chars().all(|c| c.is_uppercase() || c == '_' || c.is_ascii_digit()) {
                    let cands: Vec<&StaticItem> = self.cx.repo.statics.iter().filter(|s| s.name == n).collect();
                    let s = cands.iter().find(|s| s.module == self.cx.module).or(cands.first());
                    if let Some(s) = s {
                        let f = format_ident!("{}", s.field);
                        self.cx.uses_w = true;
                        *x = parse_quote!(w.#f);
                    }
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let full = path_names(&p.path);
                    let n = p.path.segments.last().unwrap().ident.to_string();
                    let w = self.cx.contract_for_path(&p.path).map(|k| k.world()).unwrap_or(false) || self.cx.unit.wfns.contains(&full) || (p.path.segments.len() == 2 && self.cx.unit.wfns.contains(&format!("_::{n}"))) || (p.path.segments.len() == 1 && self.cx.unit.wfns.contains(&n));
                    if w {
                        self.cx.uses_w = true;
                        for a in c.args.iter_mut() {
                            if let Expr::Reference(r) = a {
                                let mut mw = MentionsW(false);
                                mw.visit_expr(&r.expr);
                                if r.mutability.is_none() && mw.0 {
                                    *a = parse_quote!(vx_handle(#a));
                                }
                            }
                        }
                        c.args.push(parse_quote!(w));
                    }
                    // free-standing emission of trait default methods: path stays `Type::method`
                }
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let on_static = matches!(&*m.receiver, Expr::Field(f) if path_ident(&f.base).as_deref() == Some("w"));
                if on_static && m.args.iter().any(|a| { let mut b = BareW(false); b.visit_expr(a); b.0 }) {
                    // the arguments are evaluated before the table is borrowed
                    let k = self.cx.fresh();
                    let names: Vec<Ident> = (0..m.args.len()).map(|i| format_ident!("__a{}_{}", k, i)).collect();
                    let args: Vec<Expr> = m.args.iter().cloned().collect();
                    m.args = names.iter().map(|n| -> Expr { parse_quote!(#n) }).collect();
                    let call = m.clone();
                    *x = parse_quote!({ #(let #names = #args;)* #call });
                    return;
                }
                let prelude = self.cx.unit.wmethods.contains(&n);
                let w = prelude || (!self.cx.unit.hide.contains(&n) && self.cx.contract_for_method(&n, &m.receiver).map(|k| k.world()).unwrap_or(false));
                if w {
                    self.cx.uses_w = true;
                    let mut mw = MentionsW(false);
                    mw.visit_expr(&m.receiver);
                    m.args.push(parse_quote!(w));
                    if prelude && mw.0 {
                        let r = &m.receiver;
                        let k = self.cx.fresh();
                        let c = format_ident!("__h{}", k);
                        let (mm, a) = (&m.method, m.args.iter());
                        *x = parse_quote!({ let #c = vx_handle(&#r); #c.#mm(#(#a),*) });
                    }
                }
            }
            _ => {}
        }
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        visit_mut::visit_field_value_mut(self, f);
    }
}

/// shallow search for a call to `name` in a statement, not descending into nested blocks
struct ShallowCall<'n> {
    name: &'n str,
    n: usize,
}
impl<'ast, 'n> Visit<'ast> for ShallowCall<'n> {
    fn visit_block(&mut self, _: &'ast Block) {}
    fn visit_arm(&mut self, a: &'ast Arm) {
        if !matches!(&*a.body, Expr::Block(_)) {
            visit::visit_arm(self, a);
        }
    }
    fn visit_expr_call(&mut self, c: &'ast ExprCall) {
        if let Expr::Path(p) = &*c.func {
            if p.path.segments.last().unwrap().ident == self.name {
                self.n += 1;
            }
        }
        visit::visit_expr_call(self, c);
    }
    fn visit_expr_method_call(&mut self, c: &'ast ExprMethodCall) {
        if c.method == self.name {
            self.n += 1;
        }
        visit::visit_expr_method_call(self, c);
    }
}
use syn::visit;

struct Anchors<'n> {
    name: &'n str,
    want: usize,
    seen: usize,
    before: Option<Ident>,
    after: Option<Ident>,
    done: bool,
}
impl<'n> VisitMut for Anchors<'n> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut i = 0;
        while i < b.stmts.len() {
            if self.done {
                return;
            }
            let mut s = ShallowCall { name: self.name, n: 0 };
            s.visit_stmt(&b.stmts[i]);
            if s.n > 0 {
                if self.want >= self.seen && self.want < self.seen + s.n {
                    if let Some(a) = &self.after {
                        // a tail expression is bound first
                        if let Stmt::Expr(x, None) = &b.stmts[i] {
                            let x = x.clone();
                            b.stmts[i] = parse_quote!(let __tail = #x;);
                            b.stmts.insert(i + 1, parse_quote!(#a;));
                            b.stmts.insert(i + 2, Stmt::Expr(e("__tail"), None));
                        } else {
                            b.stmts.insert(i + 1, parse_quote!(#a;));
                        }
                    }
                    if let Some(a) = &self.before {
                        b.stmts.insert(i, parse_quote!(#a;));
                    }
                    self.done = true;
                    return;
                }
                self.seen += s.n;
            }
            self.visit_stmt_mut(&mut b.stmts[i]);
            i += 1;
        }
    }
}

impl<'a> Cx<'a> {
    fn anchors(&mut self, b: &mut Block) {
        let secs: Vec<String> = self.contract.sections.keys().cloned().collect();
        // arms without braces get them when a hint goes next to a call in them
        struct Wrap<'n>(&'n [String]);
        impl<'n> VisitMut for Wrap<'n> {
            fn visit_arm_mut(&mut self, a: &mut Arm) {
                visit_mut::visit_arm_mut(self, a);
                if !matches!(&*a.body, Expr::Block(_)) {
                    let hit = self.0.iter().any(|n| {
                        let mut s = ShallowCall { name: n, n: 0 };
                        s.visit_expr(&a.body);
                        s.n > 0
                    });
                    if hit {
                        let x = (*a.body).clone();
                        *a.body = parse_quote!({ #x });
                    }
                }
            }
        }
        let names: Vec<String> = secs.iter().filter_map(|s| { let t: Vec<&str> = s.split_whitespace().collect(); if t[0] == "before_call" || t[0] == "after_call" { Some(t[1].to_string()) } else { None } }).collect();
        Wrap(&names).visit_block_mut(b);
        for s in secs {
            let t: Vec<&str> = s.split_whitespace().collect();
            match t[0] {
                "before_call" | "after_call" => {
                    let id = Ident::new(&format!("__VXG_{}_{}_{}", t[0], t[1], t.get(2).unwrap_or(&"0")), Span::call_site());
                    let mut a = Anchors {
                        name: t[1],
                        want: t.get(2).and_then(|x| x.parse().ok()).unwrap_or(0),
                        seen: 0,
                        before: if t[0] == "before_call" { Some(id.clone()) } else { None },
                        after: if t[0] == "after_call" { Some(id) } else { None },
                        done: false,
                    };
                    a.visit_block_mut(b);
                    if !a.done {
                        self.err(format!("anchor lost: {s}"));
                    }
                }
                "entry" => b.stmts.insert(0, Stmt::Expr(e("__VXG_entry"), Some(Default::default()))),
                "exit" => {
                    // ghost variables of the entry stay visible at the exit
                    let entry = if b.stmts.first().map(|s| ts(s).contains("__VXG_entry") && !ts(s).contains("{")).unwrap_or(false) { Some(b.stmts.remove(0)) } else { None };
                    let inner = block_expr(b.clone());
                    b.stmts = st("let __ret = __VX_INNER; __VXG_exit; __ret");
                    if let Stmt::Local(l) = &mut b.stmts[0] {
                        *l.init.as_mut().unwrap().expr = inner;
                    }
                    if let Some(entry) = entry {
                        b.stmts.insert(0, entry);
                    }
                }
                _ => {}
            }
        }
    }
}

/// `p | q if g => x` is `p if g => x, q if g => x`
fn split_or_guards(m: &mut ExprMatch) {
    let mut arms = vec![];
    for a in std::mem::take(&mut m.arms) {
        match (&a.pat, &a.guard) {
            (Pat::Or(o), Some(_)) => {
                for c in &o.cases {
                    let mut n = a.clone();
                    n.pat = c.clone();
                    n.comma = Some(Default::default());
                    arms.push(n);
                }
            }
            _ => arms.push(a),
        }
    }
    m.arms = arms;
}
fn turbofish(a: Option<&PathArguments>) -> Vec<Type> {
    match a {
        Some(PathArguments::AngleBracketed(a)) => a.args.iter().filter_map(|a| if let GenericArgument::Type(t) = a { Some(t.clone()) } else { None }).collect(),
        _ => vec![],
    }
}
struct TypeParams<'a>(&'a BTreeMap<String, Type>);
impl<'a> VisitMut for TypeParams<'a> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            if let Some(n) = p.path.get_ident().and_then(|i| self.0.get(&i.to_string())) {
                *t = n.clone();
                return;
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
}

pub struct TypeRewrite;
impl VisitMut for TypeRewrite {
    fn visit_type_mut(&mut self, t: &mut Type) {
        let s = ts(t);
        let new: Option<Type> = if s.starts_with("Box<dynstd::any::Any") || s.starts_with("Box<dynAny") {
            parse_str("AnyBox").ok()
        } else if s.starts_with("Cow<'") && s.ends_with(",str>") {
            parse_str("CowStr").ok()
        } else if matches!(t, Type::TraitObject(_) | Type::ImplTrait(_)) && (s.contains("Fn(") || s.contains("Future<Output")) || s.starts_with("Box<dyn") && s.contains("Future<Output") && !s.contains("Fn(") {
            parse_str("DynFn").ok()
        } else if s.starts_with("SmallVec<[") {
            // SmallVec<[T; N]>: a Vec<T> which keeps its first N in place
            s.strip_prefix("SmallVec<[").and_then(|x| x.rsplit_once(';')).and_then(|(x, _)| parse_str(&format!("Vec<{x}>")).ok())
        } else {
            None
        };
        if let Some(n) = new {
            *t = n;
            return;
        }
        if let Type::Path(p) = t {
            let last = p.path.segments.last().unwrap();
            let n = last.ident.to_string();
            if ["RefCell", "Lazy", "Mutex", "Arc", "Pin", "AssertUnwindSafe"].contains(&n.as_str()) {
                if let PathArguments::AngleBracketed(a) = &last.arguments {
                    if let Some(GenericArgument::Type(inner)) = a.args.first() {
                        let mut inner = inner.clone();
                        self.visit_type_mut(&mut inner);
                        *t = inner;
                        return;
                    }
                }
            }
            if p.qself.is_none() && p.path.segments.len() > 1 && ["std", "tokio", "dashmap", "flume", "core"].contains(&p.path.segments[0].ident.to_string().as_str()) {
                let seg = last.clone();
                p.path.segments = std::iter::once(seg).collect();
                p.path.leading_colon = None;
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
}

#[allow(dead_code)]
pub fn q<T: ToTokens>(t: &T) -> String {
    quote!(#t).to_string()
}
