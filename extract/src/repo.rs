//! Index of the repository's items.
use quote::ToTokens;
use std::collections::BTreeMap;
use syn::*;

#[derive(Clone)]
pub struct FnItem {
    pub key: String,
    pub module: String,
    /// Self type as written (with generics) and its impl generics
    pub self_ty: Option<Type>,
    pub impl_generics: Option<Generics>,
    pub trait_path: Option<Path>,
    pub in_trait: Option<String>,
    pub sig: Signature,
    pub block: Block,
    pub assoc: Vec<ImplItemType>,
}

pub struct StaticItem {
    pub module: String,
    pub name: String,
    pub ty: Type,
    pub field: String,
    pub in_fn: Option<String>,
}

pub struct Repo {
    pub fns: BTreeMap<String, FnItem>,
    pub types: BTreeMap<String, Vec<Item>>, // module -> struct/enum/type/const items
    pub uses: BTreeMap<String, Vec<ItemUse>>,
    pub statics: Vec<StaticItem>,
    pub consts: BTreeMap<String, Vec<Item>>,
    pub by_name: BTreeMap<String, Vec<String>>, // fn name -> keys
}

pub fn ts<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string().replace(' ', "")
}

/// Evaluates `#[cfg(..)]` with no optional feature enabled.
pub fn cfg_ok(attrs: &[Attribute]) -> bool {
    for a in attrs {
        if a.path().is_ident("cfg") {
            let s = ts(&a.meta).replace(' ', "");
            let inner = &s["cfg(".len()..s.len() - 1];
            if !eval_cfg(inner) {
                return false;
            }
        }
    }
    true
}
fn split_top(s: &str) -> Vec<String> {
    let mut d = 0;
    let mut out = vec![];
    let mut cur = String::new();
    for c in s.chars() {
        match c {
            '(' => d += 1,
            ')' => d -= 1,
            ',' if d == 0 => {
                out.push(std::mem::take(&mut cur));
                continue;
            }
            _ => {}
        }
        cur.push(c);
    }
    if !cur.is_empty() {
        out.push(cur);
    }
    out
}
fn eval_cfg(s: &str) -> bool {
    if let Some(r) = s.strip_prefix("not(") {
        return !eval_cfg(&r[..r.len() - 1]);
    }
    if let Some(r) = s.strip_prefix("all(") {
        return split_top(&r[..r.len() - 1]).iter().all(|x| eval_cfg(x));
    }
    if let Some(r) = s.strip_prefix("any(") {
        return split_top(&r[..r.len() - 1]).iter().any(|x| eval_cfg(x));
    }
    s == "debug_assertions" || s == "unix"
}

struct CallFrom;
impl syn::visit_mut::VisitMut for CallFrom {
    fn visit_item_struct_mut(&mut self, i: &mut ItemStruct) {
        if i.ident == "From" {
            i.ident = Ident::new("CallFrom", i.ident.span());
        }
        syn::visit_mut::visit_item_struct_mut(self, i);
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        if let Some(s) = p.segments.first_mut() {
            if s.ident == "From" && s.arguments.is_empty() {
                s.ident = Ident::new("CallFrom", s.ident.span());
            }
        }
        syn::visit_mut::visit_path_mut(self, p);
    }
    fn visit_use_name_mut(&mut self, u: &mut UseName) {
        if u.ident == "From" {
            u.ident = Ident::new("CallFrom", u.ident.span());
        }
    }
}

impl Repo {
    pub fn load(dirs: &[String]) -> Repo {
        let mut r = Repo { fns: Default::default(), types: Default::default(), uses: Default::default(), statics: vec![], consts: Default::default(), by_name: Default::default() };
        let mut files: Vec<(String, std::path::PathBuf)> = vec![];
        fn walk(dir: &std::path::Path, files: &mut Vec<(String, std::path::PathBuf)>) {
            let mut es: Vec<_> = std::fs::read_dir(dir).unwrap().map(|e| e.unwrap().path()).collect();
            es.sort();
            for p in es {
                if p.is_dir() {
                    walk(&p, files);
                } else if p.extension().map(|e| e == "rs").unwrap_or(false) {
                    let stem = p.file_stem().unwrap().to_string_lossy().to_string();
                    if stem == "lib" {
                        continue;
                    }
                    let m = if p.parent().unwrap().file_name().unwrap() == "frame" { if stem == "mod" { "frame".to_string() } else { format!("frame_{stem}") } } else { stem };
                    files.push((m, p));
                }
            }
        }
        for d in dirs {
            walk(std::path::Path::new(d), &mut files);
        }
        for (m, p) in files {
            let text = std::fs::read_to_string(&p).unwrap();
            match syn::parse_file(&text) {
                Ok(mut f) => {
                    // hydra's struct `From` shares its name with the standard trait: renamed to `CallFrom`
                    if m == "from" || text.contains("use crate::From;") {
                        use syn::visit_mut::VisitMut;
                        CallFrom.visit_file_mut(&mut f);
                    }
                    r.items(&m, f.items)
                }
                Err(e) => eprintln!("parse error in {p:?}: {e}"),
            }
        }
        // constants built by calls are replaced by their defining expression where they are used
        for (m, cs) in r.consts.clone() {
            for c in cs {
                let Item::Const(c) = c else { continue };
                if !matches!(*c.expr, Expr::MethodCall(_)) {
                    continue;
                }
                let n = c.ident.to_string();
                for f in r.fns.values_mut().filter(|f| f.module == m) {
                    use syn::visit_mut::VisitMut;
                    crate::passes::SubstIdent(&n, &c.expr).visit_block_mut(&mut f.block);
                }
            }
        }
        // static fields: unique name, or module__NAME
        let mut count: BTreeMap<String, usize> = BTreeMap::new();
        for s in &r.statics {
            *count.entry(s.name.clone()).or_default() += 1;
        }
        for s in r.statics.iter_mut() {
            s.field = if s.name == "ID" || s.name == "REF" || count[&s.name] > 1 { format!("{}__{}", s.module, s.name) } else { s.name.clone() };
        }
        for k in r.fns.keys() {
            let n = k.rsplit("::").next().unwrap().to_string();
            r.by_name.entry(n).or_default().push(k.clone());
        }
        r
    }
    fn items(&mut self, m: &str, items: Vec<Item>) {
        for it in items {
            match it {
                Item::Use(u) => {
                    if cfg_ok(&u.attrs) {
                        self.uses.entry(m.into()).or_default().push(u)
                    }
                }
                Item::Struct(ref s) => {
                    if cfg_ok(&s.attrs) {
                        self.types.entry(m.into()).or_default().push(it)
                    }
                }
                Item::Enum(ref s) => {
                    if cfg_ok(&s.attrs) {
                        self.types.entry(m.into()).or_default().push(it)
                    }
                }
                Item::Type(ref s) => {
                    if cfg_ok(&s.attrs) {
                        self.types.entry(m.into()).or_default().push(it)
                    }
                }
                Item::Const(ref s) => {
                    if cfg_ok(&s.attrs) {
                        self.consts.entry(m.into()).or_default().push(it)
                    }
                }
                Item::Static(s) => {
                    if cfg_ok(&s.attrs) {
                        self.statics.push(StaticItem { module: m.into(), name: s.ident.to_string(), ty: (*s.ty).clone(), field: String::new(), in_fn: None })
                    }
                }
                Item::Macro(mac) => {
                    // the type that pin_project! declares
                    if ts(&mac.mac.path).ends_with("pin_project") {
                        if let Ok(mut st) = syn::parse2::<syn::ItemStruct>(mac.mac.tokens.clone()) {
                            for f in st.fields.iter_mut() {
                                f.attrs.clear();
                            }
                            self.types.entry(m.into()).or_default().push(Item::Struct(st));
                        }
                    }
                    if ts(&mac.mac.path).ends_with("task_local") {
                        // pub(crate) static PROCESS: Process;
                        let toks: Vec<_> = mac.mac.tokens.clone().into_iter().map(|t| t.to_string()).collect();
                        let mut i = 0;
                        while i + 3 < toks.len() {
                            if toks[i] == "static" {
                                let name = toks[i + 1].clone();
                                let ty: Type = parse_str(&toks[i + 3]).unwrap();
                                self.statics.push(StaticItem { module: m.into(), name, ty, field: String::new(), in_fn: None });
                            }
                            i += 1;
                        }
                    }
                }
                Item::Fn(f) => {
                    if cfg_ok(&f.attrs) {
                        let key = format!("{m}::{}", f.sig.ident);
                        self.fn_statics(m, &key, &f.block);
                        self.add(FnItem { key, module: m.into(), self_ty: None, impl_generics: None, trait_path: None, in_trait: None, sig: f.sig, block: *f.block, assoc: vec![] });
                    }
                }
                Item::Impl(im) => {
                    if !cfg_ok(&im.attrs) {
                        continue;
                    }
                    let tyname = match &*im.self_ty {
                        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
                        t => ts(t),
                    };
                    let tr = im.trait_.as_ref().map(|(_, p, _)| p.clone());
                    let assoc: Vec<ImplItemType> = im.items.iter().filter_map(|i| if let ImplItem::Type(t) = i { Some(t.clone()) } else { None }).collect();
                    for i in im.items {
                        if let ImplItem::Fn(f) = i {
                            if !cfg_ok(&f.attrs) {
                                continue;
                            }
                            let key = match &tr {
                                Some(p) => format!("{m}::{tyname}#{}::{}", trait_str(p), f.sig.ident),
                                None => format!("{m}::{tyname}::{}", f.sig.ident),
                            };
                            self.fn_statics(m, &key, &f.block);
                            self.add(FnItem { key, module: m.into(), self_ty: Some((*im.self_ty).clone()), impl_generics: Some(im.generics.clone()), trait_path: tr.clone(), in_trait: None, sig: f.sig, block: f.block, assoc: assoc.clone() });
                        }
                    }
                }
                Item::Trait(t) => {
                    for i in t.items {
                        if let TraitItem::Fn(f) = i {
                            if let Some(b) = f.default {
                                let key = format!("{m}::{}::{}", t.ident, f.sig.ident);
                                self.add(FnItem { key, module: m.into(), self_ty: None, impl_generics: None, trait_path: None, in_trait: Some(t.ident.to_string()), sig: f.sig, block: b, assoc: vec![] });
                            }
                        }
                    }
                }
                Item::Mod(md) => {
                    if cfg_ok(&md.attrs) && !md.attrs.iter().any(|a| ts(&a.meta).contains("test")) {
                        if let Some((_, items)) = md.content {
                            self.items(&format!("{m}_{}", md.ident), items);
                        }
                    }
                }
                _ => {}
            }
        }
    }
    fn fn_statics(&mut self, m: &str, key: &str, b: &Block) {
        for s in &b.stmts {
            if let Stmt::Item(Item::Static(s)) = s {
                self.statics.push(StaticItem { module: m.into(), name: s.ident.to_string(), ty: (*s.ty).clone(), field: String::new(), in_fn: Some(key.to_string()) });
            }
        }
    }
    /// functions the contracts name that are not items of the source: `KEY@n` is the n-th `async` block of KEY, and a
    /// default method of a trait becomes a generic function over the implementing type
    pub fn derive(&mut self, db: &crate::db::Db) {
        for c in db.contracts.values() {
            let Some((base, k)) = c.key.split_once('@') else { continue };
            let (Some(f), Ok(k)) = (self.fns.get(base).cloned(), k.parse::<usize>()) else { continue };
            struct V(usize, usize, Option<Block>);
            impl<'ast> syn::visit::Visit<'ast> for V {
                fn visit_expr_async(&mut self, a: &'ast ExprAsync) {
                    if self.0 == self.1 {
                        self.2 = Some(a.block.clone());
                    }
                    self.0 += 1;
                    syn::visit::visit_expr_async(self, a);
                }
            }
            let mut v = V(0, k, None);
            syn::visit::Visit::visit_block(&mut v, &f.block);
            let Some(mut block) = v.2 else { continue };
            // names the enclosing body imports
            let uses: Vec<Stmt> = f.block.stmts.iter().filter(|s| matches!(s, Stmt::Item(Item::Use(_)))).cloned().collect();
            block.stmts.splice(0..0, uses);
            let mut sig = f.sig.clone();
            sig.asyncness = None;
            sig.output = ReturnType::Default;
            let ins: Vec<String> = c.params.iter().cloned().collect();
            let Ok(inputs) = parse_str::<Signature>(&format!("fn x({})", ins.join(", "))) else { continue };
            sig.inputs = inputs.inputs;
            sig.ident = Ident::new(&format!("{}__future{k}", f.sig.ident), sig.ident.span());
            let g = FnItem { key: c.key.clone(), sig, block, ..f.clone() };
            self.fns.insert(c.key.clone(), g);
        }
        for c in db.contracts.values() {
            let Some(f) = self.fns.get_mut(&c.key) else { continue };
            let Some(tr) = f.in_trait.clone() else { continue };
            struct S;
            impl syn::visit_mut::VisitMut for S {
                fn visit_ident_mut(&mut self, i: &mut Ident) {
                    if i == "Self" {
                        *i = Ident::new("VxS", i.span());
                    } else if i == "self" {
                        *i = Ident::new("__self", i.span());
                    }
                }
                fn visit_receiver_mut(&mut self, _: &mut Receiver) {}
            }
            use syn::visit_mut::VisitMut;
            S.visit_signature_mut(&mut f.sig);
            S.visit_block_mut(&mut f.block);
            for i in f.sig.inputs.iter_mut() {
                if let FnArg::Receiver(r) = i {
                    *i = match (&r.reference, r.mutability.is_some()) {
                        (None, _) => parse_quote!(__self: VxS),
                        (Some(_), false) => parse_quote!(__self: &VxS),
                        (Some(_), true) => parse_quote!(__self: &mut VxS),
                    };
                }
            }
            let trid = Ident::new(&tr, f.sig.ident.span());
            f.sig.generics.params.insert(0, parse_quote!(VxS: #trid));
            f.in_trait = None;
        }
    }
    fn add(&mut self, f: FnItem) {
        self.fns.insert(f.key.clone(), f);
    }
}

pub fn trait_str(p: &Path) -> String {
    let s = p.segments.last().unwrap();
    ts(s).replace("'static", "").replace("'a", "").replace("'de", "").replace("'_", "").replace("Cow<,str>", "CowStr").replace("<>", "")
}
