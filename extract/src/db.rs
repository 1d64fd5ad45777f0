//! Contract database: contracts/*.vc, prelude files and unit files.
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Default, Debug)]
pub struct Contract {
    pub key: String,
    pub module: String,
    pub params: Vec<String>,
    pub flags: BTreeSet<String>,
    pub opts: BTreeMap<String, String>,
    /// requires/ensures text
    pub spec: String,
    /// section name -> text ("loop 0", "before_loop 0", "entry", ...)
    pub sections: BTreeMap<String, String>,
    pub file: String,
    pub line: usize,
}
impl Contract {
    pub fn world(&self) -> bool {
        !self.flags.contains("nw")
    }
    /// last component: function name
    pub fn name(&self) -> &str {
        self.key.rsplit("::").next().unwrap()
    }
    /// "Type" for methods
    pub fn ty(&self) -> Option<String> {
        let rest = &self.key[self.module.len() + 2..];
        if rest.contains("::") {
            let t = &rest[..rest.rfind("::").unwrap()];
            Some(t.split('#').next().unwrap().to_string())
        } else {
            None
        }
    }
}

#[derive(Default, Debug)]
pub struct Db {
    pub dir: String,
    pub contracts: BTreeMap<String, Contract>,
    pub order: Vec<String>,
}

fn tokens(s: &str) -> Vec<String> {
    s.split_whitespace().map(|x| x.to_string()).collect()
}

impl Db {
    pub fn load(dir: &str, unit: &str) -> Db {
        let mut db = Db { dir: dir.to_string(), ..Default::default() };
        let mut files: Vec<_> = std::fs::read_dir(dir)
            .unwrap()
            .map(|e| e.unwrap().path())
            .filter(|p| p.extension().map(|e| e == "vc").unwrap_or(false))
            .collect();
        files.sort();
        for f in files {
            let text = std::fs::read_to_string(&f).unwrap();
            let fname = f.file_name().unwrap().to_string_lossy().to_string();
            // `@units a b` on the first line: only these units load this file
            if let Some(us) = text.lines().next().and_then(|l| l.strip_prefix("@units ")) {
                if !us.split_whitespace().any(|u| u == unit) {
                    continue;
                }
            }
            let mut cur: Option<Contract> = None;
            let mut section: Option<String> = None;
            let finish = |c: Option<Contract>, db: &mut Db| {
                if let Some(c) = c {
                    // an `override` contract replaces the one other units use
                    match db.contracts.get(&c.key).map(|o| (o.flags.contains("override"), c.flags.contains("override"))) {
                        None => {
                            db.order.push(c.key.clone());
                            db.contracts.insert(c.key.clone(), c.clone());
                        }
                        Some((false, true)) => {
                            db.contracts.insert(c.key.clone(), c.clone());
                        }
                        Some((true, false)) => {}
                        _ => panic!("duplicate contract {}", c.key),
                    }
                }
            };
            for (n, line) in text.lines().enumerate() {
                let t = line.trim();
                if n == 0 && t.starts_with("@units ") {
                    continue;
                }
                if let Some(rest) = t.strip_prefix("@fn ") {
                    finish(cur.take(), &mut db);
                    let open = rest.find('(').expect("@fn needs (params)");
                    // the key may itself contain parens only inside <...>; find the '(' after the last "::name"
                    let open = {
                        let mut depth = 0;
                        let mut pos = open;
                        for (i, ch) in rest.char_indices() {
                            match ch {
                                '<' => depth += 1,
                                '>' => depth -= 1,
                                '(' if depth == 0 => {
                                    pos = i;
                                    break;
                                }
                                _ => {}
                            }
                        }
                        pos
                    };
                    let close = rest[open..].find(')').unwrap() + open;
                    let key = rest[..open].trim().to_string();
                    let module = key.split("::").next().unwrap().to_string();
                    let params = rest[open + 1..close]
                        .split(',')
                        .map(|x| x.trim().to_string())
                        .filter(|x| !x.is_empty())
                        .collect();
                    let mut flags = BTreeSet::new();
                    let mut opts = BTreeMap::new();
                    for f in tokens(&rest[close + 1..]) {
                        if let Some((a, b)) = f.split_once('=') {
                            opts.insert(a.to_string(), b.to_string());
                        } else {
                            flags.insert(f);
                        }
                    }
                    cur = Some(Contract { key, module, params, flags, opts, file: fname.clone(), line: n + 1, ..Default::default() });
                    section = None;
                    continue;
                }
                if t.starts_with("//#") {
                    continue;
                }
                if t.starts_with('@') {
                    section = Some(t[1..].trim().to_string());
                    if let Some(c) = cur.as_mut() {
                        c.sections.entry(section.clone().unwrap()).or_default();
                    }
                    continue;
                }
                if let Some(c) = cur.as_mut() {
                    match &section {
                        None => {
                            c.spec.push_str(line);
                            c.spec.push('\n');
                        }
                        Some(s) => {
                            let e = c.sections.get_mut(s).unwrap();
                            e.push_str(line);
                            e.push('\n');
                        }
                    }
                }
            }
            finish(cur.take(), &mut db);
        }
        db
    }
}

#[derive(Default, Debug)]
pub struct Unit {
    pub name: String,
    pub prelude: Vec<(String, String)>,
    pub modules: Vec<String>,
    pub verify: Vec<String>,
    pub skip_types: BTreeSet<String>,
    pub hide: BTreeSet<String>,
    /// when not empty: the contracts of these modules count only where a pattern matches (`module::...`)
    pub only: Vec<String>,
    /// functions / methods with world defined by the prelude
    pub wfns: BTreeSet<String>,
    pub wmethods: BTreeSet<String>,
    /// prelude methods that take a closure with a specification
    pub hofns: BTreeSet<String>,
    /// async functions whose call as the argument of a spawn is the prelude's `vx_fut_NAME`
    pub futures: BTreeSet<String>,
}

pub fn glob(p: &str, s: &str) -> bool {
    if let Some(x) = p.strip_suffix('*') {
        s.starts_with(x)
    } else {
        p == s
    }
}

impl Unit {
    /// `only` patterns restrict the module they name
    pub fn allows(&self, key: &str) -> bool {
        let m = key.split("::").next().unwrap();
        let mut any = false;
        for p in &self.only {
            if p.split("::").next().unwrap() == m {
                any = true;
                if glob(p, key) {
                    return true;
                }
            }
        }
        !any
    }
    pub fn load(path: &str, db: &Db) -> Unit {
        let text = std::fs::read_to_string(path).unwrap();
        let mut u = Unit { name: std::path::Path::new(path).file_stem().unwrap().to_string_lossy().to_string(), ..Default::default() };
        for line in text.lines() {
            let line = line.split("//").next().unwrap().trim();
            if line.is_empty() {
                continue;
            }
            let (k, v) = line.split_once(':').unwrap();
            let v = v.trim();
            match k.trim() {
                "prelude" => {
                    for f in tokens(v) {
                        let t = std::fs::read_to_string(format!("{}/prelude/{}", db.dir, f)).unwrap();
                        u.prelude.push((f, t));
                    }
                }
                "modules" => u.modules.extend(tokens(v)),
                "verify" => {
                    for p in tokens(v) {
                        let mut any = false;
                        for k in &db.order {
                            if glob(&p, k) && u.allows(k) {
                                any = true;
                                if !db.contracts[k].flags.contains("trusted") && !u.verify.contains(k) {
                                    u.verify.push(k.clone());
                                }
                            }
                        }
                        if !any {
                            panic!("verify pattern {p} matches no contract");
                        }
                    }
                }
                "skip_types" => u.skip_types.extend(tokens(v)),
                "only" => u.only.extend(tokens(v)),
                "hide" => u.hide.extend(tokens(v)),
                // read by main: a further crate of the workspace whose modules are extracted as well
                "crate" => {}
                x => panic!("unknown unit key {x}"),
            }
        }
        for (_, t) in &u.prelude {
            for line in t.lines() {
                if let Some(r) = line.trim().strip_prefix("//@wfn ") {
                    u.wfns.extend(tokens(r));
                }
                if let Some(r) = line.trim().strip_prefix("//@wmethod ") {
                    u.wmethods.extend(tokens(r));
                }
                if let Some(r) = line.trim().strip_prefix("//@hofn ") {
                    u.hofns.extend(tokens(r));
                }
                if let Some(r) = line.trim().strip_prefix("//@future ") {
                    u.futures.extend(tokens(r));
                }
                if let Some(r) = line.trim().strip_prefix("//@skip_type ") {
                    u.skip_types.extend(tokens(r));
                }
            }
        }
        u
    }
}
