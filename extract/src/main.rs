//! Mechanical extraction of /repo/hydra/src into Verus files.
//! usage: vx-extract --src DIR --contracts DIR --unit FILE --out FILE --meta FILE [--stub KEY]...
mod db;
mod emit;
mod passes;
mod repo;

use std::collections::BTreeSet;

fn main() {
    let mut args = std::env::args().skip(1);
    let (mut src, mut con, mut unit, mut out, mut meta) = (None, None, None, None, None);
    let mut stubs: BTreeSet<String> = BTreeSet::new();
    let mut probe = false;
    while let Some(a) = args.next() {
        match a.as_str() {
            "--src" => src = args.next(),
            "--contracts" => con = args.next(),
            "--unit" => unit = args.next(),
            "--out" => out = args.next(),
            "--meta" => meta = args.next(),
            "--stub" => {
                stubs.insert(args.next().unwrap());
            }
            "--probe" => probe = true,
            _ => panic!("unknown argument {a}"),
        }
    }
    let unit = unit.unwrap();
    let src = src.unwrap();
    let mut dirs = vec![src.clone()];
    for l in std::fs::read_to_string(&unit).unwrap().lines() {
        if let Some(c) = l.strip_prefix("crate:") {
            dirs.extend(c.split_whitespace().map(|c| format!("{src}/../../{c}/src")));
        }
    }
    let mut repo = repo::Repo::load(&dirs);
    let stem = std::path::Path::new(&unit).file_stem().unwrap().to_string_lossy().to_string();
    let db = db::Db::load(&con.unwrap(), &stem);
    repo.derive(&db);
    let unit = db::Unit::load(&unit, &db);
    let (text, m) = emit::emit(&repo, &db, &unit, &stubs, probe);
    std::fs::write(out.unwrap(), text).unwrap();
    std::fs::write(meta.unwrap(), serde_json::to_string_pretty(&m).unwrap()).unwrap();
}
