//! Executable contracts: runs the scenarios of one property against the real crate.
//! usage: replay PROP SEED SECONDS OUT.json
#[macro_use]
mod harness;
mod app;
mod frames;
mod gens;
mod misc;
mod names;
mod peers;
mod procs;
mod recv;
mod regs;
mod ring;
mod sup;
mod ws;

use harness::*;
use std::time::{Duration, Instant};

pub struct Case {
    pub name: &'static str,
    pub props: &'static [&'static str],
    /// run repeatedly with different seeds until the budget is used
    pub random: bool,
    pub limit: u64,
    pub f: fn(u64) -> R,
}
fn cases() -> Vec<Case> {
    let mut v = vec![];
    procs::cases(&mut v);
    recv::cases(&mut v);
    regs::cases(&mut v);
    ring::cases(&mut v);
    gens::cases(&mut v);
    frames::cases(&mut v);
    misc::cases(&mut v);
    names::cases(&mut v);
    peers::cases(&mut v);
    peers::more_cases(&mut v);
    sup::cases(&mut v);
    ws::cases(&mut v);
    app::cases(&mut v);
    v
}
/// one fresh single threaded runtime per case
pub fn rt<F: std::future::Future<Output = R>>(f: F) -> R {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let r = rt.block_on(f);
    drop(rt);
    r
}
fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o
}
fn run_one(f: fn(u64) -> R, seed: u64, secs: u64, props: &'static [&'static str]) -> R {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let r = std::panic::catch_unwind(|| f(seed));
        let _ = tx.send(r);
    });
    match rx.recv_timeout(Duration::from_secs(secs)) {
        Ok(Ok(r)) => r,
        Ok(Err(e)) => Err(Fail { props: props.to_vec(), what: format!("the operation panicked: {}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()), trace: vec![] }),
        Err(_) => Err(Fail { props: props.to_vec(), what: format!("no progress within {secs} s (the operations below never completed)"), trace: vec![] }),
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "--app" {
        return app::child(&a[2..]);
    }
    let prop: &'static str = Box::leak(a[1].clone().into_boxed_str());
    let seed: u64 = a[2].parse().unwrap();
    let secs: f64 = a[3].parse().unwrap();
    let only = a.get(5).cloned();
    let verbose = std::env::var("REPLAY_LOG").is_ok();
    if !verbose {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let all: Vec<Case> = cases().into_iter().filter(|c| c.props.contains(&prop) && only.as_ref().map_or(true, |o| o == c.name)).collect();
    let mut log = vec![];
    let mut failure: Option<(String, u64, Fail)> = None;
    let n_random = all.iter().filter(|c| c.random).count().max(1);
    for c in all.iter() {
        let start = Instant::now();
        let budget = if c.random { secs / n_random as f64 } else { 0.0 };
        let mut n = 0u64;
        let mut soft = 0;
        loop {
            let s = if c.random { seed.wrapping_mul(1_000_003).wrapping_add(n) } else { seed };
            let s = std::env::var("REPLAY_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(s);
            if a[4] != "/dev/null" {
                // for the checker, when this process crashes
                let _ = std::fs::write(format!("{}.cur", a[4]), format!("{} {}", c.name, s));
            }
            let r = run_one(c.f, s, 90, c.props);
            n += 1;
            if let Err(f) = r {
                if f.props.contains(&prop) {
                    // a failure counts when the same input fails again, or when the case fails repeatedly
                    let again = (0..3).any(|_| matches!(run_one(c.f, s, 90, c.props), Err(g) if g.props.contains(&prop)));
                    soft += 1;
                    if again || soft >= 3 || c.limit == 1 {
                        failure = Some((c.name.into(), s, f));
                        break;
                    }
                } else if verbose {
                    println!("other: {} {:?} {}", c.name, f.props, f.what);
                }
            }
            if start.elapsed().as_secs_f64() >= budget || (c.limit > 0 && n >= c.limit) {
                break;
            }
        }
        log.push((c.name, n, start.elapsed().as_secs_f64()));
        if failure.is_some() {
            break;
        }
    }
    let mut o = String::from("{\"cases\":[");
    for (i, (n, k, t)) in log.iter().enumerate() {
        o.push_str(&format!("{}{{\"name\":\"{}\",\"runs\":{},\"seconds\":{:.2}}}", if i > 0 { "," } else { "" }, n, k, t));
    }
    o.push_str("],\"failure\":");
    match &failure {
        None => o.push_str("null"),
        Some((n, s, f)) => {
            o.push_str(&format!("{{\"case\":\"{}\",\"seed\":{},\"what\":\"{}\",\"trace\":[", n, s, esc(&f.what)));
            for (i, t) in f.trace.iter().enumerate() {
                o.push_str(&format!("{}\"{}\"", if i > 0 { "," } else { "" }, esc(t)));
            }
            o.push_str("]}");
        }
    }
    o.push('}');
    std::fs::write(&a[4], &o).unwrap();
    println!("{o}");
    // leave without waiting for stuck threads
    std::process::exit(if failure.is_some() { 3 } else { 0 });
}
