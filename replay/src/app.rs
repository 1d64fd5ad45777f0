//! Applications: `run` in a child process that gets signals, `test` in this one (C31).
use crate::harness::*;
use crate::Case;
use hydra::*;
use std::io::{BufRead, BufReader};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::time::{Duration, Instant};

const Q: [&str; 1] = ["C31"];

#[derive(Clone, Debug)]
struct Plan {
    graceful: bool,
    limit: u64,
    /// 0 starts, 1 fails to start, 2 panics
    start: u64,
    /// the main process ends by itself after this time, with this reason (0 normal, 1 custom, 2 kill, 3 panic, 4 shutdown); 0: never
    own: u64,
    why: u64,
    /// traps exits and takes this long to clean up; 0: dies of the signal; 9999: never ends
    clean: u64,
    /// another linked process ends first
    other: bool,
    /// nothing, SIGTERM, SIGINT
    signal: u64,
}
impl Plan {
    fn new(seed: u64) -> Plan {
        let mut r = Rng::new(seed);
        let graceful = r.chance(80);
        let signal = if graceful && r.chance(75) { 1 + r.below(2) as u64 } else { 0 };
        let clean = if signal > 0 { [0, 30, 30, 9999][r.below(4)] } else { [0, 30][r.below(2)] };
        Plan { graceful, limit: if clean == 9999 { 60 + r.below(80) as u64 } else { 3000 }, start: if r.chance(12) { 1 + r.below(2) as u64 } else { 0 }, own: if signal == 0 { 1 + r.below(60) as u64 } else { 0 }, why: r.below(5) as u64, clean, other: r.chance(50), signal }
    }
    fn args(&self) -> Vec<String> {
        [self.graceful as u64, self.limit, self.start, self.own, self.why, self.clean, self.other as u64, self.signal].iter().map(|x| x.to_string()).collect()
    }
    fn parse(a: &[String]) -> Plan {
        let v: Vec<u64> = a.iter().map(|x| x.parse().unwrap()).collect();
        Plan { graceful: v[0] == 1, limit: v[1], start: v[2], own: v[3], why: v[4], clean: v[5], other: v[6] == 1, signal: v[7] }
    }
}
static ENDED: AtomicBool = AtomicBool::new(false);
static ASKED: AtomicBool = AtomicBool::new(false);

struct App(Plan);
fn reason(k: u64) -> Option<ExitReason> {
    match k {
        1 => Some(ExitReason::from("broken")),
        2 => Some(ExitReason::Kill),
        4 => Some(ExitReason::from("shutdown")),
        _ => None,
    }
}
async fn main_process(p: Plan) {
    if p.clean > 0 {
        Process::set_flags(ProcessFlags::TRAP_EXIT);
    }
    let own = if p.own > 0 { Duration::from_millis(p.own) } else { Duration::from_secs(60) };
    let by = tokio::time::Instant::now() + own;
    loop {
        match tokio::time::timeout_at(by, Process::receive::<u8>()).await {
            Err(_) => break,
            Ok(Message::System(SystemMessage::Exit(_, e))) if e == "shutdown" => {
                ASKED.store(true, SeqCst);
                println!("asked");
                tokio::time::sleep(Duration::from_millis(if p.clean == 9999 { 60_000 } else { p.clean })).await;
                ENDED.store(true, SeqCst);
                return;
            }
            _ => {}
        }
    }
    ENDED.store(true, SeqCst);
    match reason(p.why) {
        Some(r) => {
            Process::exit(Process::current(), r);
            std::future::pending::<()>().await;
        }
        None if p.why == 3 => panic!("broken"),
        None => {}
    }
}
impl Application for App {
    fn config() -> ApplicationConfig {
        let p = Plan::parse(&std::env::args().skip(2).collect::<Vec<_>>());
        ApplicationConfig::default().with_graceful_shutdown(p.graceful).with_graceful_shutdown_timeout(Duration::from_millis(p.limit))
    }
    async fn start(&self) -> Result<Pid, ExitReason> {
        match self.0.start {
            1 => return Err(reason(self.0.why).unwrap_or(ExitReason::Ignore)),
            2 => panic!("broken"),
            _ => {}
        }
        if self.0.other {
            Process::spawn_link(async { Process::exit(Process::current(), ExitReason::from("another")); std::future::pending::<()>().await });
        }
        let p = self.0.clone();
        Ok(Process::spawn_link(main_process(p)))
    }
}
/// `replay --app PLAN..`
pub fn child(a: &[String]) {
    let p = Plan::parse(a);
    println!("go");
    App(p).run();
    println!("returned {} {}", ENDED.load(SeqCst), ASKED.load(SeqCst));
}
fn listens(pid: u32) -> bool {
    let t = std::fs::read_to_string(format!("/proc/{pid}/status")).unwrap_or_default();
    t.lines().filter_map(|l| l.strip_prefix("SigCgt:")).any(|l| u64::from_str_radix(l.trim(), 16).unwrap_or(0) & 0x4002 == 0x4002)
}
fn run_case(seed: u64) -> R {
    let p = Plan::new(seed);
    let mut tr = vec![format!("{p:?}")];
    let Ok(mut c) = Command::new(std::env::current_exe().unwrap()).arg("--app").args(p.args()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() else { return Ok(()) };
    let r = run_child(&p, &mut c, &mut tr);
    let _ = c.kill();
    let _ = c.wait();
    r
}
fn run_child(p: &Plan, c: &mut std::process::Child, tr: &mut Vec<String>) -> R {
    let (tx, rx) = std::sync::mpsc::channel();
    let out = c.stdout.take().unwrap();
    std::thread::spawn(move || {
        for l in BufReader::new(out).lines().map_while(Result::ok) {
            let _ = tx.send((Instant::now(), l));
        }
    });
    let mut sent = None;
    if p.signal > 0 && p.start == 0 {
        let end = Instant::now() + Duration::from_secs(10);
        while !listens(c.id()) && Instant::now() < end {
            std::thread::sleep(Duration::from_millis(1));
        }
        ensure!(Q, tr, listens(c.id()), "an application with graceful shutdown does not listen for signals");
        std::thread::sleep(Duration::from_millis(30));
        sent = Some(Instant::now());
        let _ = Command::new("sh").arg("-c").arg(format!("kill -{} {}", if p.signal == 1 { "TERM" } else { "INT" }, c.id())).status();
    }
    let end = Instant::now() + Duration::from_secs(12);
    let mut asked = None;
    loop {
        let Ok((t, l)) = rx.recv_timeout(end.saturating_duration_since(Instant::now())) else {
            return fail(&Q, format!("run has not returned ({:?})", c.try_wait()), tr);
        };
        tr.push(l.clone());
        if l == "asked" {
            asked = Some(t);
        }
        if let Some(l) = l.strip_prefix("returned ") {
            if p.start > 0 {
                break;
            }
            let forced = p.clean == 9999 || p.signal > 0 && p.clean == 0;
            ensure!(Q, tr, forced || l.starts_with("true"), "run has returned before the process has ended");
            if let Some(s) = sent {
                if p.clean > 0 {
                    ensure!(Q, tr, asked.is_some(), "the process was not asked to shut down");
                }
                let took = t.duration_since(s);
                ensure!(Q, tr, p.clean == 9999 || took < Duration::from_millis(p.limit), "the process was not asked to shut down, it ended after {took:?}");
                if p.clean == 9999 {
                    ensure!(Q, tr, took >= Duration::from_millis(p.limit), "the process was killed after {took:?} of {} ms", p.limit);
                    ensure!(Q, tr, took <= Duration::from_millis(p.limit + 5000), "the process was killed only after {took:?}");
                }
            } else {
                ensure!(Q, tr, asked.is_none(), "the process was asked to shut down without a signal");
            }
            break;
        }
    }
    Ok(())
}
struct Tested(Plan);
impl Application for Tested {
    async fn start(&self) -> Result<Pid, ExitReason> {
        App(self.0.clone()).start().await
    }
}
fn test_case(seed: u64) -> R {
    let mut r = Rng::new(seed);
    let p = Plan { graceful: false, limit: 1000, start: if r.chance(40) { 1 + r.below(2) as u64 } else { 0 }, own: 1 + r.below(5) as u64, why: r.below(5) as u64, clean: if r.chance(50) { 1 } else { 0 }, other: r.chance(50), signal: 0 };
    let mut tr = vec![format!("test {p:?}")];
    let bad = match p.start {
        0 => {
            // a self exit ends a trapping process as well
            ![0, 4].contains(&p.why)
        }
        1 => p.why != 4,
        _ => true,
    };
    // the other linked process takes the main process' starter with it only if it does not trap exits
    let q = p.clone();
    let got = std::panic::catch_unwind(move || Tested(q).test()).is_err();
    tr.push(format!("panicked: {got}"));
    ensure!(Q, tr, got == bad, "test {} although the application {}", if got { "panics" } else { "passes" }, if bad { "has not ended cleanly" } else { "has ended cleanly" });
    Ok(())
}
pub fn cases(v: &mut Vec<Case>) {
    v.push(Case { name: "application_run", props: &Q, random: true, limit: 0, f: run_case });
    v.push(Case { name: "application_test", props: &Q, random: true, limit: 400, f: test_case });
}
