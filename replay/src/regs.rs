//! The keyed registry against a model of its keys (C17).
use crate::harness::*;
use crate::{rt, Case};
use futures_util::FutureExt;
use hydra::*;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

const Q: [&str; 1] = ["C17"];
static NAMES: AtomicU64 = AtomicU64::new(0);

#[derive(Default)]
struct Shared {
    /// keys in the order their start routine ran
    started: Vec<RegistryKey>,
    fails: bool,
    traps: bool,
    slow: u64,
}
type S = Arc<Mutex<Shared>>;
fn key(n: usize) -> RegistryKey {
    match n {
        0 => RegistryKey::from(1i32),
        1 => RegistryKey::from(1i64),
        2 => RegistryKey::from(1u32),
        3 => RegistryKey::from("1"),
        _ => RegistryKey::from(String::from("k")),
    }
}
#[derive(Debug, PartialEq, Clone)]
enum A {
    Pid(Pid),
    Opt(Option<Pid>),
    Unit,
    Count(usize),
    List(Vec<(RegistryKey, Pid)>),
    Already(Pid),
    Failed(ExitReason),
    Unsupported,
    NotFound,
    Call,
}
fn err(e: RegistryError) -> A {
    match e {
        RegistryError::CallError(_) => A::Call,
        RegistryError::StartError(r) => A::Failed(r),
        RegistryError::StartNotSupported => A::Unsupported,
        RegistryError::AlreadyStarted(p) => A::Already(p),
        RegistryError::NotFound => A::NotFound,
    }
}
#[derive(Debug, Clone)]
enum Op {
    Lookup(RegistryKey),
    LookupOrStart(RegistryKey),
    Start(RegistryKey),
    Stop(RegistryKey),
    Remove(RegistryKey),
    Count,
    List,
}
async fn ask(ctl: &Puppet, d: Dest, op: Op) -> Result<A, CallErr> {
    ctl.call_async(move || {
        async move {
            let t = Some(Duration::from_secs(5));
            match op {
                Op::Lookup(k) => Registry::lookup(d, k, t).await.map_or_else(err, A::Opt),
                Op::LookupOrStart(k) => Registry::lookup_or_start(d, k, t).await.map_or_else(err, A::Pid),
                Op::Start(k) => Registry::start_process(d, k, t).await.map_or_else(err, A::Pid),
                Op::Stop(k) => Registry::stop_process(d, k, t).await.map_or_else(err, |_| A::Unit),
                Op::Remove(k) => Registry::remove(d, k, t).await.map_or_else(err, A::Opt),
                Op::Count => Registry::count(d, t).await.map_or_else(err, A::Count),
                Op::List => Registry::list(d, t).await.map_or_else(err, |mut l| {
                    l.sort();
                    A::List(l)
                }),
            }
        }
        .boxed()
    })
    .await
}
fn registry(name: &str, s: &S, with_start: bool) -> Registry {
    let r = Registry::new(name);
    if !with_start {
        return r;
    }
    let s = s.clone();
    r.with_start(move |k: RegistryKey| {
        let s = s.clone();
        async move {
            let (fails, traps, slow) = {
                let mut g = s.lock().unwrap();
                g.started.push(k.clone());
                (g.fails, g.traps, g.slow)
            };
            if slow > 0 {
                tokio::time::sleep(Duration::from_millis(slow)).await;
            }
            if fails {
                return Err(ExitReason::from("no start"));
            }
            Ok(Process::spawn_link(async move {
                if traps {
                    Process::set_flags(ProcessFlags::TRAP_EXIT);
                }
                std::future::pending::<()>().await
            }))
        }
    })
}
async fn watch(mon: &Puppet, p: Pid) -> bool {
    mon.call(move || {
        Process::monitor(p);
    })
    .await
    .is_ok()
}
/// why each of the watched processes went down
async fn downs(mon: &Puppet) -> BTreeMap<Pid, ExitReason> {
    let mut m = BTreeMap::new();
    for i in mon.drain().await.unwrap_or_default() {
        if let Item::Down(Dest::Pid(p), _, r) = i {
            m.insert(p, r);
        }
    }
    m
}
async fn model(seed: u64) -> R {
    let mut g = Rng::new(seed);
    let mut t: Vec<String> = vec![];
    let name = format!("registry{}", NAMES.fetch_add(1, Ordering::Relaxed));
    let s: S = Default::default();
    let with_start = !g.chance(7);
    let how = [None, Some(Shutdown::BrutalKill), Some(Shutdown::Infinity), Some(Shutdown::Duration(Duration::from_millis(40)))][g.below(4)];
    let renamed = g.chance(30);
    let (ctl, mon, parent, bystander) = (Puppet::spawn(), Puppet::spawn(), Puppet::spawn(), Puppet::spawn());
    let mut reg = registry(if renamed { "another name" } else { &name }, &s, with_start);
    if let Some(h) = how {
        reg = reg.with_shutdown(h);
    }
    t.push(format!("registry {name} renamed={renamed} start routine={with_start} shutdown={how:?}"));
    let opts = if renamed { RegistryOptions::new().name(name.clone()) } else { RegistryOptions::new() };
    let copy = if g.chance(50) { Some(reg.clone()) } else { None };
    let link = g.chance(50);
    let pid = parent.call_async(move || async move { if link { reg.start_link(opts).await } else { reg.start(opts).await } }.boxed()).await;
    ensure!(Q, t, matches!(pid, Ok(Ok(_))), "the registry did not start: {pid:?}");
    let pid = pid.unwrap().unwrap();
    drop(copy);
    let mut model: BTreeMap<RegistryKey, Pid> = BTreeMap::new();
    let mut trapping: Vec<Pid> = vec![];
    let mut free: Vec<Pid> = vec![];
    let mut want_down: BTreeMap<Pid, ExitReason> = BTreeMap::new();
    let mut starts = vec![];
    watch(&mon, bystander.pid).await;
    for _ in 0..(3 + g.below(16)) {
        let k = key(g.below(5));
        let named = g.chance(50);
        let dest: Dest = if named { Dest::from(name.clone()) } else { Dest::from(pid) };
        let fails = g.chance(15);
        let traps = g.chance(25) && !matches!(how, Some(Shutdown::Infinity));
        {
            let mut x = s.lock().unwrap();
            x.fails = fails;
            x.traps = traps;
        }
        if g.chance(20) && !model.is_empty() {
            let k = model.keys().nth(g.below(model.len())).unwrap().clone();
            let p = model[&k];
            t.push(format!("the process of {k:?} is killed"));
            let _ = ctl.call(move || Process::exit(p, ExitReason::Kill)).await;
            wait_for(2000, || !Process::alive(p)).await;
            settle().await;
            want_down.insert(p, ExitReason::from("killed"));
            model.remove(&k);
            continue;
        }
        if g.chance(8) && !free.is_empty() {
            let p = free.remove(g.below(free.len()));
            t.push("a process that was removed before is killed".into());
            let _ = ctl.call(move || Process::exit(p, ExitReason::Kill)).await;
            wait_for(2000, || !Process::alive(p)).await;
            settle().await;
            want_down.insert(p, ExitReason::from("killed"));
            continue;
        }
        let op = match g.below(10) {
            0 => Op::Lookup(k.clone()),
            1 | 2 => Op::LookupOrStart(k.clone()),
            3 | 4 | 5 => Op::Start(k.clone()),
            6 => Op::Stop(k.clone()),
            7 => Op::Remove(k.clone()),
            8 => Op::Count,
            _ => Op::List,
        };
        t.push(format!("{op:?} by {} fails={fails} traps={traps}", if named { "name" } else { "pid" }));
        let have = model.get(&k).copied();
        let r = ask(&ctl, dest, op.clone()).await;
        ensure!(Q, t, r.is_ok(), "the caller failed: {r:?}");
        let r = r.unwrap();
        let mut fresh = |r: &A, model: &mut BTreeMap<RegistryKey, Pid>| -> Result<A, ()> {
            if !with_start {
                return Ok(A::Unsupported);
            }
            starts.push(k.clone());
            if fails {
                return Ok(A::Failed(ExitReason::from("no start")));
            }
            match r {
                A::Pid(p) if Process::alive(*p) && !model.values().any(|q| q == p) => {
                    model.insert(k.clone(), *p);
                    if traps {
                        trapping.push(*p);
                    }
                    Ok(A::Pid(*p))
                }
                _ => Err(()),
            }
        };
        let want = match &op {
            Op::Lookup(_) => A::Opt(have),
            Op::LookupOrStart(_) | Op::Start(_) => match (have, matches!(op, Op::Start(_))) {
                (Some(p), true) => A::Already(p),
                (Some(p), false) => A::Pid(p),
                (None, _) => match fresh(&r, &mut model) {
                    Ok(a) => a,
                    Err(_) => return fail(&Q, format!("starting a key without a process returned {r:?}"), &t),
                },
            },
            Op::Stop(_) => match have {
                Some(p) => {
                    model.remove(&k);
                    if trapping.contains(&p) {
                        free.push(p);
                    } else {
                        want_down.insert(p, ExitReason::from("shutdown"));
                    }
                    A::Unit
                }
                None => A::NotFound,
            },
            Op::Remove(_) => {
                if let Some(p) = have {
                    model.remove(&k);
                    free.push(p);
                }
                A::Opt(have)
            }
            Op::Count => A::Count(model.len()),
            Op::List => {
                let mut l: Vec<_> = model.clone().into_iter().collect();
                l.sort();
                A::List(l)
            }
        };
        ensure!(Q, t, r == want, "answered {r:?}, expected {want:?}");
        if let A::Pid(p) = r {
            watch(&mon, p).await;
        }
        settle().await;
    }
    let ran = s.lock().unwrap().started.clone();
    ensure!(Q, t, ran == starts, "the start routine ran for {ran:?}, expected {starts:?}");
    // the end
    let end = g.below(3);
    t.push(["the registry is stopped", "the registry is killed", "the registry is stopped with a crash reason"][end].into());
    let r = ctl
        .call_async(move || {
            async move {
                match end {
                    0 => GenServerStop::stop(pid, ExitReason::Normal).await,
                    1 => {
                        Process::exit(pid, ExitReason::Kill);
                        true
                    }
                    _ => GenServerStop::stop(pid, ExitReason::from("crash")).await,
                }
            }
            .boxed()
        })
        .await;
    ensure!(Q, t, r == Ok(true), "the registry did not stop: {r:?}");
    ensure!(Q, t, wait_for(3000, || !Process::alive(pid)).await, "the registry goes on");
    let brutal = end == 1 || how.is_none() || matches!(how, Some(Shutdown::BrutalKill));
    let infinite = matches!(how, Some(Shutdown::Infinity)) && end != 1;
    for p in model.values() {
        let e = if brutal || trapping.contains(p) { ExitReason::from("killed") } else { ExitReason::from("shutdown") };
        if infinite && trapping.contains(p) {
            return fail(&Q, "the registry ended although a process it waits for is running", &t);
        }
        want_down.insert(*p, e);
    }
    let n = want_down.len();
    let mut got = BTreeMap::new();
    for _ in 0..200 {
        got.extend(downs(&mon).await);
        if got.len() >= n {
            break;
        }
        tokio::time::sleep(Duration::from_millis(2)).await;
    }
    settle().await;
    got.extend(downs(&mon).await);
    let norm = |m: &BTreeMap<Pid, ExitReason>| -> BTreeMap<Pid, String> { m.iter().map(|(p, r)| (*p, if r.is_kill() { "killed".to_string() } else { format!("{r:?}") })).collect() };
    let (got, want): (BTreeMap<_, _>, BTreeMap<_, _>) = (got.iter().map(|(p, r)| (*p, norm(&BTreeMap::from([(*p, r.clone())]))[p].replace("Custom(\"killed\")", "killed"))).collect(), want_down.iter().map(|(p, r)| (*p, norm(&BTreeMap::from([(*p, r.clone())]))[p].replace("Custom(\"killed\")", "killed"))).collect());
    ensure!(Q, t, got == want, "processes went down: {got:?}\nexpected: {want:?}");
    for p in &free {
        ensure!(Q, t, Process::alive(*p), "a removed process went down with the registry");
    }
    let r = ask(&ctl, Dest::from(name.clone()), Op::Count).await;
    ensure!(Q, t, r == Ok(A::Count(0)), "after the end count answered {r:?}");
    Ok(())
}
struct GenServerStop;
impl GenServerStop {
    async fn stop(p: Pid, r: ExitReason) -> bool {
        <Registry as GenServer>::stop(p, r, Some(Duration::from_secs(4))).await.is_ok()
    }
}
/// a process is removed and its key started again while the registry is about to stop
async fn removed_restarted(how: Shutdown, brutal: bool) -> R {
    let mut t: Vec<String> = vec![];
    let name = format!("registry{}", NAMES.fetch_add(1, Ordering::Relaxed));
    let s: S = Default::default();
    let (ctl, a, b, c) = (Puppet::spawn(), Puppet::spawn(), Puppet::spawn(), Puppet::spawn());
    let reg = registry(&name, &s, true).with_shutdown(how);
    let pid = ctl.call_async(move || async move { reg.start(RegistryOptions::new()).await }.boxed()).await;
    ensure!(Q, t, matches!(pid, Ok(Ok(_))), "the registry did not start: {pid:?}");
    let pid = pid.unwrap().unwrap();
    let p1 = match ask(&ctl, Dest::from(pid), Op::Start(key(0))).await {
        Ok(A::Pid(p)) => p,
        x => return fail(&Q, format!("start answered {x:?}"), &t),
    };
    t.push("start 1; (while the registry starts a slow process:) start 1 by pid, stop the registry, remove 1 by name".into());
    s.lock().unwrap().slow = 60;
    let n2 = name.clone();
    let (_, second, stopped, removed) = tokio::join!(
        ask(&ctl, Dest::from(pid), Op::Start(key(1))),
        async {
            tokio::time::sleep(Duration::from_millis(10)).await;
            s.lock().unwrap().slow = 0;
            ask(&a, Dest::from(pid), Op::Start(key(0))).await
        },
        async {
            tokio::time::sleep(Duration::from_millis(20)).await;
            b.call_async(move || async move { if brutal { Process::exit(pid, ExitReason::Kill); } else { GenServerStop::stop(pid, ExitReason::Normal).await; } }.boxed()).await
        },
        async {
            tokio::time::sleep(Duration::from_millis(if brutal { 15 } else { 30 })).await;
            ask(&c, Dest::from(n2), Op::Remove(key(0))).await
        },
    );
    let _ = (stopped, second);
    ensure!(Q, t, removed == Ok(A::Opt(Some(p1))), "remove answered {removed:?}");
    ensure!(Q, t, wait_for(3000, || !Process::alive(pid)).await, "the registry goes on");
    settle().await;
    ensure!(Q, t, Process::alive(p1), "a removed process was shut down with the registry (shutdown {how:?})");
    Ok(())
}
/// the registry answers no start after its process was killed; a new one of the same name starts empty
async fn reborn() -> R {
    let mut t: Vec<String> = vec![];
    let name = format!("registry{}", NAMES.fetch_add(1, Ordering::Relaxed));
    let s: S = Default::default();
    let ctl = Puppet::spawn();
    for round in 0..3 {
        let reg = registry(&name, &s, true);
        let spare = registry(&name, &s, true);
        let pid = ctl.call_async(move || async move { reg.start(RegistryOptions::new()).await }.boxed()).await;
        ensure!(Q, t, matches!(pid, Ok(Ok(_))), "the registry did not start: {pid:?}");
        let pid = pid.unwrap().unwrap();
        t.push(format!("round {round}"));
        let r = ask(&ctl, Dest::from(name.clone()), Op::Count).await;
        ensure!(Q, t, r == Ok(A::Count(0)), "a new registry has {r:?} processes");
        let p = ask(&ctl, Dest::from(name.clone()), Op::LookupOrStart(key(3))).await;
        ensure!(Q, t, matches!(p, Ok(A::Pid(_))), "lookup_or_start answered {p:?}");
        let again = ctl.call_async(move || async move { spare.start(RegistryOptions::new()).await }.boxed()).await;
        ensure!(Q, t, matches!(again, Ok(Err(_))), "a second registry of the name started: {again:?}");
        let r = ask(&ctl, Dest::from(name.clone()), Op::Count).await;
        ensure!(Q, t, r == Ok(A::Count(1)), "after the start of another registry of the name failed, count answered {r:?}");
        let _ = ctl.call(move || Process::exit(pid, ExitReason::Kill)).await;
        wait_for(2000, || !Process::alive(pid)).await;
        settle().await;
    }
    Ok(())
}
pub fn cases(v: &mut Vec<Case>) {
    v.push(Case { name: "registry_removed_restarted_infinity", props: &Q, random: false, limit: 3, f: |_| rt(removed_restarted(Shutdown::Infinity, false)) });
    v.push(Case { name: "registry_removed_restarted_duration", props: &Q, random: false, limit: 3, f: |_| rt(removed_restarted(Shutdown::Duration(Duration::from_millis(50)), false)) });
    v.push(Case { name: "registry_removed_restarted_brutal", props: &Q, random: false, limit: 3, f: |_| rt(removed_restarted(Shutdown::BrutalKill, false)) });
    v.push(Case { name: "registry_reborn", props: &Q, random: false, limit: 3, f: |_| rt(reborn()) });
    v.push(Case { name: "registry_model", props: &Q, random: true, limit: 0, f: |s| rt(model(s)) });
}
