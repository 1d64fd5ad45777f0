//! GenServer calls against a model of the caller's mailbox (C10) and the life of a server against its event log (C11).
use crate::harness::*;
use crate::{rt, Case};
use futures_util::FutureExt;
use hydra::*;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Debug, Clone, PartialEq, serde::Serialize, serde::Deserialize)]
pub enum M {
    Echo(u64),
    Hold(u64),
    Release(u64),
    Answer(u64),
    Fail(String),
    Watch(Pid),
    Join(Pid),
    Ask(Pid, u64),
    Nap(u64),
}
#[derive(Clone, Debug, PartialEq)]
pub enum L {
    Init,
    Cast(M),
    Call(M),
    Info(M),
    Down(Pid),
    Exit(Pid, ExitReason),
    Terminate(ExitReason),
}
#[derive(Clone, Debug, PartialEq)]
enum Start {
    Ok,
    Err(String),
    Slow(u64),
    Panic,
}
#[derive(Default)]
struct Shared {
    log: Vec<L>,
    stash: BTreeMap<u64, hydra::From>,
    pid: Option<Pid>,
}
type S = Arc<Mutex<Shared>>;
struct Srv {
    s: S,
    start: Start,
    trap: bool,
    info_fails: Option<String>,
}
impl Srv {
    fn log(&self, l: L) {
        self.s.lock().unwrap().log.push(l);
    }
}
impl GenServer for Srv {
    type Message = M;
    async fn init(&mut self) -> Result<(), ExitReason> {
        self.log(L::Init);
        self.s.lock().unwrap().pid = Some(Process::current());
        if self.trap {
            Process::set_flags(ProcessFlags::TRAP_EXIT);
        }
        match &self.start {
            Start::Ok => Ok(()),
            Start::Err(r) => Err(ExitReason::from(r.as_str())),
            Start::Slow(ms) => {
                tokio::time::sleep(Duration::from_millis(*ms)).await;
                Ok(())
            }
            Start::Panic => panic!("init panics"),
        }
    }
    async fn terminate(&mut self, r: ExitReason) {
        self.log(L::Terminate(r));
    }
    async fn handle_cast(&mut self, m: M) -> Result<(), ExitReason> {
        self.log(L::Cast(m.clone()));
        match m {
            M::Release(v) => {
                let f = self.s.lock().unwrap().stash.get(&v).copied();
                if let Some(f) = f {
                    Srv::reply(f, M::Answer(v + 1000));
                }
                Ok(())
            }
            M::Fail(r) => Err(ExitReason::from(r)),
            M::Watch(p) => {
                Process::monitor(p);
                Ok(())
            }
            M::Join(p) => {
                Process::link(p);
                Ok(())
            }
            M::Ask(p, v) => {
                let _ = Srv::call(p, M::Hold(v), Some(Duration::from_millis(1))).await;
                Ok(())
            }
            M::Nap(ms) => {
                tokio::time::sleep(Duration::from_millis(ms)).await;
                Ok(())
            }
            _ => Ok(()),
        }
    }
    async fn handle_call(&mut self, m: M, from: hydra::From) -> Result<Option<M>, ExitReason> {
        self.log(L::Call(m.clone()));
        match m {
            M::Echo(v) => Ok(Some(M::Answer(v + 1000))),
            M::Hold(v) => {
                self.s.lock().unwrap().stash.insert(v, from);
                Ok(None)
            }
            M::Fail(r) => Err(ExitReason::from(r)),
            _ => Ok(None),
        }
    }
    async fn handle_info(&mut self, m: Message<M>) -> Result<(), ExitReason> {
        match m {
            Message::User(m) => self.log(L::Info(m)),
            Message::System(SystemMessage::ProcessDown(Dest::Pid(p), _, _)) => self.log(L::Down(p)),
            Message::System(SystemMessage::Exit(p, r)) => self.log(L::Exit(p, r)),
            Message::System(_) => {}
        }
        match self.info_fails.take() {
            Some(r) => Err(ExitReason::from(r)),
            None => Ok(()),
        }
    }
}
fn srv(s: &S) -> Srv {
    Srv { s: s.clone(), start: Start::Ok, trap: true, info_fails: None }
}
#[derive(Clone, Debug, PartialEq)]
enum Out {
    Ok(M),
    Timeout,
    Down(ExitReason),
}
impl std::convert::From<Result<M, CallError>> for Out {
    fn from(r: Result<M, CallError>) -> Out {
        match r {
            Ok(m) => Out::Ok(m),
            Err(CallError::Timeout(_)) => Out::Timeout,
            Err(CallError::ServerDown(r)) => Out::Down(r),
        }
    }
}
/// the u64 messages in the mailbox; Err when anything else is in it
async fn strict(p: &Puppet) -> Result<Vec<u64>, String> {
    let r = p
        .call(|| {
            let mut v = vec![];
            while let Some(m) = Process::receiver().for_message::<u64>().strict_type_checking().receive().now_or_never() {
                match m {
                    Message::User(u) => v.push(u),
                    Message::System(s) => return Err(format!("{s:?}")),
                }
            }
            Ok(v)
        })
        .await;
    match r {
        Ok(r) => r,
        Err(_) => Err("a message of another type (a reply)".into()),
    }
}
fn dest(by_name: bool, pid: Pid) -> Dest {
    if by_name {
        Dest::from("vx-call-server")
    } else {
        Dest::from(pid)
    }
}
async fn calls(seed: u64) -> R {
    const P: [&str; 1] = ["C10"];
    let mut g = Rng::new(seed);
    let mut t: Vec<String> = vec![];
    let ctl = Puppet::spawn();
    let n = 3;
    let callers: Vec<Puppet> = (0..n).map(|_| Puppet::spawn()).collect();
    let mut inbox: Vec<Vec<u64>> = vec![vec![]; n];
    let mut dirty = vec![false; n];
    let mut pending: Vec<Option<(u64, tokio::task::JoinHandle<Result<Out, CallErr>>)>> = (0..n).map(|_| None).collect();
    let s: S = Default::default();
    let opts = || GenServerOptions::new().name("vx-call-server");
    let mut pid = {
        let v = srv(&s);
        ctl.call_async(move || async move { v.start(opts()).await }.boxed()).await.ok().and_then(|r| r.ok()).unwrap()
    };
    let mut late: Vec<(usize, u64)> = vec![];
    let mut k = 0u64;
    for _ in 0..30 {
        k += 1;
        let c = g.below(n);
        let by_name = g.chance(30);
        match g.below(9) {
            0 | 1 => {
                t.push(format!("send {k} to caller {c}"));
                Process::send(callers[c].pid, k);
                inbox[c].push(k);
            }
            2 | 3 if pending[c].is_none() => {
                t.push(format!("caller {c}: call Echo({k})"));
                let d = dest(by_name, pid);
                let r = callers[c].call_async(move || async move { Out::from(Srv::call(d, M::Echo(k), None).await) }.boxed()).await;
                t.push(format!("  -> {r:?}"));
                ensure!(P, t, r == Ok(Out::Ok(M::Answer(k + 1000))), "the call did not return its own reply");
            }
            4 if pending[c].is_none() => {
                t.push(format!("caller {c}: call Hold({k}) without hurry"));
                let d = dest(by_name, pid);
                let p = callers[c].clone();
                let h = tokio::spawn(async move { p.call_async(move || async move { Out::from(Srv::call(d, M::Hold(k), Some(Duration::from_secs(15))).await) }.boxed()).await });
                pending[c] = Some((k, h));
                settle().await;
            }
            5 if pending[c].is_none() => {
                let ms = [1, 4, 12, 35][g.below(4)];
                t.push(format!("caller {c}: call Hold({k}) for {ms} ms"));
                let d = dest(by_name, pid);
                let at = Instant::now();
                let r = callers[c].call_async(move || async move { Out::from(Srv::call(d, M::Hold(k), Some(Duration::from_millis(ms))).await) }.boxed()).await;
                t.push(format!("  -> {r:?} after {:?}", at.elapsed()));
                ensure!(P, t, r == Ok(Out::Timeout), "a call nobody answered did not time out");
                // the timer wheel of pingora works in steps of 10 ms
                ensure!(P, t, at.elapsed() + Duration::from_millis(10) >= Duration::from_millis(ms), "the call timed out before its time");
                late.push((c, k));
            }
            6 => {
                // answer a call that waits or one that has timed out, possibly once more
                let mut o: Vec<u64> = pending.iter().flatten().map(|p| p.0).collect();
                o.extend(late.iter().map(|l| l.1));
                if !o.is_empty() {
                    let v = o[g.below(o.len())];
                    t.push(format!("the server answers Hold({v})"));
                    let _ = ctl.call(move || Srv::cast(pid, M::Release(v))).await;
                    settle().await;
                    for (c, _) in late.iter().filter(|l| l.1 == v) {
                        dirty[*c] = true;
                    }
                    for (i, p) in pending.iter_mut().enumerate() {
                        if p.as_ref().map_or(false, |p| p.0 == v) {
                            let (_, h) = p.take().unwrap();
                            let r = tokio::time::timeout(Duration::from_secs(5), h).await;
                            t.push(format!("  -> caller {i} got {r:?}"));
                            ensure!(P, t, matches!(&r, Ok(Ok(Ok(Out::Ok(M::Answer(x))))) if *x == v + 1000), "the call did not return its own reply");
                        }
                    }
                }
            }
            7 if g.chance(40) => {
                let r = format!("because{k}");
                t.push(format!("the server ends with {r}"));
                let q = r.clone();
                let _ = ctl.call(move || Srv::cast(pid, M::Fail(q))).await;
                ensure!(P, t, wait_for(2000, || !Process::alive(pid)).await, "the server did not end");
                settle().await;
                for i in 0..n {
                    if let Some((v, h)) = pending[i].take() {
                        let x = tokio::time::timeout(Duration::from_secs(5), h).await;
                        t.push(format!("  -> caller {i} (Hold({v})) got {x:?}"));
                        ensure!(P, t, matches!(&x, Ok(Ok(Ok(Out::Down(e)))) if *e == ExitReason::from(r.as_str())), "a waiting call did not return ServerDown with the reason of the server");
                    }
                }
                let d = dest(by_name, pid);
                if let None = pending[c] {
                    let x = callers[c].call_async(move || async move { Out::from(Srv::call(d, M::Echo(k), None).await) }.boxed()).await;
                    t.push(format!("caller {c}: call of the dead server -> {x:?}"));
                    ensure!(P, t, x == Ok(Out::Down(ExitReason::from("noproc"))), "a call of a dead server did not return ServerDown(noproc)");
                }
                late.clear();
                let v = srv(&s);
                pid = ctl.call_async(move || async move { v.start(opts()).await }.boxed()).await.ok().and_then(|r| r.ok()).unwrap();
            }
            _ if pending[c].is_none() => {
                t.push(format!("check the mailbox of caller {c}"));
                check_box(&callers[c], &mut inbox[c], dirty[c], &t).await?;
            }
            _ => {}
        }
    }
    for c in 0..n {
        if pending[c].is_none() {
            t.push(format!("check the mailbox of caller {c}"));
            check_box(&callers[c], &mut inbox[c], dirty[c], &t).await?;
        }
    }
    Ok(())
}
async fn check_box(p: &Puppet, want: &mut Vec<u64>, dirty: bool, t: &[String]) -> R {
    let want = std::mem::take(want);
    if dirty {
        let got = p.drain().await.unwrap_or_default();
        let want: Vec<Item> = want.into_iter().map(Item::User).collect();
        ensure!(["C10"], t, got == want, "unrelated messages: {got:?}, expected {want:?}");
    } else {
        let got = strict(p).await;
        ensure!(["C10"], t, got == Ok(want.clone()), "the mailbox holds {got:?}, expected {want:?}");
    }
    Ok(())
}
/// reply and ProcessDown (in either order), or reply and timeout, meet in the mailbox before the caller looks
async fn meet(how: usize) -> R {
    const P: [&str; 1] = ["C10"];
    let s: S = Default::default();
    let ctl = Puppet::spawn();
    let p = Puppet::spawn();
    let v = srv(&s);
    let pid = ctl.call_async(move || async move { v.start(GenServerOptions::new()).await }.boxed()).await.ok().and_then(|r| r.ok()).unwrap();
    let names = ["server dies, then its delegate answers", "server answers, then dies", "the time is over, then the answer arrives", "the answer arrives, then the time is over"];
    let mut t = vec![format!("caller: call Hold(1) with 25 ms, polled once; {}", names[how])];
    Process::send(p.pid, 7u64);
    let r = p
        .call_async(move || {
            async move {
                let limit = if how < 2 { Duration::from_secs(10) } else { Duration::from_millis(25) };
                let mut f = Box::pin(Srv::call(pid, M::Hold(1), Some(limit)));
                if let Some(r) = (&mut f).now_or_never() {
                    return Some(Out::from(r));
                }
                let f0 = loop {
                    if let Some(x) = s.lock().unwrap().stash.get(&1).copied() {
                        break x;
                    }
                    tokio::task::yield_now().await;
                };
                let kill = || async move {
                    Process::exit(pid, ExitReason::from("gone"));
                    Process::exit(pid, ExitReason::Kill);
                    while Process::alive(pid) {
                        tokio::task::yield_now().await;
                    }
                    settle().await;
                };
                match how {
                    0 => {
                        kill().await;
                        Srv::reply(f0, M::Answer(1001));
                    }
                    1 => {
                        Srv::reply(f0, M::Answer(1001));
                        kill().await;
                    }
                    2 => {
                        tokio::time::sleep(Duration::from_millis(80)).await;
                        Srv::reply(f0, M::Answer(1001));
                    }
                    _ => {
                        Srv::reply(f0, M::Answer(1001));
                        tokio::time::sleep(Duration::from_millis(80)).await;
                    }
                }
                Some(Out::from(f.await))
            }
            .boxed()
        })
        .await;
    t.push(format!("-> {r:?}"));
    let ok = match (how, &r) {
        (0, Ok(Some(Out::Down(_)))) => true,
        (1, Ok(Some(Out::Ok(M::Answer(1001))))) => true,
        (2 | 3, Ok(Some(Out::Ok(M::Answer(1001)) | Out::Timeout))) => true,
        _ => false,
    };
    ensure!(P, t, ok, "unexpected result of the call");
    settle().await;
    let b = strict(&p).await;
    ensure!(P, t, b == Ok(vec![7]), "after the call the mailbox holds {b:?}, expected [7]");
    Ok(())
}
async fn default_timeout() -> R {
    let s: S = Default::default();
    let ctl = Puppet::spawn();
    let v = srv(&s);
    let pid = ctl.call_async(move || async move { v.start(GenServerOptions::new()).await }.boxed()).await.ok().and_then(|r| r.ok()).unwrap();
    let at = Instant::now();
    let r = ctl.call_async(move || async move { Out::from(Srv::call(pid, M::Hold(1), None).await) }.boxed()).await;
    let e = at.elapsed();
    let t = vec![format!("call Hold(1) without a timeout -> {r:?} after {e:?}")];
    ensure!(["C10"], t, r == Ok(Out::Timeout) && e >= Duration::from_millis(4980) && e < Duration::from_millis(9000), "the default timeout is not 5 s");
    Ok(())
}
const Q: [&str; 1] = ["C11"];
async fn start_on(p: &Puppet, v: Srv, o: GenServerOptions, link: bool) -> Result<Result<Pid, ExitReason>, CallErr> {
    p.call_async(move || async move { if link { v.start_link(o).await } else { v.start(o).await } }.boxed()).await
}
async fn reason_of(m: &Puppet) -> Option<ExitReason> {
    for _ in 0..3000 {
        for i in m.drain().await.ok()? {
            if let Item::Down(_, _, r) = i {
                return Some(r);
            }
        }
        tokio::time::sleep(Duration::from_millis(1)).await;
    }
    None
}
async fn starts(seed: u64) -> R {
    let mut g = Rng::new(seed);
    let mut t: Vec<String> = vec![];
    let p = Puppet::spawn();
    let _ = p.call(|| Process::set_flags(ProcessFlags::TRAP_EXIT)).await;
    let other = Puppet::spawn();
    let o = other.pid;
    other.call(move || Process::register(o, "vx-taken").unwrap()).await.unwrap();
    for i in 0..4 {
        let s: S = Default::default();
        let link = g.chance(50);
        let start = match g.below(4) {
            0 => Start::Ok,
            1 => Start::Err(format!("bad{i}")),
            2 => Start::Slow(120),
            _ => Start::Panic,
        };
        let timeout = if start == Start::Panic { None } else { [None, Some(20u64), Some(10_000)][g.below(3)] };
        let name = [None, Some("vx-free".to_string()), Some("vx-taken".to_string())][g.below(3)].clone();
        let mut o = GenServerOptions::new();
        if let Some(n) = &name {
            o = o.name(n.clone());
        }
        if let Some(ms) = timeout {
            o = o.timeout(Duration::from_millis(ms));
        }
        t.push(format!("start link={link} init={start:?} timeout={timeout:?} name={name:?}"));
        let v = Srv { s: s.clone(), start: start.clone(), trap: false, info_fails: None };
        let r = start_on(&p, v, o, link).await;
        t.push(format!("  -> {r:?}"));
        let taken = name.as_deref() == Some("vx-taken");
        let want = if taken {
            Err(ExitReason::from("already_started"))
        } else {
            match &start {
                Start::Ok => Ok(()),
                Start::Err(r) => Err(ExitReason::from(r.as_str())),
                Start::Slow(_) if timeout == Some(20) => Err(ExitReason::from("timeout")),
                Start::Slow(_) => Ok(()),
                Start::Panic => Err(ExitReason::from("unknown")),
            }
        };
        let Ok(got) = r else {
            return fail(&Q, "start did not return", &t);
        };
        ensure!(Q, t, got.clone().map(|_| ()) == want, "start returned {got:?}, expected {want:?}");
        let l = s.lock().unwrap().log.clone();
        ensure!(Q, t, l == if taken { vec![] } else { vec![L::Init] }, "handlers called: {l:?}");
        let ran = s.lock().unwrap().pid;
        match got {
            Ok(pid) => {
                ensure!(Q, t, ran == Some(pid) && Process::alive(pid), "the returned process is not the running server");
                if name.is_some() {
                    ensure!(Q, t, Process::whereis("vx-free") == Some(pid), "the server is not registered under its name");
                }
                let _ = other.call(move || Process::exit(pid, ExitReason::Kill)).await;
                ensure!(Q, t, wait_for(2000, || !Process::alive(pid)).await, "killed server still runs");
                let _ = p.drain().await;
            }
            Err(e) => {
                if let Some(pid) = ran {
                    ensure!(Q, t, wait_for(2000, || !Process::alive(pid)).await, "start failed but the process goes on");
                    settle().await;
                    let items = p.drain().await.unwrap_or_default();
                    if link && start != Start::Panic {
                        ensure!(Q, t, items.contains(&Item::Exit(pid, e.clone())), "the linked starter received {items:?}, expected Exit with {e:?}");
                    }
                    let l = s.lock().unwrap().log.clone();
                    ensure!(Q, t, l == vec![L::Init], "handlers called: {l:?}");
                } else {
                    settle().await;
                    let _ = p.drain().await;
                }
            }
        }
    }
    ensure!(Q, t, Process::whereis("vx-taken") == Some(other.pid), "the name of another process was taken over");
    Ok(())
}
async fn life(seed: u64) -> R {
    let mut g = Rng::new(seed);
    let mut t: Vec<String> = vec![];
    let s: S = Default::default();
    let s2: S = Default::default();
    let parent = Puppet::spawn();
    let _ = parent.call(|| Process::set_flags(ProcessFlags::TRAP_EXIT)).await;
    let ctl = Puppet::spawn();
    let mon = Puppet::spawn();
    let link = g.chance(60);
    let trap = g.chance(75);
    let v2 = srv(&s2);
    let helper = start_on(&ctl, v2, GenServerOptions::new(), false).await.ok().and_then(|r| r.ok()).unwrap();
    let info_fails = if g.chance(15) { Some("infofail".to_string()) } else { None };
    let v = Srv { s: s.clone(), start: Start::Ok, trap, info_fails: info_fails.clone() };
    let Ok(Ok(pid)) = start_on(&parent, v, GenServerOptions::new(), link).await else {
        return fail(&Q, "start failed", &t);
    };
    t.push(format!("server started link={link} trap={trap} first info fails={info_fails:?}"));
    let _ = mon.call(move || Process::monitor(pid)).await;
    let mut want = vec![L::Init];
    let mut end: Option<ExitReason> = None;
    for k in 0..g.below(10) as u64 {
        match g.below(7) {
            0 | 1 => {
                t.push(format!("cast Echo({k})"));
                let _ = ctl.call(move || Srv::cast(pid, M::Echo(k))).await;
                want.push(L::Cast(M::Echo(k)));
            }
            2 => {
                t.push(format!("call Echo({k})"));
                let r = ctl.call_async(move || async move { Out::from(Srv::call(pid, M::Echo(k), None).await) }.boxed()).await;
                want.push(L::Call(M::Echo(k)));
                ensure!(Q, t, r == Ok(Out::Ok(M::Answer(k + 1000))), "the call returned {r:?}");
            }
            4 => {
                let q = Puppet::spawn();
                t.push(format!("the server monitors {:?}, which ends", q.pid));
                let qp = q.pid;
                let _ = ctl.call(move || Srv::cast(pid, M::Watch(qp))).await;
                settle().await;
                q.cmd(Cmd::Finish);
                wait_for(1000, || !Process::alive(qp)).await;
                want.push(L::Cast(M::Watch(qp)));
                want.push(L::Down(qp));
                if info_fails.is_some() {
                    end = Some(ExitReason::from("infofail"));
                }
            }
            5 if trap => {
                let q = Puppet::spawn();
                t.push(format!("the server links {:?}, which exits with oops", q.pid));
                let qp = q.pid;
                let _ = ctl.call(move || Srv::cast(pid, M::Join(qp))).await;
                settle().await;
                let _ = ctl.call(move || Process::exit(qp, ExitReason::from("oops"))).await;
                wait_for(1000, || !Process::alive(qp)).await;
                want.push(L::Cast(M::Join(qp)));
                want.push(L::Exit(qp, ExitReason::from("oops")));
                if info_fails.is_some() {
                    end = Some(ExitReason::from("infofail"));
                }
            }
            6 => {
                t.push(format!("the server calls another one, which answers late ({k})"));
                let _ = ctl.call(move || Srv::cast(pid, M::Ask(helper, k))).await;
                wait_for(2000, || s2.lock().unwrap().stash.contains_key(&k)).await;
                tokio::time::sleep(Duration::from_millis(40)).await;
                let _ = ctl.call(move || Srv::cast(helper, M::Release(k))).await;
                want.push(L::Cast(M::Ask(helper, k)));
                want.push(L::Info(M::Answer(k + 1000)));
                if info_fails.is_some() {
                    end = Some(ExitReason::from("infofail"));
                }
            }
            _ => {}
        }
        settle().await;
        if end.is_some() {
            break;
        }
    }
    let mut terminates = true;
    if end.is_none() {
        let parent_pid = parent.pid;
        match g.below(9) {
            0 => {
                t.push("cast Fail(a)".into());
                let _ = ctl.call(move || { Srv::cast(pid, M::Fail("a".into())); Srv::cast(pid, M::Echo(99)); }).await;
                want.push(L::Cast(M::Fail("a".into())));
                end = Some(ExitReason::from("a"));
            }
            1 => {
                t.push("call Fail(b)".into());
                let r = ctl.call_async(move || async move { Out::from(Srv::call(pid, M::Fail("b".into()), None).await) }.boxed()).await;
                want.push(L::Call(M::Fail("b".into())));
                end = Some(ExitReason::from("b"));
                ensure!(Q, t, r == Ok(Out::Down(ExitReason::from("b"))), "the failing call returned {r:?}");
            }
            2 | 3 => {
                let e = [ExitReason::Normal, ExitReason::from("c"), ExitReason::from("shutdown")][g.below(3)].clone();
                let limit = [None, Some(Duration::from_secs(9))][g.below(2)];
                t.push(format!("stop({e:?}, {limit:?}) with messages before and after"));
                let q = e.clone();
                let r = ctl
                    .call_async(move || {
                        async move {
                            Srv::cast(pid, M::Nap(3));
                            Srv::cast(pid, M::Echo(98));
                            let r = Srv::stop(pid, q, limit).await;
                            let left = Process::receiver().for_message::<u64>().receive().now_or_never().is_some();
                            (r, left)
                        }
                        .boxed()
                    })
                    .await;
                want.push(L::Cast(M::Nap(3)));
                want.push(L::Cast(M::Echo(98)));
                ensure!(Q, t, r == Ok((Ok(()), false)), "stop returned {r:?}");
                end = Some(e);
            }
            4 => {
                t.push("cast Nap, cast Fail(d), stop(c)".into());
                let r = ctl
                    .call_async(move || {
                        async move {
                            Srv::cast(pid, M::Nap(2));
                            Srv::cast(pid, M::Fail("d".into()));
                            Srv::stop(pid, ExitReason::from("c"), None).await
                        }
                        .boxed()
                    })
                    .await;
                want.push(L::Cast(M::Nap(2)));
                want.push(L::Cast(M::Fail("d".into())));
                end = Some(ExitReason::from("d"));
                ensure!(Q, t, r == Ok(Err(ExitReason::from("d"))), "stop of a server that ends with another reason returned {r:?}");
            }
            5 => {
                t.push("cast Nap(400), stop with 10 ms".into());
                let r = ctl
                    .call_async(move || {
                        async move {
                            Srv::cast(pid, M::Nap(400));
                            let r = Srv::stop(pid, ExitReason::from("c"), Some(Duration::from_millis(10))).await;
                            tokio::time::sleep(Duration::from_millis(500)).await;
                            (r, Process::receiver().for_message::<u64>().receive().now_or_never().is_some())
                        }
                        .boxed()
                    })
                    .await;
                want.push(L::Cast(M::Nap(400)));
                end = Some(ExitReason::from("c"));
                ensure!(Q, t, r == Ok((Err(ExitReason::from("timeout")), false)), "stop of a busy server returned {r:?}");
            }
            6 | 7 if link => {
                t.push("the parent ends with reason p".into());
                let _ = ctl.call(move || Process::exit(parent_pid, ExitReason::from("x"))).await;
                settle().await;
                let _ = ctl.call(move || Process::exit(parent_pid, ExitReason::Kill)).await;
                wait_for(1000, || !Process::alive(parent_pid)).await;
                end = Some(ExitReason::from("killed"));
                terminates = trap;
            }
            _ => {
                t.push("kill".into());
                let _ = ctl.call(move || Process::exit(pid, ExitReason::Kill)).await;
                end = Some(ExitReason::from("killed"));
                terminates = false;
            }
        }
    }
    ensure!(Q, t, wait_for(3000, || !Process::alive(pid)).await, "the server goes on");
    let end = end.unwrap();
    let r = reason_of(&mon).await;
    let killed = r.clone().map_or(false, |r| r.is_kill() || r == "killed");
    ensure!(Q, t, r.as_ref() == Some(&end) || (end == "killed" && killed), "monitors saw {r:?}, expected {end:?}");
    let log = s.lock().unwrap().log.clone();
    if terminates {
        want.push(L::Terminate(r.unwrap()));
    }
    ensure!(Q, t, log == want, "handlers called: {log:?}\nexpected: {want:?}");
    let again = ctl.call_async(move || async move { Srv::stop(pid, ExitReason::Normal, None).await }.boxed()).await;
    ensure!(Q, t, again == Ok(Err(ExitReason::from("noproc"))), "stop of a server that does not exist returned {again:?}");
    Ok(())
}
/// the caller monitors the server itself, before or during a call that ends with the server
async fn watching(first: bool) -> R {
    const P: [&str; 1] = ["C10"];
    let s: S = Default::default();
    let ctl = Puppet::spawn();
    let p = Puppet::spawn();
    let v = srv(&s);
    let pid = ctl.call_async(move || async move { v.start(GenServerOptions::new()).await }.boxed()).await.ok().and_then(|r| r.ok()).unwrap();
    let t = vec![format!("the caller monitors the server {} a call that ends with the server", if first { "before" } else { "during" })];
    let r = p
        .call_async(move || {
            async move {
                if first {
                    let own = Process::monitor(pid);
                    (own, Out::from(Srv::call(pid, M::Fail("gone".into()), Some(Duration::from_secs(10))).await))
                } else {
                    let mut f = Box::pin(Srv::call(pid, M::Fail("gone".into()), Some(Duration::from_secs(10))));
                    let early = (&mut f).now_or_never();
                    assert!(early.is_none());
                    let own = Process::monitor(pid);
                    (own, Out::from(f.await))
                }
            }
            .boxed()
        })
        .await;
    let Ok((own, out)) = r else { return fail(&P, "the caller ended", &t) };
    ensure!(P, t, out == Out::Down(ExitReason::from("gone")), "the call returned {out:?}");
    settle().await;
    let got = p.drain().await.unwrap_or_default();
    let want = vec![Item::Down(Dest::from(pid), own, ExitReason::from("gone"))];
    ensure!(P, t, got == want, "the mailbox holds {got:?} after the call, expected the DOWN of the caller's own monitor: {want:?}");
    Ok(())
}
pub fn cases(v: &mut Vec<Case>) {
    v.push(Case { name: "call_and_own_monitor", props: &["C10"], random: false, limit: 20, f: |_| rt(watching(true)) });
    v.push(Case { name: "call_then_own_monitor", props: &["C10"], random: false, limit: 20, f: |_| rt(watching(false)) });
    v.push(Case { name: "call_meet_down_reply", props: &["C10"], random: false, limit: 20, f: |_| rt(meet(0)) });
    v.push(Case { name: "call_meet_reply_down", props: &["C10"], random: false, limit: 20, f: |_| rt(meet(1)) });
    v.push(Case { name: "call_meet_timeout_reply", props: &["C10"], random: false, limit: 20, f: |_| rt(meet(2)) });
    v.push(Case { name: "call_meet_reply_timeout", props: &["C10"], random: false, limit: 20, f: |_| rt(meet(3)) });
    v.push(Case { name: "call_default_timeout", props: &["C10"], random: false, limit: 30, f: |_| rt(default_timeout()) });
    v.push(Case { name: "calls_model", props: &["C10"], random: true, limit: 0, f: |s| rt(calls(s)) });
    v.push(Case { name: "server_starts", props: &["C11"], random: true, limit: 0, f: |s| rt(starts(s)) });
    v.push(Case { name: "server_life", props: &["C11"], random: true, limit: 0, f: |s| rt(life(s)) });
}
