//! Supervisors against a reference model of the child table (C12-C16).
use crate::harness::*;
use crate::{rt, Case};
use futures_util::FutureExt;
use hydra::*;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::sync::Notify;
use std::time::Instant;

#[derive(Clone, Debug, PartialEq)]
enum Ev {
    Start(String, Pid),
    StartFail(String),
    StartIgnore(String),
    Stop(String, Pid, ExitReason),
    End(String, Pid),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Res {
    Ok,
    Fail,
    Ignore,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    /// stops as soon as it is told to
    Trapping,
    /// does not trap exits
    Plain,
    /// ignores every signal but kill
    Stubborn,
}
#[derive(Default)]
struct Shared {
    log: Vec<(Ev, Instant0)>,
    script: BTreeMap<String, VecDeque<Res>>,
    /// the next start of this id waits here first
    gate: Option<(String, Arc<Notify>)>,
    at_gate: bool,
    running: BTreeMap<Pid, tokio::sync::mpsc::UnboundedSender<ExitReason>>,
}
type Instant0 = Option<Instant>;
type S = Arc<Mutex<Shared>>;
struct Guard(S, String, Pid);
impl Drop for Guard {
    fn drop(&mut self) {
        let mut s = self.0.lock().unwrap();
        s.running.remove(&self.2);
        s.log.push((Ev::End(self.1.clone(), self.2), Some(Instant::now())));
    }
}
async fn child_body(s: S, id: String, kind: Kind, ready: tokio::sync::oneshot::Sender<()>, mut rx: tokio::sync::mpsc::UnboundedReceiver<ExitReason>) {
    let me = Process::current();
    let _g = Guard(s.clone(), id.clone(), me);
    if kind != Kind::Plain {
        Process::set_flags(ProcessFlags::TRAP_EXIT);
    }
    let _ = ready.send(());
    loop {
        tokio::select! {
            r = rx.recv() => match r {
                Some(ExitReason::Normal) => return,
                Some(r) => { Process::exit(me, r); std::future::pending::<()>().await }
                None => std::future::pending::<()>().await,
            },
            m = Process::receive::<()>() => if let Message::System(SystemMessage::Exit(_, r)) = m {
                s.lock().unwrap().log.push((Ev::Stop(id.clone(), me, r), Some(Instant::now())));
                if kind == Kind::Trapping { return }
            },
        }
    }
}
fn spec(s: &S, c: &MChild) -> ChildSpec {
    let (s, id, kind) = (s.clone(), c.id.clone(), c.kind);
    let mut r = ChildSpec::new(c.id.clone())
        .start(move || {
            let (s, id) = (s.clone(), id.clone());
            async move {
                let gate = {
                    let mut l = s.lock().unwrap();
                    match l.gate.clone() {
                        Some((g, n)) if g == id => {
                            l.gate = None;
                            l.at_gate = true;
                            Some(n)
                        }
                        _ => None,
                    }
                };
                if let Some(n) = gate {
                    n.notified().await;
                }
                let r = s.lock().unwrap().script.get_mut(&id).and_then(|q| q.pop_front()).unwrap_or(Res::Ok);
                match r {
                    Res::Fail => {
                        s.lock().unwrap().log.push((Ev::StartFail(id), Some(Instant::now())));
                        Err(ExitReason::from("nostart"))
                    }
                    Res::Ignore => {
                        s.lock().unwrap().log.push((Ev::StartIgnore(id), Some(Instant::now())));
                        Err(ExitReason::Ignore)
                    }
                    Res::Ok => {
                        let (tx, rx) = tokio::sync::mpsc::unbounded_channel();
                        let (ready, is_ready) = tokio::sync::oneshot::channel();
                        let pid = Process::spawn_link(child_body(s.clone(), id.clone(), kind, ready, rx));
                        let _ = is_ready.await;
                        let mut l = s.lock().unwrap();
                        l.running.insert(pid, tx);
                        l.log.push((Ev::Start(id, pid), Some(Instant::now())));
                        Ok(pid)
                    }
                }
            }
        })
        .restart(c.restart)
        .child_type(if c.sup { ChildType::Supervisor } else { ChildType::Worker });
    if let Some(x) = c.shutdown {
        r = r.shutdown(x);
    }
    if c.significant {
        r = r.significant(true);
    }
    r
}
#[derive(Clone)]
struct MChild {
    id: String,
    restart: Restart,
    sup: bool,
    significant: bool,
    shutdown: Option<Shutdown>,
    kind: Kind,
    pid: Option<Pid>,
    restarting: bool,
}
impl MChild {
    fn temp(&self) -> bool {
        matches!(self.restart, Restart::Temporary)
    }
}
#[derive(Clone, Debug)]
enum Op {
    Exited(Pid, ExitReason),
    Retry(String),
    StartNew(usize),
    Terminate(String),
    Restart(String),
    Delete(String),
    Which,
    Count,
}
#[derive(Debug, Clone, PartialEq)]
enum Answer {
    Pid(Option<Pid>),
    Unit,
    AlreadyStarted,
    AlreadyPresent,
    StartError(ExitReason),
    NotFound,
    Running,
    Restarting,
    Text(String),
    Other(String),
}
fn err(e: SupervisorError) -> Answer {
    match e {
        SupervisorError::AlreadyStarted => Answer::AlreadyStarted,
        SupervisorError::AlreadyPresent => Answer::AlreadyPresent,
        SupervisorError::StartError(r) => Answer::StartError(r),
        SupervisorError::NotFound => Answer::NotFound,
        SupervisorError::Running => Answer::Running,
        SupervisorError::Restarting => Answer::Restarting,
        SupervisorError::CallError(e) => Answer::Other(format!("{e:?}")),
    }
}
struct Model {
    s: S,
    pos: usize,
    children: Vec<MChild>,
    strategy: SupervisionStrategy,
    auto: AutoShutdown,
    max: usize,
    restarts: usize,
    dead: Option<&'static str>,
    queue: VecDeque<(Op, Option<usize>)>,
    answers: Vec<Answer>,
    fresh: Vec<MChild>,
    alive: BTreeSet<Pid>,
    trace: Vec<String>,
    ctx: Vec<&'static str>,
    /// a request that reached the mailbox when the log had this length
    late: Option<(usize, Op)>,
}
type P<T> = Result<T, Fail>;
impl Model {
    fn next(&mut self, want: &str) -> P<(Ev, Instant)> {
        let s = self.s.lock().unwrap();
        if self.pos < s.log.len() {
            self.pos += 1;
            let (e, t) = s.log[self.pos - 1].clone();
            if self.late.as_ref().is_some_and(|l| l.0 < self.pos) {
                self.queue.push_back((self.late.take().unwrap().1, Some(0)));
            }
            return Ok((e, t.unwrap()));
        }
        drop(s);
        fail(&self.ctx, format!("nothing happened where {want} was due"), &self.trace)
    }
    /// the ends of processes told to end by the driver
    fn start(&mut self, i: usize) -> P<Result<Option<Pid>, ExitReason>> {
        let id = self.children[i].id.clone();
        let (e, _) = self.next(&format!("a start of {id}"))?;
        self.trace.push(format!("  {e:?}"));
        match e {
            Ev::Start(x, p) if x == id => {
                self.alive.insert(p);
                Ok(Ok(Some(p)))
            }
            Ev::StartFail(x) if x == id => Ok(Err(ExitReason::from("nostart"))),
            Ev::StartIgnore(x) if x == id => Ok(Ok(None)),
            e => fail(&self.ctx, format!("{e:?} happened where a start of {id} was due"), &self.trace),
        }
    }
    fn stop(&mut self, i: usize) -> P<()> {
        self.children[i].restarting = false;
        let Some(pid) = self.children[i].pid.take() else { return Ok(()) };
        let c = self.children[i].clone();
        self.queue.retain(|(o, _)| !matches!(o, Op::Exited(p, _) if *p == pid));
        if !self.alive.remove(&pid) {
            return Ok(());
        }
        let how = c.shutdown.unwrap_or(if c.sup { Shutdown::Infinity } else { Shutdown::Duration(Duration::from_secs(5)) });
        let mut props = self.ctx.clone();
        props.push("C16");
        let t = format!("stop of {} ({:?}, {how:?})", c.id, c.kind);
        let mut told = None;
        if !matches!(how, Shutdown::BrutalKill) && c.kind != Kind::Plain {
            let (e, at) = self.next(&t)?;
            self.trace.push(format!("  {e:?}"));
            ensure!(props, self.trace, e == Ev::Stop(c.id.clone(), pid, ExitReason::from("shutdown")), "{e:?} happened where the {t} was due");
            told = Some(at);
        }
        let (e, at) = self.next(&t)?;
        self.trace.push(format!("  {e:?}"));
        ensure!(props, self.trace, e == Ev::End(c.id.clone(), pid), "{e:?} happened where the {t} was due to end");
        if let (Some(told), Kind::Stubborn, Shutdown::Duration(d)) = (told, c.kind, how) {
            let w = at - told;
            ensure!(["C16"], self.trace, w + Duration::from_millis(12) >= d && w <= d + Duration::from_secs(3), "{} was killed after {w:?}, its shutdown timeout is {d:?}", c.id);
        }
        Ok(())
    }
    fn remove(&mut self, i: usize) -> MChild {
        self.children.remove(i)
    }
    fn die(&mut self, why: &'static str) -> P<()> {
        self.trace.push(format!("  the supervisor is to stop: {why}"));
        self.ctx.push("C16");
        for i in (0..self.children.len()).rev() {
            self.stop(i)?;
        }
        self.dead = Some(why);
        Ok(())
    }
    fn counted(&mut self) -> P<bool> {
        self.restarts += 1;
        if self.restarts > self.max {
            self.ctx = vec!["C13"];
            self.die("restart intensity")?;
            return Ok(true);
        }
        Ok(false)
    }
    fn auto(&mut self, c: MChild) -> P<()> {
        let down = c.significant
            && match self.auto {
                AutoShutdown::Never => false,
                AutoShutdown::AnySignificant => true,
                AutoShutdown::AllSignificant => !self.children.iter().any(|c| c.significant && c.pid.is_some()),
            };
        if down {
            self.ctx = vec!["C12"];
            self.die("a significant child exited")?;
        }
        Ok(())
    }
    fn restart(&mut self, i: usize) -> P<()> {
        let (lo, hi) = match self.strategy {
            SupervisionStrategy::OneForOne => (i, i + 1),
            SupervisionStrategy::RestForOne => (i, self.children.len()),
            SupervisionStrategy::OneForAll => (0, self.children.len()),
        };
        self.children[i].pid = None;
        let me = self.children[i].id.clone();
        let ids: Vec<String> = self.children[lo..hi].iter().map(|c| c.id.clone()).collect();
        for id in &ids {
            if *id != me {
                let k = self.children.iter().position(|c| c.id == *id).unwrap();
                self.stop(k)?;
                if self.children[k].temp() {
                    self.remove(k);
                }
            }
        }
        for id in &ids {
            if let Some(k) = self.children.iter().position(|c| c.id == *id) {
                match self.start(k)? {
                    Ok(p) => {
                        self.children[k].pid = p;
                        self.children[k].restarting = false;
                    }
                    Err(_) => {
                        self.children[k].restarting = true;
                        self.queue.push_back((Op::Retry(id.clone()), None));
                        return Ok(());
                    }
                }
            }
        }
        Ok(())
    }
    fn find(&self, id: &str) -> Option<usize> {
        self.children.iter().position(|c| c.id == id)
    }
    fn step(&mut self, op: Op) -> P<Option<Answer>> {
        self.trace.push(format!(" supervisor handles {op:?}"));
        Ok(match op {
            Op::Exited(pid, reason) => {
                self.ctx = vec!["C12", "C14"];
                let Some(i) = self.children.iter().position(|c| c.pid == Some(pid)) else { return Ok(None) };
                let ordinary = reason == ExitReason::Normal || reason == "shutdown";
                let again = match self.children[i].restart {
                    Restart::Permanent => true,
                    Restart::Transient => !ordinary,
                    Restart::Temporary => false,
                };
                if again {
                    if !self.counted()? {
                        self.restart(i)?;
                    }
                } else {
                    let c = self.remove(i);
                    self.auto(c)?;
                }
                None
            }
            Op::Retry(id) => {
                self.ctx = vec!["C14"];
                if let Some(i) = self.find(&id) {
                    if self.children[i].restarting && !self.counted()? {
                        self.restart(i)?;
                    }
                }
                None
            }
            Op::StartNew(k) => {
                self.ctx = vec!["C15"];
                let c = self.fresh[k].clone();
                Some(match self.find(&c.id) {
                    Some(i) if self.children[i].pid.is_some() => Answer::AlreadyStarted,
                    Some(_) => Answer::AlreadyPresent,
                    None => {
                        self.children.push(c);
                        let i = self.children.len() - 1;
                        match self.start(i)? {
                            Ok(p) => {
                                self.children[i].pid = p;
                                if p.is_none() && self.children[i].temp() {
                                    self.remove(i);
                                }
                                Answer::Pid(p)
                            }
                            Err(r) => Answer::StartError(r),
                        }
                    }
                })
            }
            Op::Terminate(id) => {
                self.ctx = vec!["C15"];
                Some(match self.find(&id) {
                    None => Answer::NotFound,
                    Some(i) => {
                        self.stop(i)?;
                        if self.children[i].temp() {
                            self.remove(i);
                        }
                        Answer::Unit
                    }
                })
            }
            Op::Restart(id) => {
                self.ctx = vec!["C15"];
                Some(match self.find(&id) {
                    None => Answer::NotFound,
                    Some(i) if self.children[i].restarting => Answer::Restarting,
                    Some(i) if self.children[i].pid.is_some() => Answer::Running,
                    Some(i) => match self.start(i)? {
                        Ok(p) => {
                            self.children[i].pid = p;
                            Answer::Pid(p)
                        }
                        Err(r) => Answer::StartError(r),
                    },
                })
            }
            Op::Delete(id) => {
                self.ctx = vec!["C15"];
                Some(match self.find(&id) {
                    None => Answer::NotFound,
                    Some(i) if self.children[i].restarting => Answer::Restarting,
                    Some(i) if self.children[i].pid.is_some() => Answer::Running,
                    Some(i) => {
                        self.remove(i);
                        Answer::Unit
                    }
                })
            }
            Op::Which => Some(Answer::Text(self.which())),
            Op::Count => {
                let n = self.children.len();
                let s = self.children.iter().filter(|c| c.sup).count();
                Some(Answer::Text(format!("{} {} {} {}", n, self.children.iter().filter(|c| c.pid.is_some()).count(), s, n - s)))
            }
        })
    }
    fn which(&self) -> String {
        let v: Vec<String> = self
            .children
            .iter()
            .map(|c| format!("{:?} {:?} {:?} {:?}", c.id, c.pid, if c.sup { ChildType::Supervisor } else { ChildType::Worker }, c.restarting))
            .collect();
        v.join("; ").replace(", ", " ")
    }
}
/// "SupervisorChildInfo { id: .., child: .., child_type: .., restarting: .. }" without the field names
fn info_text(v: &[SupervisorChildInfo]) -> String {
    let one = |i: &SupervisorChildInfo| {
        let s = format!("{i:?}");
        let s = s.split_once('{').map(|x| x.1).unwrap_or("").trim_end_matches('}').trim().to_string();
        s.split(", ").map(|f| f.split_once(": ").map(|x| x.1).unwrap_or(f).to_string()).collect::<Vec<_>>().join(" ")
    };
    v.iter().map(one).collect::<Vec<_>>().join("; ")
}
/// until nothing can run any more and no stop with a timeout is under way
async fn quiet(s: &S) {
    for _ in 0..600 {
        for _ in 0..150 {
            tokio::task::yield_now().await;
        }
        let busy = {
            let l = s.lock().unwrap();
            let mut open = BTreeSet::new();
            for (e, _) in &l.log {
                match e {
                    Ev::Stop(_, p, _) => drop(open.insert(*p)),
                    Ev::End(_, p) => drop(open.remove(p)),
                    _ => {}
                }
            }
            !open.is_empty()
        };
        if !busy {
            return;
        }
        tokio::time::sleep(Duration::from_millis(5)).await;
    }
}
async fn ask(client: &Puppet, sup: Pid, op: &Op, s: &S, fresh: &[MChild]) -> Answer {
    let (op, s) = (op.clone(), s.clone());
    let f = match &op {
        Op::StartNew(k) => Some(fresh[*k].clone()),
        _ => None,
    };
    let r = client
        .call_async(move || {
            async move {
                match op {
                    Op::StartNew(_) => match Supervisor::start_child(sup, spec(&s, &f.unwrap())).await {
                        Ok(p) => Answer::Pid(p),
                        Err(e) => err(e),
                    },
                    Op::Terminate(id) => Supervisor::terminate_child(sup, id).await.map_or_else(err, |_| Answer::Unit),
                    Op::Restart(id) => Supervisor::restart_child(sup, id).await.map_or_else(err, Answer::Pid),
                    Op::Delete(id) => Supervisor::delete_child(sup, id).await.map_or_else(err, |_| Answer::Unit),
                    Op::Which => Supervisor::which_children(sup).await.map_or_else(err, |v| Answer::Text(info_text(&v))),
                    Op::Count => Supervisor::count_children(sup).await.map_or_else(err, |c| Answer::Text(format!("{} {} {} {}", c.specs, c.active, c.supervisors, c.workers))),
                    _ => unreachable!(),
                }
            }
            .boxed()
        })
        .await;
    r.unwrap_or_else(|e| Answer::Other(format!("{e:?}")))
}
fn random_child(g: &mut Rng, n: usize) -> MChild {
    let restart = match g.below(4) {
        0 => Restart::Transient,
        1 => Restart::Temporary,
        _ => Restart::Permanent,
    };
    let kind = match g.below(5) {
        0 => Kind::Plain,
        1 => Kind::Stubborn,
        _ => Kind::Trapping,
    };
    let shutdown = match g.below(5) {
        0 => Some(Shutdown::BrutalKill),
        1 => Some(Shutdown::Duration(Duration::from_millis(20 + g.below(60) as u64))),
        2 if kind != Kind::Stubborn => Some(Shutdown::Infinity),
        _ => None,
    };
    let sup = g.chance(30) && !(kind == Kind::Stubborn && shutdown.is_none());
    // the default of a worker is longer than a caller waits
    let shutdown = if kind == Kind::Stubborn && shutdown.is_none() { Some(Shutdown::Duration(Duration::from_millis(40))) } else { shutdown };
    MChild {
        id: format!("c{n}"),
        significant: restart != Restart::Permanent && g.chance(50),
        restart,
        sup,
        shutdown,
        kind,
        pid: None,
        restarting: false,
    }
}
async fn run(seed: u64) -> R {
    let mut g = Rng::new(seed);
    let s: S = Default::default();
    let strategy = match g.below(3) {
        0 => SupervisionStrategy::OneForOne,
        1 => SupervisionStrategy::OneForAll,
        _ => SupervisionStrategy::RestForOne,
    };
    let auto = match g.below(3) {
        0 => AutoShutdown::Never,
        1 => AutoShutdown::AnySignificant,
        _ => AutoShutdown::AllSignificant,
    };
    let max = [0, 1, 2, 3, 6, 20, 20][g.below(7)];
    let window = if g.chance(50) { Duration::from_secs(3600) } else { Duration::MAX };
    let mut m = Model {
        s: s.clone(), pos: 0, children: (0..g.below(6)).map(|n| random_child(&mut g, n)).collect(), strategy, auto, max, restarts: 0, dead: None, queue: Default::default(), answers: vec![],
        fresh: vec![], alive: Default::default(), trace: vec![format!("supervisor {strategy:?} {auto:?} max_restarts {max} in {window:?}")], ctx: vec!["C16"], late: None,
    };
    for c in &m.children {
        m.trace.push(format!("  child {} {:?} {:?} supervisor={} significant={} shutdown={:?}", c.id, c.restart, c.kind, c.sup, c.significant, c.shutdown));
    }
    let watcher = Puppet::spawn();
    let client = Puppet::spawn();
    let client2 = Puppet::spawn();
    for c in m.children.clone() {
        if g.chance(8) {
            let r = if g.chance(50) { Res::Fail } else { Res::Ignore };
            s.lock().unwrap().script.entry(c.id).or_default().push_back(r);
        }
    }
    let specs: Vec<ChildSpec> = m.children.iter().map(|c| spec(&s, c)).collect();
    let started = watcher
        .call_async(move || {
            let sup = Supervisor::with_children(specs).strategy(strategy).auto_shutdown(auto).max_restarts(max).max_duration(window);
            async move { sup.start(SupervisorOptions::new()).await }.boxed()
        })
        .await;
    let Ok(started) = started else { return fail(&["C14", "C16"], format!("starting the supervisor: {:?}", started.err()), &m.trace) };
    quiet(&s).await;
    // the start of all children
    m.ctx = vec!["C14", "C16"];
    let mut gone = vec![];
    let mut failed = false;
    for i in 0..m.children.len() {
        match m.start(i)? {
            Ok(p) => {
                m.children[i].pid = p;
                if p.is_none() && m.children[i].temp() {
                    gone.push(m.children[i].id.clone());
                }
            }
            Err(_) => {
                m.die("a child failed to start")?;
                failed = true;
                break;
            }
        }
    }
    m.children.retain(|c| !gone.contains(&c.id));
    if failed {
        ensure!(["C16"], m.trace, started == Err(ExitReason::from("failed_to_start_child")), "start returned {started:?}");
    } else {
        ensure!(["C16", "C15"], m.trace, started.is_ok(), "start returned {started:?} though every child started");
    }
    let Ok(sup) = started else {
        let n = s.lock().unwrap().log.len();
        ensure!(["C16"], m.trace, n == m.pos, "after the failed start more happened: {:?}", s.lock().unwrap().log[m.pos].0);
        return Ok(());
    };
    let _ = watcher.call(move || Process::monitor(sup)).await;
    let mut next_id = 6;
    for _ in 0..14 {
        // queue of what the supervisor will find in its mailbox
        let mut gate = None;
        let mut asked: Vec<Op> = vec![];
        let pick_id = |g: &mut Rng, m: &Model| {
            if m.children.is_empty() || g.chance(8) {
                format!("c{}", g.below(9))
            } else {
                m.children[g.below(m.children.len())].id.clone()
            }
        };
        let crash = g.chance(60) && m.children.iter().any(|c| c.pid.is_some());
        let mut victims = vec![];
        if crash {
            let live: Vec<(String, Pid, Kind)> = m.children.iter().filter_map(|c| c.pid.map(|p| (c.id.clone(), p, c.kind))).collect();
            let v = live[g.below(live.len())].clone();
            victims.push(v.clone());
            if g.chance(15) {
                let w = live[g.below(live.len())].clone();
                if w != v {
                    victims.push(w);
                }
            }
            // failing restarts
            if g.chance(35) {
                let id = pick_id(&mut g, &m);
                let n = 1 + g.below(3);
                let r = if g.chance(75) { Res::Fail } else { Res::Ignore };
                m.trace.push(format!("the next {n} starts of {id}: {r:?}"));
                for _ in 0..n {
                    s.lock().unwrap().script.entry(id.clone()).or_default().push_back(r);
                }
                if g.chance(50) && r == Res::Fail {
                    let n = Arc::new(Notify::new());
                    s.lock().unwrap().gate = Some((id, n.clone()));
                    gate = Some(n);
                }
            }
            for (id, pid, _) in &victims {
                let reason = match g.below(6) {
                    5 => ExitReason::Ignore,
                    0 => ExitReason::Normal,
                    1 => ExitReason::from("shutdown"),
                    2 => ExitReason::Kill,
                    _ => ExitReason::from("boom"),
                };
                m.trace.push(format!("{id} {pid:?} exits: {reason:?}"));
                let tx = s.lock().unwrap().running.get(pid).cloned();
                let Some(tx) = tx else { return fail(&["C12", "C14", "C15"], format!("{id} {pid:?} is not running though the table lists it"), &m.trace) };
                let _ = tx.send(reason.clone());
                m.queue.push_back((Op::Exited(*pid, reason), None));
            }
        }
        if gate.is_some() {
            for _ in 0..20 {
                quiet(&s).await;
                if s.lock().unwrap().at_gate {
                    break;
                }
            }
            let there = std::mem::take(&mut s.lock().unwrap().at_gate);
            if !there {
                s.lock().unwrap().gate = None;
                gate = None;
            }
        }
        if !crash || gate.is_some() {
            asked.push(match g.below(7) {
                0 | 1 => Op::Terminate(pick_id(&mut g, &m)),
                2 | 3 => Op::Restart(pick_id(&mut g, &m)),
                4 => Op::Delete(pick_id(&mut g, &m)),
                _ => {
                    let c = if g.chance(40) {
                        let mut c = random_child(&mut g, 0);
                        c.id = pick_id(&mut g, &m);
                        c
                    } else {
                        next_id += 1;
                        random_child(&mut g, next_id)
                    };
                    if g.chance(15) {
                        let r = if g.chance(50) { Res::Fail } else { Res::Ignore };
                        m.trace.push(format!("the next start of {}: {r:?}", c.id));
                        s.lock().unwrap().script.entry(c.id.clone()).or_default().push_back(r);
                    }
                    m.fresh.push(c);
                    Op::StartNew(m.fresh.len() - 1)
                }
            });
        }
        if let [op] = &asked[..] {
            m.trace.push(format!("asked: {op:?}{}", if let Op::StartNew(k) = op { format!(" = {} {:?} {:?} {:?}", m.fresh[*k].id, m.fresh[*k].restart, m.fresh[*k].kind, m.fresh[*k].shutdown) } else { String::new() }));
        }
        // what the supervisor does
        let mut got = None;
        if let Some(n) = gate {
            let op = asked[0].clone();
            m.late = Some((s.lock().unwrap().log.len(), op.clone()));
            let (c2, s2, fr) = (client2.clone(), s.clone(), m.fresh.clone());
            let h = tokio::spawn(async move { ask(&c2, sup, &op, &s2, &fr).await });
            quiet(&s).await;
            n.notify_one();
            got = h.await.ok();
        } else if let [op] = &asked[..] {
            got = Some(ask(&client, sup, op, &s, &m.fresh).await);
        }
        quiet(&s).await;
        // the ends of the victims come first in the log
        for (id, pid, _) in &victims {
            m.ctx = vec!["C12", "C14"];
            let (e, _) = m.next(&format!("the end of {id}"))?;
            m.trace.push(format!("  {e:?}"));
            if e != Ev::End(id.clone(), *pid) {
                // two victims whose ends crossed the supervisor's reaction: not decided here
                return Ok(());
            }
            m.alive.remove(pid);
        }
        if let (false, [op]) = (crash, &asked[..]) {
            m.queue.push_back((op.clone(), Some(0)));
        }
        let mut answer = None;
        while let Some((op, ask)) = m.queue.pop_front() {
            if m.dead.is_some() {
                break;
            }
            let a = m.step(op)?;
            if ask.is_some() {
                answer = a;
            }
        }
        let n = s.lock().unwrap().log.len();
        if n != m.pos {
            let e = s.lock().unwrap().log[m.pos].0.clone();
            let mut p = m.ctx.clone();
            if matches!(e, Ev::Stop(..) | Ev::End(..)) && !m.ctx.contains(&"C13") && m.ctx.contains(&"C12") {
                p.push("C13");
            }
            return fail(&p, format!("{e:?} happened though nothing more was due"), &m.trace);
        }
        let alive = Process::alive(sup);
        if m.dead.is_some() {
            ensure!(m.ctx, m.trace, !alive, "the supervisor still runs though it was to stop ({})", m.dead.unwrap());
            let downs = watcher.drain().await.unwrap_or_default();
            let reason = downs.iter().find_map(|d| if let Item::Down(_, _, r) = d { Some(r.clone()) } else { None });
            ensure!(m.ctx, m.trace, reason == Some(ExitReason::from("shutdown")), "the supervisor exited with {reason:?}");
            return Ok(());
        }
        ensure!(["C13", "C12"], m.trace, alive, "the supervisor stopped after {} counted restarts", m.restarts);
        if let (Some(a), Some(got)) = (&answer, &got) {
            ensure!(["C15"], m.trace, a == got, "the answer is {got:?}, not {a:?}");
        }
        let w = ask(&client, sup, &Op::Which, &s, &m.fresh).await;
        ensure!([m.ctx[0], "C15", "C14"], m.trace, w == Answer::Text(m.which()), "which_children: {w:?}, not {}", m.which());
        let c = ask(&client, sup, &Op::Count, &s, &m.fresh).await;
        let e = m.step(Op::Count)?.unwrap();
        ensure!(["C15"], m.trace, c == e, "count_children (specs active supervisors workers): {c:?}, not {e:?}");
        m.trace.push(format!("table: {}", m.which()));
        for c in &m.children {
            if let Some(p) = c.pid {
                ensure!(["C14", "C15"], m.trace, Process::alive(p), "{} {p:?} is not alive", c.id);
            }
        }
    }
    // a regular stop
    m.trace.push("stop".into());
    let r = watcher.call_async(move || async move { Supervisor::stop(sup, ExitReason::from("bye"), None).await }.boxed()).await;
    m.ctx = vec!["C16"];
    m.die("asked to stop")?;
    let n = s.lock().unwrap().log.len();
    ensure!(["C16"], m.trace, n == m.pos, "{:?} happened though nothing more was due", s.lock().unwrap().log[m.pos].0);
    ensure!(["C16"], m.trace, matches!(r, Ok(Ok(()))), "stop returned {r:?}");
    Ok(())
}
fn main_case(seed: u64) -> R {
    rt(run(seed))
}
/// a stubborn worker and a stubborn supervisor child with the default shutdown
async fn defaults(_seed: u64) -> R {
    let t = vec![];
    let mk = |sup: bool| MChild { id: "c".into(), restart: Restart::Permanent, sup, significant: false, shutdown: None, kind: Kind::Stubborn, pid: None, restarting: false };
    let mut runs = vec![];
    for sup_child in [false, true] {
        let s: S = Default::default();
        let sp = spec(&s, &mk(sup_child));
        let w = Puppet::spawn();
        let sup = w.call_async(move || async move { Supervisor::new().add_child(sp).start(SupervisorOptions::new()).await }.boxed()).await;
        let Ok(Ok(sup)) = sup else { return fail(&["C16"], "the supervisor did not start", &t) };
        let h = tokio::spawn(async move { w.call_async(move || async move { Supervisor::stop(sup, ExitReason::Normal, None).await }.boxed()).await });
        runs.push((s, sup, h));
    }
    let (s2, sup2, h2) = runs.pop().unwrap();
    let (s1, _, h1) = runs.pop().unwrap();
    tokio::time::sleep(Duration::from_millis(5600)).await;
    let r = h1.await;
    ensure!(["C16"], t, matches!(r, Ok(Ok(Ok(())))), "stopping a supervisor with a worker that ignores shutdown: {r:?}");
    let log = s1.lock().unwrap().log.clone();
    let (mut told, mut end) = (None, None);
    for (e, at) in &log {
        match e {
            Ev::Stop(..) => told = *at,
            Ev::End(..) => end = *at,
            _ => {}
        }
    }
    let (Some(a), Some(b)) = (told, end) else { return fail(&["C16"], format!("events: {:?}", log.iter().map(|x| &x.0).collect::<Vec<_>>()), &t) };
    ensure!(["C16"], t, b - a >= Duration::from_millis(4980) && b - a < Duration::from_secs(8), "a worker with the default shutdown was killed after {:?}", b - a);
    ensure!(["C16"], t, !s2.lock().unwrap().log.iter().any(|x| matches!(x.0, Ev::End(..))), "a supervisor child with the default shutdown was killed");
    ensure!(["C16"], t, Process::alive(sup2), "the supervisor did not wait for its supervisor child");
    let tx = s2.lock().unwrap().running.values().next().cloned();
    if let Some(tx) = tx {
        let _ = tx.send(ExitReason::Normal);
    }
    let r = h2.await;
    ensure!(["C16"], t, matches!(r, Ok(Ok(Ok(())))), "stop returned {r:?}");
    Ok(())
}
fn defaults_case(seed: u64) -> R {
    rt(defaults(seed))
}
/// restarts older than the window are forgotten, younger ones are not
fn window_case(seed: u64) -> R {
    rt(async move {
        let mut g = Rng::new(seed);
        let s: S = Default::default();
        let max = 1 + g.below(3);
        let window = Duration::from_millis(1500);
        let t = vec![format!("one permanent child, max_restarts {max} in {window:?}")];
        let c = MChild { id: "c".into(), restart: Restart::Permanent, sup: false, significant: false, shutdown: None, kind: Kind::Trapping, pid: None, restarting: false };
        let sp = spec(&s, &c);
        let w = Puppet::spawn();
        let sup = w.call_async(move || async move { Supervisor::new().add_child(sp).max_restarts(max).max_duration(window).start(SupervisorOptions::new()).await }.boxed()).await;
        let Ok(Ok(sup)) = sup else { return fail(&["C13"], "the supervisor did not start", &t) };
        let crash = |s: &S| {
            let tx = s.lock().unwrap().running.values().next().cloned();
            if let Some(tx) = tx {
                let _ = tx.send(ExitReason::from("boom"));
            }
        };
        let starts = |s: &S| s.lock().unwrap().log.iter().filter(|x| matches!(x.0, Ev::Start(..))).count();
        let begin = std::time::Instant::now();
        for k in 0..max {
            crash(&s);
            ensure!(["C13", "C12"], t, wait_for(3000, || starts(&s) == k + 2).await, "the child was not restarted (restart {k} of at most {max})");
        }
        let burst = begin.elapsed();
        tokio::time::sleep(window + Duration::from_millis(50)).await;
        // all of them are forgotten now: as many again are fine
        let again = std::time::Instant::now();
        for k in 0..max {
            crash(&s);
            ensure!(["C13", "C12"], t, wait_for(3000, || starts(&s) == max + k + 2).await, "the child was not restarted though the earlier restarts are older than the window");
        }
        let one_more = std::time::Instant::now();
        crash(&s);
        let down = wait_for(3000, || !Process::alive(sup)).await;
        if again.elapsed() < window && burst < window && one_more.elapsed() < Duration::from_millis(2900) {
            ensure!(["C13"], t, down, "the supervisor still runs after {} restarts within {:?}", max + 1, again.elapsed());
            ensure!(["C13"], t, starts(&s) == 2 * max + 1, "{} starts", starts(&s));
        }
        Ok(())
    })
}
pub fn cases(v: &mut Vec<Case>) {
    v.push(Case { name: "sup_model", props: &["C12", "C13", "C14", "C15", "C16"], random: true, limit: 0, f: main_case });
    v.push(Case { name: "sup_defaults", props: &["C16"], random: false, limit: 1, f: defaults_case });
    v.push(Case { name: "sup_window", props: &["C13"], random: true, limit: 3, f: window_case });
}
