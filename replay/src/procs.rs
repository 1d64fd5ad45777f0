//! Model based scenarios for processes: exit signals, links, monitors, names, aliases, sends (C01-C08, C26, C27).
use crate::harness::*;
use crate::{rt, Case};
use futures_util::FutureExt;
use hydra::*;
use std::collections::{BTreeMap, BTreeSet};
use tokio::sync::mpsc;

#[derive(Clone, Debug, PartialEq)]
enum E {
    User(u64),
    Exit(Pid, ExitReason),
    Down(usize, Dest, Reference, ExitReason),
}
struct Mon {
    r: Reference,
    by: usize,
    target: Option<usize>,
    dest: Dest,
    active: bool,
    demon: bool,
    alias: Option<bool>,
}
struct Al {
    r: Reference,
    owner: usize,
    reply: bool,
    active: bool,
    mon: Option<usize>,
}
struct P {
    p: Puppet,
    alive: bool,
    trap: bool,
    name: Option<String>,
    links: BTreeSet<usize>,
    // batches: order inside one batch is not specified between sources
    mail: Vec<Vec<(E, Vec<&'static str>)>>,
}
struct W {
    ps: Vec<P>,
    mons: Vec<Mon>,
    als: Vec<Al>,
    names: BTreeMap<String, usize>,
    t: Vec<String>,
    refs: BTreeSet<Reference>,
    pids: BTreeSet<Pid>,
}
const NAMES: [&str; 3] = ["alpha", "beta", "gamma"];

impl W {
    fn push(&mut self, i: usize, e: E, tags: &[&'static str]) {
        if self.ps[i].alive {
            let b = self.ps[i].mail.last_mut().unwrap();
            b.push((e, tags.to_vec()));
        }
    }
    fn idx(&self, p: Pid) -> Option<usize> {
        self.ps.iter().position(|x| x.p.pid == p)
    }
    fn die(&mut self, i: usize, reason: ExitReason) {
        if !self.ps[i].alive {
            return;
        }
        self.ps[i].alive = false;
        if let Some(n) = self.ps[i].name.take() {
            self.names.remove(&n);
        }
        let pid = self.ps[i].p.pid;
        let links = std::mem::take(&mut self.ps[i].links);
        let mut dead = vec![];
        for q in links {
            self.ps[q].links.remove(&i);
            if self.ps[q].trap {
                self.push(q, E::Exit(pid, reason.clone()), &["C02", "C01"]);
            } else if reason != ExitReason::Normal {
                dead.push(q);
            }
        }
        for m in 0..self.mons.len() {
            if self.mons[m].active && self.mons[m].target == Some(i) {
                self.mons[m].active = false;
                self.end_alias(m);
                let (by, d, r) = (self.mons[m].by, self.mons[m].dest.clone(), self.mons[m].r);
                self.push(by, E::Down(m, d, r, reason.clone()), &["C04", "C01", "C27"]);
            }
            if self.mons[m].by == i {
                self.mons[m].active = false;
                self.end_alias(m);
            }
        }
        for a in &mut self.als {
            if a.owner == i {
                a.active = false;
            }
        }
        for q in dead {
            self.die(q, reason.clone());
        }
    }
    fn end_alias(&mut self, m: usize) {
        for a in &mut self.als {
            if a.mon == Some(m) {
                a.active = false;
            }
        }
    }
    fn exit(&mut self, by: usize, t: usize, reason: ExitReason) {
        if !self.ps[t].alive {
            return;
        }
        let die = match &reason {
            ExitReason::Kill => true,
            ExitReason::Normal | ExitReason::Ignore => by == t,
            ExitReason::Custom(_) => by == t || !self.ps[t].trap,
        };
        let from = self.ps[by].p.pid;
        if die {
            self.die(t, reason);
        } else if self.ps[t].trap {
            self.push(t, E::Exit(from, reason), &["C01"]);
        }
    }
    /// delivers one copy to dest, returns false when it does not exist
    fn deliver(&mut self, d: &Dest, v: u64) {
        match d {
            Dest::Pid(p) => {
                if let Some(i) = self.idx(*p) {
                    self.push(i, E::User(v), &["C07"]);
                }
            }
            Dest::Named(n, _) => {
                if let Some(i) = self.names.get(n.as_ref()).copied() {
                    self.push(i, E::User(v), &["C07", "C06"]);
                }
            }
            Dest::Alias(r) => {
                if let Some(a) = self.als.iter_mut().find(|a| a.r == *r) {
                    if a.active {
                        if a.reply {
                            a.active = false;
                        }
                        let o = a.owner;
                        self.push(o, E::User(v), &["C08", "C07"]);
                    }
                }
            }
        }
    }
    async fn compare(&mut self, tags: &[&'static str]) -> R {
        settle().await;
        let list = Process::list();
        for i in 0..self.ps.len() {
            let pid = self.ps[i].p.pid;
            let alive = Process::alive(pid);
            ensure!(tags, self.t, alive == self.ps[i].alive, "P{i} is {} but should be {}", if alive { "alive" } else { "dead" }, if self.ps[i].alive { "alive" } else { "dead" });
            ensure!(["C27", "C32"], self.t, list.contains(&pid) == alive, "Process::list and alive disagree about P{i}");
            let info = Process::info(pid);
            ensure!(["C27", "C32"], self.t, info.is_some() == alive, "Process::info of P{i} exists: {} alive: {alive}", info.is_some());
            if let Some(info) = info {
                let mut want: Vec<Pid> = self.ps[i].links.iter().map(|q| self.ps[*q].p.pid).collect();
                let mut got = info.links.clone();
                want.sort();
                got.sort();
                ensure!(["C03", "C02", "C27", "C32"], self.t, want == got, "P{i} has links {got:?}, expected {want:?}");
                let mut want: Vec<Pid> = self.mons.iter().filter(|m| m.active && m.target == Some(i)).map(|m| self.ps[m.by].p.pid).collect();
                let mut got = info.monitored_by.clone();
                want.sort();
                got.sort();
                ensure!(["C04", "C05", "C27", "C32"], self.t, want == got, "P{i} is monitored by {got:?}, expected {want:?}");
                ensure!(["C06", "C27", "C32"], self.t, info.registered_name == self.ps[i].name, "P{i} has name {:?}, expected {:?}", info.registered_name, self.ps[i].name);
                ensure!(["C01", "C32"], self.t, info.trap_exit == self.ps[i].trap, "P{i} trap_exit {} expected {}", info.trap_exit, self.ps[i].trap);
            }
        }
        let mut dup = list.clone();
        dup.sort();
        dup.dedup();
        ensure!(["C26", "C27", "C32"], self.t, dup.len() == list.len(), "Process::list lists a process twice");
        let mut got = Process::registered();
        got.sort();
        let want: Vec<String> = self.names.keys().cloned().collect();
        ensure!(["C06", "C27", "C32"], self.t, got == want, "registered() is {got:?}, expected {want:?}");
        for n in NAMES {
            let got = Process::whereis(n);
            let want = self.names.get(n).map(|i| self.ps[*i].p.pid);
            ensure!(["C06", "C27", "C32"], self.t, got == want, "whereis({n}) is {got:?}, expected {want:?}");
        }
        Ok(())
    }
    async fn drain(&mut self, i: usize) -> R {
        self.t.push(format!("drain P{i}"));
        let got = match self.ps[i].p.drain().await {
            Ok(v) => v,
            Err(e) => return fail(&["C27", "C07"], format!("receiving in live process P{i} failed: {e:?}"), &self.t),
        };
        let mut want: Vec<Vec<(E, Vec<&'static str>)>> = self.ps[i].mail.drain(..).collect();
        self.ps[i].mail.push(vec![]);
        for b in want.iter_mut() {
            b.retain(|(e, _)| if let E::Down(m, ..) = e { !self.mons[*m].demon } else { true });
        }
        want.retain(|b| !b.is_empty());
        let mut g = got.clone().into_iter();
        for b in want {
            let mut b = b;
            while !b.is_empty() {
                let Some(x) = g.next() else {
                    return fail(&b[0].1, format!("P{i} did not receive {:?}; received {got:?}", b[0].0), &self.t);
                };
                let k = b.iter().position(|(e, _)| match (e, &x) {
                    (E::User(a), Item::User(c)) => a == c,
                    (E::Exit(p, r), Item::Exit(q, s)) => p == q && r == s,
                    (E::Down(_, d, r, e), Item::Down(d2, r2, e2)) => d == d2 && r == r2 && e == e2,
                    _ => false,
                });
                match k {
                    Some(k) => {
                        b.remove(k);
                    }
                    None => {
                        let mut tags = b[0].1.clone();
                        tags.extend(self.unexpected(&x));
                        return fail(&tags, format!("P{i} received {x:?} where {:?} was expected", b.iter().map(|x| &x.0).collect::<Vec<_>>()), &self.t);
                    }
                }
            }
        }
        if let Some(x) = g.next() {
            return fail(&self.unexpected(&x), format!("P{i} received {x:?}, which it should not have received"), &self.t);
        }
        Ok(())
    }
    fn unexpected(&self, x: &Item) -> Vec<&'static str> {
        match x {
            Item::User(_) => vec!["C07", "C08"],
            Item::Exit(..) => vec!["C02", "C03", "C01"],
            Item::Down(_, r, _) => {
                if self.mons.iter().any(|m| m.r == *r && m.demon) {
                    vec!["C05"]
                } else {
                    vec!["C04"]
                }
            }
            _ => vec!["C04"],
        }
    }
}
fn reason(r: &mut Rng) -> ExitReason {
    match r.below(6) {
        0 => ExitReason::Normal,
        1 => ExitReason::Kill,
        2 => ExitReason::Ignore,
        3 => ExitReason::from("boom"),
        4 => ExitReason::from("shutdown"),
        _ => ExitReason::from(String::from("other")),
    }
}
/// focus: weights per operation family
async fn model(seed: u64, focus: &'static [usize; 12], steps: usize) -> R {
    let mut r = Rng::new(seed);
    let mut w = W { ps: vec![], mons: vec![], als: vec![], names: BTreeMap::new(), t: vec![], refs: BTreeSet::new(), pids: BTreeSet::new() };
    let base: BTreeSet<Pid> = Process::list().into_iter().collect();
    let _ = base;
    let total: usize = focus.iter().sum();
    for _ in 0..3 {
        spawn(&mut w, None, false, false).await?;
    }
    settle().await;
    let mut val = 0u64;
    for _ in 0..steps {
        let live: Vec<usize> = (0..w.ps.len()).filter(|i| w.ps[*i].alive).collect();
        for p in &mut w.ps {
            p.mail.push(vec![]);
        }
        if live.len() < 2 {
            spawn(&mut w, None, false, false).await?;
            settle().await;
            continue;
        }
        let by = live[r.below(live.len())];
        // mostly live targets, sometimes dead ones
        let t = if r.chance(85) { live[r.below(live.len())] } else { r.below(w.ps.len()) };
        let (bp, tp) = (w.ps[by].p.clone(), w.ps[t].p.clone());
        let mut k = r.below(total);
        let mut op = 0;
        while k >= focus[op] {
            k -= focus[op];
            op += 1;
        }
        match op {
            0 => {
                if w.ps.len() < 9 {
                    let (l, m) = match r.below(3) {
                        0 => (true, false),
                        1 => (false, true),
                        _ => (false, false),
                    };
                    spawn(&mut w, Some(by), l, m).await?;
                    let tags: &[&'static str] = if l { &["C27", "C03"] } else if m { &["C27", "C04"] } else { &["C27"] };
                    w.compare(tags).await?;
                }
            }
            1 => {
                let why = reason(&mut r);
                w.t.push(format!("P{by}: exit(P{t}, {why:?})"));
                let (pid, y) = (tp.pid, why.clone());
                // sometimes a second signal follows before the target had a chance to run
                let second = if by != t && r.chance(25) { Some(reason(&mut r)) } else { None };
                if let Some(y) = &second {
                    w.t.push(format!("P{by}: exit(P{t}, {y:?}) right after it"));
                }
                let z = second.clone();
                let res = bp.call(move || {
                    Process::exit(pid, y);
                    if let Some(z) = z {
                        Process::exit(pid, z);
                    }
                    Process::alive(pid)
                }).await;
                let was = w.ps[t].alive;
                let kills = w.ps[by].links.contains(&t);
                w.exit(by, t, why);
                if let Some(z) = second {
                    // (a linked sender may be gone by then, its second signal is sent all the same)
                    let _ = kills;
                    w.exit(by, t, z);
                }
                if was && by != t {
                    ensure!(["C01"], w.t, res == Ok(w.ps[t].alive), "alive right after exit: {res:?}, expected {}", w.ps[t].alive);
                }
                w.compare(&["C01", "C02"]).await?;
            }
            2 => {
                w.t.push(format!("P{by}: link(P{t})"));
                let pid = tp.pid;
                let res = bp.call(move || Process::link(pid)).await;
                ensure!(["C03"], w.t, !matches!(res, Err(CallErr::Panicked(_))), "link: {res:?}");
                if by != t {
                    if w.ps[t].alive {
                        w.ps[by].links.insert(t);
                        w.ps[t].links.insert(by);
                    } else if w.ps[by].trap {
                        w.push(by, E::Exit(pid, ExitReason::from("noproc")), &["C03"]);
                    } else {
                        w.die(by, ExitReason::from("noproc"));
                    }
                }
                w.compare(&["C03"]).await?;
            }
            3 => {
                w.t.push(format!("P{by}: unlink(P{t})"));
                let pid = tp.pid;
                let res = bp.call(move || Process::unlink(pid)).await;
                ensure!(["C03"], w.t, res == Ok(()), "unlink: {res:?}");
                if by != t {
                    w.ps[by].links.remove(&t);
                    w.ps[t].links.remove(&by);
                }
                w.compare(&["C03"]).await?;
            }
            4 => {
                let named = r.chance(30);
                let alias = if r.chance(30) { Some(r.chance(50)) } else { None };
                let dest: Dest = if named { Dest::from(NAMES[r.below(3)]) } else { Dest::from(tp.pid) };
                let target = match &dest {
                    Dest::Pid(_) => Some(t),
                    Dest::Named(n, _) => w.names.get(n.as_ref()).copied(),
                    _ => None,
                };
                if !named && by == t {
                    continue;
                }
                w.t.push(format!("P{by}: monitor({dest:?} = {}, alias {alias:?})", target.map(|x| format!("P{x}")).unwrap_or("-".into())));
                let d = dest.clone();
                let res = bp.call(move || match alias {
                    Some(reply) => Process::monitor_alias(d, reply),
                    None => Process::monitor(d),
                }).await;
                let Ok(rf) = res else { return fail(&["C04"], format!("monitor: {res:?}"), &w.t) };
                ensure!(["C26"], w.t, w.refs.insert(rf), "reference {rf:?} was handed out twice");
                let m = w.mons.len();
                let ok = target.is_some_and(|t| w.ps[t].alive);
                w.mons.push(Mon { r: rf, by, target, dest: dest.clone(), active: ok, demon: false, alias });
                if alias.is_some() {
                    w.als.push(Al { r: rf, owner: by, reply: alias.unwrap(), active: ok, mon: Some(m) });
                }
                if !ok {
                    w.push(by, E::Down(m, dest, rf, ExitReason::from("noproc")), &["C04"]);
                }
                w.compare(&["C04"]).await?;
            }
            5 => {
                let ms: Vec<usize> = (0..w.mons.len()).filter(|m| w.ps[w.mons[*m].by].alive).collect();
                if ms.is_empty() {
                    continue;
                }
                let m = ms[r.below(ms.len())];
                let (o, rf) = (w.mons[m].by, w.mons[m].r);
                w.t.push(format!("P{o}: demonitor({rf:?} of {:?})", w.mons[m].dest));
                let res = w.ps[o].p.call(move || Process::demonitor(rf)).await;
                ensure!(["C05"], w.t, res == Ok(()), "demonitor: {res:?}");
                // a monitor whose DOWN was already received is finished
                w.mons[m].active = false;
                w.mons[m].demon = true;
                w.end_alias(m);
                w.compare(&["C05"]).await?;
            }
            6 => {
                let on = r.chance(60);
                w.t.push(format!("P{by}: trap_exit {on}"));
                let _ = bp.call(move || Process::set_flags(if on { ProcessFlags::TRAP_EXIT } else { ProcessFlags::empty() })).await;
                w.ps[by].trap = on;
                w.compare(&["C01"]).await?;
            }
            7 => {
                let n = NAMES[r.below(3)];
                if r.chance(65) {
                    w.t.push(format!("register(P{t}, {n})"));
                    let pid = tp.pid;
                    let res = bp.call(move || Process::register(pid, n).is_ok()).await;
                    let ok = match w.names.get(n) {
                        Some(i) => *i == t,
                        None => w.ps[t].alive && w.ps[t].name.is_none(),
                    };
                    ensure!(["C06"], w.t, res == Ok(ok), "register returned {res:?}, expected ok={ok}");
                    if ok {
                        w.names.insert(n.into(), t);
                        w.ps[t].name = Some(n.into());
                    }
                } else {
                    w.t.push(format!("unregister({n})"));
                    let res = bp.call(move || Process::unregister(n)).await;
                    match w.names.remove(n) {
                        Some(i) => {
                            ensure!(["C06"], w.t, res == Ok(()), "unregister: {res:?}");
                            w.ps[i].name = None;
                        }
                        None => ensure!(["C06"], w.t, matches!(res, Err(CallErr::Panicked(_))), "unregister of an unknown name: {res:?}"),
                    }
                }
                w.compare(&["C06"]).await?;
            }
            8 => {
                val += 1;
                let n = [1, 1, 2, 3, 4][r.below(5)];
                let mut ds: Vec<Dest> = vec![];
                for _ in 0..n {
                    ds.push(match r.below(4) {
                        0 => Dest::from(NAMES[r.below(3)]),
                        1 if !w.als.is_empty() => Dest::from(w.als[r.below(w.als.len())].r),
                        _ => {
                            let i = if r.chance(80) { live[r.below(live.len())] } else { r.below(w.ps.len()) };
                            Dest::from(w.ps[i].p.pid)
                        }
                    });
                }
                w.t.push(format!("P{by}: send({ds:?}, {val})"));
                let (dd, v) = (ds.clone(), val);
                let single = n == 1 && r.chance(50);
                let res = bp.call(move || if single { Process::send(dd[0].clone(), v) } else { Process::send(dd, v) }).await;
                ensure!(["C07"], w.t, res == Ok(()), "send: {res:?}");
                for d in &ds {
                    w.deliver(d, val);
                }
                w.compare(&["C07"]).await?;
            }
            9 => {
                if r.chance(50) {
                    let reply = r.chance(50);
                    w.t.push(format!("P{by}: alias({reply})"));
                    let res = bp.call(move || Process::alias(reply)).await;
                    let Ok(rf) = res else { return fail(&["C08"], format!("alias: {res:?}"), &w.t) };
                    ensure!(["C26"], w.t, w.refs.insert(rf), "reference {rf:?} was handed out twice");
                    w.als.push(Al { r: rf, owner: by, reply, active: true, mon: None });
                } else if !w.als.is_empty() {
                    let a = r.below(w.als.len());
                    let rf = w.als[a].r;
                    let by = if r.chance(60) && w.ps[w.als[a].owner].alive { w.als[a].owner } else { by };
                    w.t.push(format!("P{by}: unalias({rf:?}) of P{}", w.als[a].owner));
                    let res = w.ps[by].p.call(move || Process::unalias(rf)).await;
                    let want = w.als[a].active && w.als[a].owner == by;
                    ensure!(["C08"], w.t, res == Ok(want), "unalias returned {res:?}, expected {want}");
                    if want {
                        w.als[a].active = false;
                    }
                }
                w.compare(&["C08"]).await?;
            }
            10 => {
                let t = by;
                let (c, why, n) = match r.below(4) {
                    0 => (Cmd::Finish, ExitReason::Normal, "returns"),
                    1 => (Cmd::Panic("it broke".into()), ExitReason::from("it broke"), "panics with a String"),
                    2 => (Cmd::PanicStatic, ExitReason::from("static panic"), "panics with a str"),
                    _ => (Cmd::PanicOther, ExitReason::from("Unknown error!"), "panics with another value"),
                };
                w.t.push(format!("P{t} {n}"));
                w.ps[t].p.cmd(c);
                w.die(t, why);
                w.compare(&["C27", "C02"]).await?;
            }
            _ => {
                if r.chance(40) {
                    // a selective receive that matches nothing looks at every message and takes none
                    w.t.push(format!("P{by}: select(nothing)"));
                    let _ = bp.call(|| Process::receiver().for_message::<u64>().select(|_| false).now_or_never().is_none()).await;
                } else {
                    w.drain(by).await?;
                }
            }
        }
    }
    // everything still expected must be there
    let live: Vec<usize> = (0..w.ps.len()).filter(|i| w.ps[*i].alive).collect();
    for p in &mut w.ps {
        p.mail.push(vec![]);
    }
    for i in live.iter() {
        w.drain(*i).await?;
    }
    // aliases answer according to the model
    for a in 0..w.als.len() {
        for p in &mut w.ps {
            p.mail.push(vec![]);
        }
        val += 1;
        let d = Dest::from(w.als[a].r);
        w.t.push(format!("send({d:?}, {val})"));
        Process::send(d.clone(), val);
        w.deliver(&d, val);
    }
    for i in live {
        w.drain(i).await?;
    }
    Ok(())
}
async fn spawn(w: &mut W, by: Option<usize>, link: bool, monitor: bool) -> R {
    let i = w.ps.len();
    w.t.push(format!("P{i} := spawn by {by:?} link={link} monitor={monitor}"));
    let (p, m) = match by {
        None => (Puppet::spawn(), None),
        Some(b) => match w.ps[b].p.clone().spawn_from(link, monitor).await {
            Ok(x) => x,
            Err(e) => return fail(&["C27"], format!("spawn: {e:?}"), &w.t),
        },
    };
    ensure!(["C26"], w.t, w.pids.insert(p.pid), "pid {:?} was handed out twice", p.pid);
    ensure!(["C26"], w.t, p.pid.is_local(), "pid {:?} is not local", p.pid);
    ensure!(["C27"], w.t, Process::alive(p.pid), "P{i} is not alive right after spawn");
    let pid = p.pid;
    w.ps.push(P { p, alive: true, trap: false, name: None, links: BTreeSet::new(), mail: vec![vec![]] });
    if let (Some(b), true) = (by, link) {
        w.ps[b].links.insert(i);
        w.ps[i].links.insert(b);
    }
    if let (Some(b), Some(r)) = (by, m) {
        ensure!(["C26"], w.t, w.refs.insert(r), "reference {r:?} was handed out twice");
        w.mons.push(Mon { r, by: b, target: Some(i), dest: Dest::from(pid), active: true, demon: false, alias: None });
    }
    Ok(())
}
//                     spawn exit link unl mon dem trap reg send ali end drain
const F_ALL: [usize; 12] = [6, 14, 12, 8, 12, 8, 6, 8, 12, 8, 4, 10];
const F_LINK: [usize; 12] = [6, 14, 24, 16, 0, 0, 10, 0, 0, 0, 6, 12];
const F_MON: [usize; 12] = [6, 14, 2, 0, 24, 14, 4, 8, 2, 2, 6, 16];
const F_NAME: [usize; 12] = [6, 12, 2, 0, 4, 2, 2, 40, 12, 0, 4, 10];
const F_SEND: [usize; 12] = [6, 6, 0, 0, 8, 4, 2, 12, 30, 24, 2, 12];

/// from its first instruction a process is registered, on several worker threads
fn first_instruction(_seed: u64) -> R {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();
    rt.block_on(async {
        let (tx, mut rx) = mpsc::unbounded_channel::<(usize, bool, bool)>();
        let n = 3000;
        for i in 0..n {
            let tx = tx.clone();
            Process::spawn(async move {
                let me = Process::current();
                let alive = Process::alive(me);
                let _ = tx.send((i, alive, Process::list().contains(&me)));
            });
            for _ in 0..(i % 64) * 8 {
                std::hint::spin_loop();
            }
        }
        drop(tx);
        let mut seen = 0;
        let t = vec![format!("spawn {n} processes on 4 worker threads; each checks Process::alive(Process::current()) first")];
        while let Some((i, alive, listed)) = rx.recv().await {
            ensure!(["C27"], t, alive && listed, "process number {i}: alive {alive}, listed {listed} at its first instruction");
            seen += 1;
        }
        ensure!(["C27"], t, seen == n, "only {seen} of {n} processes ran");
        let ok = wait_for(5000, || Process::list().is_empty()).await;
        ensure!(["C27"], t, ok, "{} processes are still registered after all of them returned", Process::list().len());
        Ok(())
    })
}
pub fn cases(v: &mut Vec<Case>) {
    v.push(Case { name: "process-model", props: &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C26", "C27", "C32"], random: true, limit: 0, f: |s| rt(model(s, &F_ALL, 60)) });
    v.push(Case { name: "process-model-links", props: &["C01", "C02", "C03", "C27", "C32"], random: true, limit: 0, f: |s| rt(model(s, &F_LINK, 40)) });
    v.push(Case { name: "process-model-monitors", props: &["C04", "C05", "C27", "C32"], random: true, limit: 0, f: |s| rt(model(s, &F_MON, 40)) });
    v.push(Case { name: "process-model-names", props: &["C06", "C27", "C32"], random: true, limit: 0, f: |s| rt(model(s, &F_NAME, 40)) });
    v.push(Case { name: "process-model-sends", props: &["C07", "C08"], random: true, limit: 0, f: |s| rt(model(s, &F_SEND, 40)) });
    v.push(Case { name: "first-instruction", props: &["C27"], random: true, limit: 20, f: first_instruction });
}
