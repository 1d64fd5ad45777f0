//! Selective receive against a queue model (C09).
use crate::harness::*;
use crate::{rt, Case};
use futures_util::FutureExt;
use hydra::*;

#[derive(Clone, Debug, PartialEq)]
enum M {
    N(u64),
    S(String),
    Exit(Pid, ExitReason),
}
#[derive(Clone, Debug, PartialEq)]
enum Got {
    None,
    Panic,
    M(M),
}
async fn take_n(p: &Puppet, how: usize, k: u64, c: u64, strict: bool) -> Got {
    let r = p
        .call(move || {
            let r = Process::receiver().for_message::<u64>();
            let r = if strict { r.strict_type_checking() } else { r };
            let f = move |m: &Message<&u64>| match m {
                Message::User(u) => **u % k == c,
                Message::System(_) => c == 0,
            };
            let m = match how {
                0 => r.select(f).now_or_never(),
                1 => r.receive().now_or_never(),
                _ => {
                    r.remove(f);
                    None
                }
            };
            m.map(|m| match m {
                Message::User(u) => M::N(u),
                Message::System(SystemMessage::Exit(p, r)) => M::Exit(p, r),
                Message::System(_) => M::N(u64::MAX),
            })
        })
        .await;
    match r {
        Ok(Some(m)) => Got::M(m),
        Ok(None) => Got::None,
        Err(_) => Got::Panic,
    }
}
async fn take_s(p: &Puppet, how: usize, k: u64, c: u64, strict: bool) -> Got {
    let r = p
        .call(move || {
            let r = Process::receiver().for_message::<String>();
            let r = if strict { r.strict_type_checking() } else { r };
            let f = move |m: &Message<&String>| match m {
                Message::User(u) => u.len() as u64 % k == c,
                Message::System(_) => c == 0,
            };
            let m = match how {
                0 => r.select(f).now_or_never(),
                1 => r.receive().now_or_never(),
                _ => {
                    r.remove(f);
                    None
                }
            };
            m.map(|m| match m {
                Message::User(u) => M::S(u),
                Message::System(SystemMessage::Exit(p, r)) => M::Exit(p, r),
                Message::System(_) => M::S("?".into()),
            })
        })
        .await;
    match r {
        Ok(Some(m)) => Got::M(m),
        Ok(None) => Got::None,
        Err(_) => Got::Panic,
    }
}
fn model(q: &mut Vec<M>, num: bool, how: usize, k: u64, c: u64, strict: bool) -> Got {
    let mut i = 0;
    while i < q.len() {
        let m = match &q[i] {
            M::N(u) if num => Some(how == 1 || u % k == c),
            M::S(s) if !num => Some(how == 1 || s.len() as u64 % k == c),
            M::Exit(..) => Some(how == 1 || c == 0),
            _ => None,
        };
        match m {
            Some(true) => {
                let x = q.remove(i);
                if how != 2 {
                    return Got::M(x);
                }
                continue;
            }
            Some(false) => {}
            None => {
                if strict {
                    return Got::Panic;
                }
            }
        }
        i += 1;
    }
    Got::None
}
async fn run(seed: u64) -> R {
    let mut g = Rng::new(seed);
    let mut t = vec![];
    let p = Puppet::spawn();
    let o = Puppet::spawn();
    let _ = p.call(|| Process::set_flags(ProcessFlags::TRAP_EXIT)).await;
    let mut q: Vec<M> = vec![];
    let mut n = 0u64;
    for _ in 0..40 {
        if g.chance(60) {
            n += 1;
            match g.below(5) {
                0 | 1 => {
                    let v = n * 10 + g.below(10) as u64;
                    Process::send(p.pid, v);
                    t.push(format!("send {v}"));
                    q.push(M::N(v));
                }
                2 | 3 => {
                    let s = format!("{n}{}", "x".repeat(g.below(6)));
                    Process::send(p.pid, s.clone());
                    t.push(format!("send {s:?}"));
                    q.push(M::S(s));
                }
                _ => {
                    let r = ExitReason::from(format!("r{n}"));
                    let (to, r2) = (p.pid, r.clone());
                    let _ = o.call(move || Process::exit(to, r2)).await;
                    t.push(format!("exit signal {r:?} (trapped)"));
                    q.push(M::Exit(o.pid, r));
                }
            }
            continue;
        }
        let (num, how, k, strict) = (g.chance(50), [0, 0, 0, 1, 2][g.below(5)], 2 + g.below(3) as u64, g.chance(8));
        let c = g.below(k as usize) as u64;
        t.push(format!("{} of {} with value/length % {k} == {c}{}", ["select", "receive", "remove"][how], if num { "u64" } else { "String" }, if strict { ", strict" } else { "" }));
        let before = q.clone();
        let want = model(&mut q, num, how, k, c, strict);
        let got = if num { take_n(&p, how, k, c, strict).await } else { take_s(&p, how, k, c, strict).await };
        ensure!(["C09"], t, got == want, "got {got:?}, expected {want:?}; mailbox was {before:?}");
        if want == Got::Panic {
            return Ok(());
        }
    }
    // everything left comes out in order, type by type
    for num in [true, false] {
        loop {
            let want = model(&mut q, num, 1, 1, 0, false);
            let got = if num { take_n(&p, 1, 1, 0, false).await } else { take_s(&p, 1, 1, 0, false).await };
            ensure!(["C09"], t, got == want, "final drain: got {got:?}, expected {want:?}");
            if want == Got::None {
                break;
            }
        }
    }
    ensure!(["C09"], t, q.is_empty(), "model not empty: {q:?}");
    Ok(())
}
/// a waiting select keeps what it passes over, in order
async fn waiting(seed: u64) -> R {
    let mut g = Rng::new(seed);
    let mut t = vec![];
    let p = Puppet::spawn();
    let pre: Vec<u64> = (0..g.below(4)).map(|i| 100 + 2 * i as u64).collect();
    for v in &pre {
        Process::send(p.pid, *v);
    }
    let h = p.clone();
    let j = tokio::spawn(async move {
        h.call_async(|| async { Process::receiver().for_message::<u64>().select(|m| matches!(m, Message::User(u) if **u % 2 == 1)).await }.boxed()).await
    });
    settle().await;
    let mut sent = pre.clone();
    let mut others = vec![];
    for i in 0..g.below(6) {
        let v = 200 + 2 * i as u64;
        if g.chance(30) {
            Process::send(p.pid, format!("s{i}"));
            others.push(format!("s{i}"));
        } else {
            Process::send(p.pid, v);
            sent.push(v);
        }
        if g.chance(50) {
            settle().await;
        }
    }
    Process::send(p.pid, 301u64);
    for i in 0..g.below(3) {
        let v = 401 + i as u64;
        Process::send(p.pid, v);
        sent.push(v);
    }
    t.push(format!("select(odd) waits; queued before and after: {sent:?} with 301 first odd, other types {others:?}"));
    let r = j.await.unwrap();
    ensure!(["C09"], t, matches!(r, Ok(Message::User(301))), "select returned {r:?}");
    let rest = p
        .call(|| {
            let mut v = vec![];
            while let Some(m) = Process::receiver().for_message::<u64>().receive().now_or_never() {
                if let Message::User(u) = m {
                    v.push(u);
                }
            }
            let mut s = vec![];
            while let Some(m) = Process::receiver().for_message::<String>().receive().now_or_never() {
                if let Message::User(u) = m {
                    s.push(u);
                }
            }
            (v, s)
        })
        .await;
    ensure!(["C09"], t, rest == Ok((sent.clone(), others.clone())), "left in the mailbox {rest:?}");
    Ok(())
}
pub fn cases(v: &mut Vec<Case>) {
    v.push(Case { name: "receive-model", props: &["C09"], random: true, limit: 0, f: |s| rt(run(s)) });
    v.push(Case { name: "receive-waiting", props: &["C09"], random: true, limit: 3000, f: |s| rt(waiting(s)) });
}
