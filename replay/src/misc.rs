//! Timers (C24), tasks and semaphores (C25) against simple models.
use crate::harness::*;
use crate::{rt, Case};
use futures_util::FutureExt;
use hydra::*;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

type Log = Arc<Mutex<Vec<(usize, u64, Instant)>>>;
fn sink(i: usize, log: &Log) -> Pid {
    let log = log.clone();
    Process::spawn(async move {
        loop {
            if let Message::User(v) = Process::receive::<u64>().await {
                log.lock().unwrap().push((i, v, Instant::now()));
            }
        }
    })
}
struct T {
    v: u64,
    r: Reference,
    to: Vec<usize>,
    set: Instant,
    ms: u64,
    cancelled: Option<(Instant, Instant)>,
}
async fn timers(seed: u64) -> R {
    const P: [&str; 1] = ["C24"];
    let mut g = Rng::new(seed);
    let mut t: Vec<String> = vec![];
    let log: Log = Default::default();
    let sinks: Vec<Pid> = (0..3).map(|i| sink(i, &log)).collect();
    let p = Puppet::spawn();
    let mut ts: Vec<T> = vec![];
    let begin = Instant::now();
    let delivered = |log: &Log, v: u64| log.lock().unwrap().iter().filter(|x| x.1 == v).count();
    for k in 0..16u64 {
        match g.below(6) {
            0 | 1 | 2 => {
                let ms = [0u64, 1, 15, 40, 80, 5000][g.below(6)];
                let to: Vec<usize> = if g.chance(70) { vec![g.below(3)] } else { vec![0, 2] };
                let d: Vec<Pid> = to.iter().map(|i| sinks[*i]).collect();
                let set = Instant::now();
                let r = p
                    .call(move || {
                        if d.len() == 1 {
                            Process::send_after(d[0], k, Duration::from_millis(ms))
                        } else {
                            Process::send_after(&d[..], k, Duration::from_millis(ms))
                        }
                    })
                    .await
                    .unwrap();
                t.push(format!("{:?}: timer {k} for {ms} ms to {to:?}", begin.elapsed()));
                ts.push(T { v: k, r, to, set, ms, cancelled: None });
            }
            3 if !ts.is_empty() => {
                let i = g.below(ts.len());
                let r = ts[i].r;
                let a = Instant::now();
                Process::cancel_timer(r);
                if ts[i].cancelled.is_none() {
                    ts[i].cancelled = Some((a, Instant::now()));
                }
                t.push(format!("{:?}: cancel timer {}", begin.elapsed(), ts[i].v));
                let x = Process::read_timer(r);
                ensure!(P, t, x.is_none(), "a cancelled timer reads {x:?}");
            }
            4 if !ts.is_empty() => {
                let i = g.below(ts.len());
                let x = Process::read_timer(ts[i].r);
                let e = ts[i].set.elapsed();
                t.push(format!("{:?}: read timer {} -> {x:?}", begin.elapsed(), ts[i].v));
                let d = Duration::from_millis(ts[i].ms);
                if let Some(x) = x {
                    ensure!(P, t, ts[i].cancelled.is_none(), "a cancelled timer can be read");
                    ensure!(P, t, x <= d, "more time remains than the timer was set for");
                    ensure!(P, t, delivered(&log, ts[i].v) == 0, "a fired timer can be read");
                    ensure!(P, t, x + e + Duration::from_millis(1) >= d, "less time remains than the timer has left");
                } else {
                    ensure!(P, t, ts[i].cancelled.is_some() || e >= d, "a running timer reads as None");
                }
            }
            _ => tokio::time::sleep(Duration::from_millis(g.below(20) as u64)).await,
        }
    }
    tokio::time::sleep(Duration::from_millis(100)).await;
    t.push(format!("{:?}: all short timers are over", begin.elapsed()));
    for x in &ts {
        let l = log.lock().unwrap().clone();
        let due = x.set + Duration::from_millis(x.ms);
        let got: Vec<_> = l.iter().filter(|y| y.1 == x.v).collect();
        for y in &got {
            ensure!(P, t, y.2 >= due, "timer {} was delivered {:?} before its time", x.v, due - y.2);
        }
        let once = || {
            let mut a: Vec<usize> = got.iter().map(|y| y.0).collect();
            a.sort();
            a == x.to
        };
        match x.cancelled {
            // the cancellation came before the time: never
            Some((_, b)) if b < due => ensure!(P, t, got.is_empty(), "timer {} was delivered after it was cancelled", x.v),
            Some(_) => ensure!(P, t, got.is_empty() || once(), "timer {} was delivered {} times", x.v, got.len()),
            None if x.ms < 1000 => {
                ensure!(P, t, once(), "timer {} reached {:?}, expected once each {:?}", x.v, got.iter().map(|y| y.0).collect::<Vec<_>>(), x.to);
                ensure!(P, t, Process::read_timer(x.r).is_none(), "timer {} has fired but can still be read", x.v);
            }
            None => {
                ensure!(P, t, got.is_empty() && Process::read_timer(x.r).is_some(), "timer {} is not running", x.v);
                Process::cancel_timer(x.r);
            }
        }
    }
    Ok(())
}
fn timers_threads(seed: u64) -> R {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();
    let r = rt.block_on(async move {
        let log: Log = Default::default();
        let s = sink(0, &log);
        let p = Puppet::spawn();
        let rs = p.call(move || (0..400u64).map(|k| Process::send_after(s, k, Duration::from_millis((seed + k) % 2))).collect::<Vec<_>>()).await.unwrap();
        wait_for(3000, || log.lock().unwrap().len() >= 400).await;
        tokio::time::sleep(Duration::from_millis(20)).await;
        let mut seen: Vec<u64> = log.lock().unwrap().iter().map(|x| x.1).collect();
        seen.sort();
        let t = vec!["400 timers of 0 or 1 ms on 4 threads".to_string()];
        ensure!(["C24"], t, seen == (0..400).collect::<Vec<_>>(), "{} messages were delivered, expected each of 400 once", seen.len());
        for r in rs {
            let x = Process::read_timer(r);
            ensure!(["C24"], t, x.is_none(), "a fired timer reads {x:?}");
        }
        Ok(())
    });
    rt.shutdown_background();
    r
}
async fn tasks(seed: u64) -> R {
    const P: [&str; 1] = ["C25"];
    let mut g = Rng::new(seed);
    let mut t: Vec<String> = vec![];
    let mk = |g: &mut Rng, v: u64, t: &mut Vec<String>| {
        let (n, dies, blocking) = (g.below(12), g.chance(15), g.chance(15));
        t.push(format!("task {v}: {n} yields, dies={dies}, blocking={blocking}"));
        let h = if blocking {
            Task::spawn_blocking(move || {
                if dies {
                    panic!("task {v} dies")
                }
                v
            })
        } else {
            Task::spawn(async move {
                for _ in 0..n {
                    tokio::task::yield_now().await;
                }
                if dies {
                    panic!("task {v} dies")
                }
                v
            })
        };
        (h, dies)
    };
    let (a, b, c, d, e) = (mk(&mut g, 1, &mut t), mk(&mut g, 2, &mut t), mk(&mut g, 3, &mut t), mk(&mut g, 4, &mut t), mk(&mut g, 5, &mut t));
    let any = a.1 || b.1 || c.1 || d.1 || e.1;
    let r = Task::await_many([a.0, b.0, c.0, d.0, e.0]).await;
    t.push(format!("await_many -> {r:?}"));
    if any {
        let first = [a.1, b.1, c.1, d.1, e.1].iter().position(|x| *x).unwrap() + 1;
        ensure!(P, t, matches!(&r, Err(e) if e.0.contains(&format!("task {first} dies"))), "task {first} is the first that died but await_many returned {r:?}");
    } else {
        ensure!(P, t, matches!(&r, Ok(v) if *v == vec![1, 2, 3, 4, 5]), "await_many returned the wrong results");
    }
    let none = Task::await_many::<u64, 0>([]).await;
    ensure!(P, t, matches!(&none, Ok(v) if v.is_empty()), "await_many of no tasks returned {none:?}");
    let mut hs: Vec<(u64, TaskHandle<u64>, bool)> = vec![];
    for v in 10..14 {
        let (h, dies) = mk(&mut g, v, &mut t);
        hs.push((v, h, dies));
    }
    while !hs.is_empty() {
        let (v, h, dies) = hs.remove(g.below(hs.len()));
        let r = h.await;
        ensure!(P, t, if dies { matches!(&r, Err(e) if e.0.contains(&format!("task {v} dies"))) } else { matches!(r, Ok(x) if x == v) }, "awaiting task {v} returned {r:?}");
    }
    // shutdown
    let steps = Arc::new(AtomicU64::new(0));
    let total = g.below(6) as u64;
    let s2 = steps.clone();
    let h = Task::spawn(async move {
        for _ in 0..total {
            s2.fetch_add(1, Ordering::SeqCst);
            tokio::task::yield_now().await;
        }
        total
    });
    let y = g.below(8);
    for _ in 0..y {
        tokio::task::yield_now().await;
    }
    let before = steps.load(Ordering::SeqCst);
    let finished = h_done(&steps, total, y);
    let r = Task::shutdown(h).await;
    settle().await;
    let after = steps.load(Ordering::SeqCst);
    t.push(format!("shutdown of a task with {total} steps after {y} yields -> {r:?}, steps before {before}, after {after}"));
    ensure!(P, t, before == after, "a task ran on after it was shut down");
    if !finished && before < total {
        ensure!(P, t, r.is_err(), "an unfinished task was shut down with a result");
    }
    if let Ok(v) = r {
        ensure!(P, t, v == total && after == total, "shutdown returned a wrong result");
    }
    Ok(())
}
fn h_done(s: &Arc<AtomicU64>, total: u64, y: usize) -> bool {
    s.load(Ordering::SeqCst) == total && y as u64 > total
}
enum Permit<'a> {
    One(SemaphorePermit<'a>),
    Own(OwnedSemaphorePermit),
}
async fn semaphores(seed: u64) -> R {
    const P: [&str; 1] = ["C25"];
    let mut g = Rng::new(seed);
    let mut t: Vec<String> = vec![];
    let total = g.below(5);
    let a = Semaphore::new(total);
    let b = OwnedSemaphore::new(total);
    t.push(format!("two semaphores of {total} permits"));
    let (mut ha, mut hb): (Vec<(usize, Permit)>, Vec<(usize, Permit)>) = (vec![], vec![]);
    for _ in 0..60 {
        let (ua, ub): (usize, usize) = (ha.iter().map(|x| x.0).sum(), hb.iter().map(|x| x.0).sum());
        let n = g.below(total + 2);
        let op = g.below(11);
        let (name, got, want): (String, bool, bool) = match op {
            0 => {
                let x = a.try_acquire().ok();
                let r = x.is_some();
                ha.extend(x.map(|p| (1, Permit::One(p))));
                ("try_acquire".into(), r, total - ua >= 1)
            }
            1 => {
                let x = a.acquire().now_or_never();
                let r = x.is_some();
                ha.extend(x.map(|p| (1, Permit::One(p))));
                ("acquire".into(), r, total - ua >= 1)
            }
            2 => {
                let x = a.acquire_many(n as u32).now_or_never();
                let r = x.is_some();
                ha.extend(x.map(|p| (n, Permit::One(p))));
                (format!("acquire_many({n})"), r, total - ua >= n)
            }
            3 => {
                let x = b.try_acquire().ok();
                let r = x.is_some();
                hb.extend(x.map(|p| (1, Permit::One(p))));
                ("owned try_acquire".into(), r, total - ub >= 1)
            }
            4 => {
                let x = b.try_acquire_owned().ok();
                let r = x.is_some();
                hb.extend(x.map(|p| (1, Permit::Own(p))));
                ("owned try_acquire_owned".into(), r, total - ub >= 1)
            }
            5 => {
                let x = b.acquire().now_or_never();
                let r = x.is_some();
                hb.extend(x.map(|p| (1, Permit::One(p))));
                ("owned acquire".into(), r, total - ub >= 1)
            }
            6 => {
                let x = b.acquire_owned().now_or_never();
                let r = x.is_some();
                hb.extend(x.map(|p| (1, Permit::Own(p))));
                ("owned acquire_owned".into(), r, total - ub >= 1)
            }
            7 => {
                let x = b.acquire_many(n as u32).now_or_never();
                let r = x.is_some();
                hb.extend(x.map(|p| (n, Permit::One(p))));
                (format!("owned acquire_many({n})"), r, total - ub >= n)
            }
            8 => {
                let x = b.acquire_many_owned(n as u32).now_or_never();
                let r = x.is_some();
                hb.extend(x.map(|p| (n, Permit::Own(p))));
                (format!("owned acquire_many_owned({n})"), r, total - ub >= n)
            }
            _ => {
                let v = if op == 9 { &mut ha } else { &mut hb };
                if !v.is_empty() {
                    let i = g.below(v.len());
                    let (n, p) = v.remove(i);
                    t.push(format!("release {n}"));
                    match p {
                        Permit::One(p) => drop(p),
                        Permit::Own(p) => drop(p),
                    }
                }
                continue;
            }
        };
        t.push(format!("{name} -> {got} (outstanding {ua} and {ub})"));
        ensure!(P, t, got == want, "{name} granted={got}, expected {want}");
    }
    Ok(())
}
pub fn cases(v: &mut Vec<Case>) {
    v.push(Case { name: "timers_threads", props: &["C24"], random: false, limit: 3, f: timers_threads });
    v.push(Case { name: "timers_model", props: &["C24"], random: true, limit: 0, f: |s| rt(timers(s)) });
    v.push(Case { name: "tasks_model", props: &["C25"], random: true, limit: 400, f: |s| rt(tasks(s)) });
    v.push(Case { name: "semaphores_model", props: &["C25"], random: true, limit: 4000, f: |s| rt(semaphores(s)) });
}
