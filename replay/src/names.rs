//! Destinations and node texts: conversions and comparisons (C07, C23).
use crate::harness::*;
use crate::{rt, Case};
use hydra::*;
use std::net::SocketAddr;

const P: [&str; 2] = ["C07", "C23"];
fn word(g: &mut Rng) -> String {
    const C: &[char] = &['a', 'b', '@', 'l', 'o', 'c', ':', '1', ' ', 'é'];
    match g.below(6) {
        0 => "local".into(),
        1 => String::new(),
        _ => (0..g.below(6)).map(|_| C[g.below(C.len())]).collect(),
    }
}
fn addr(g: &mut Rng) -> SocketAddr {
    if g.below(2) == 0 {
        SocketAddr::from(([10, 0, 0, g.below(3) as u8], g.below(3) as u16))
    } else {
        SocketAddr::from(([0u16, 0, 0, 0, 0, 0, 0, g.below(3) as u16], g.below(3) as u16))
    }
}
/// the node a text denotes
fn node_of(s: &str) -> Option<Node> {
    if s == "local" {
        return Some(Node::Local);
    }
    let i = s.find('@')?;
    Some(Node::Remote(s[..i].to_string(), s[i + 1..].parse().ok()?))
}
fn same_node(a: &Node, b: &Node) -> bool {
    match (a, b) {
        (Node::Local, Node::Local) => true,
        (Node::Remote(a, x), Node::Remote(b, y)) => a == b && x == y,
        _ => false,
    }
}
/// (kind, text, node, number)
fn key(d: &Dest) -> String {
    match d {
        Dest::Pid(p) => format!("pid {p:?}"),
        Dest::Named(n, Node::Local) => format!("name {n:?} local"),
        Dest::Named(n, Node::Remote(a, b)) => format!("name {n:?} {a:?} {b:?}"),
        Dest::Alias(r) => format!("alias {r:?}"),
    }
}
fn keys(d: &Dests) -> Vec<String> {
    match d {
        Dests::Dest(d) => vec![key(d)],
        Dests::Dests(v) => v.iter().map(key).collect(),
    }
}
fn names(seed: u64) -> R {
    rt(async move {
        let mut g = Rng::new(seed);
        let t: Vec<String> = vec![];
        let mut pids: Vec<Pid> = (0..3).map(|_| Process::spawn(async {})).collect();
        let refs: Vec<Reference> = (0..3).map(|_| Reference::new()).collect();
        for _ in 0..g.below(4) {
            pids.push(pids[g.below(3)]);
        }
        pids.truncate(g.below(8));
        let want: Vec<String> = pids.iter().map(|p| format!("pid {p:?}")).collect();
        let some = |g: &mut Rng| -> Dest {
            match g.below(3) {
                0 if !pids.is_empty() => Dest::Pid(pids[g.below(pids.len())]),
                1 => Dest::Alias(refs[g.below(3)]),
                _ => {
                    let n = word(g);
                    let node = if g.below(2) == 0 { Node::Local } else { Node::Remote(word(g), addr(g)) };
                    Dest::Named(n.into(), node)
                }
            }
        };
        // lists of destinations keep every entry in order
        for (how, d) in [("&[Pid]", Dests::from(&pids[..])), ("Vec<Pid>", Dests::from(pids.clone())), ("&Vec<Pid>", Dests::from(&pids)), ("an iterator of pids", pids.iter().copied().collect::<Dests>())] {
            ensure!(P, t, keys(&d) == want, "the destinations made from {how} {want:?} are {:?}", keys(&d));
        }
        let ds: Vec<Dest> = (0..g.below(5)).map(|_| some(&mut g)).collect();
        let want: Vec<String> = ds.iter().map(key).collect();
        for (how, d) in [("&[Dest]", Dests::from(&ds[..])), ("Vec<Dest>", Dests::from(ds.clone())), ("an iterator of destinations", ds.iter().cloned().collect::<Dests>())] {
            ensure!(P, t, keys(&d) == want, "the destinations made from {how} {want:?} are {:?}", keys(&d));
        }
        for d in ds.iter() {
            ensure!(P, t, keys(&Dests::from(d.clone())) == [key(d)], "the destinations made from {d:?} are {:?}", keys(&Dests::from(d.clone())));
        }
        // single conversions
        let (n, m, a) = (word(&mut g), word(&mut g), addr(&mut g));
        let local = format!("name {n:?} local");
        let remote = format!("name {n:?} {m:?} {a:?}");
        let st: &'static str = Box::leak(n.clone().into_boxed_str());
        ensure!(P, t, key(&Dest::from(n.clone())) == local && key(&Dest::from(st)) == local && keys(&Dests::from(n.clone())) == [local.clone()] && keys(&Dests::from(st)) == [local.clone()], "the name {n:?} became {:?}", Dest::from(st));
        ensure!(P, t, key(&Dest::from((n.clone(), (m.clone(), a)))) == remote && key(&Dest::from((st, (m.clone(), a)))) == remote && keys(&Dests::from((n.clone(), (m.clone(), a)))) == [remote.clone()] && keys(&Dests::from((st, (m.clone(), a)))) == [remote.clone()], "the name {n:?} at {m:?} {a:?} became {:?}", Dest::from((st, (m.clone(), a))));
        for r in refs.iter() {
            ensure!(P, t, key(&Dest::from(*r)) == format!("alias {r:?}") && keys(&Dests::from(*r)) == [format!("alias {r:?}")], "{r:?} became {:?}", Dest::from(*r));
        }
        for p in pids.iter() {
            ensure!(P, t, key(&Dest::from(*p)) == format!("pid {p:?}") && keys(&Dests::from(*p)) == [format!("pid {p:?}")], "{p:?} became {:?}", Dest::from(*p));
        }
        // comparisons
        for _ in 0..8 {
            let d = some(&mut g);
            for p in pids.iter() {
                let same = matches!(&d, Dest::Pid(x) if x == p);
                ensure!(P, t, (d == *p) == same && (*p == d) == same, "{d:?} == {p:?} is {} and {}", d == *p, *p == d);
            }
            for r in refs.iter() {
                let same = matches!(&d, Dest::Alias(x) if x == r);
                ensure!(P, t, (d == *r) == same && (*r == d) == same, "{d:?} == {r:?} is {} and {}", d == *r, *r == d);
            }
            let w = match &d {
                Dest::Named(n, _) if g.below(2) == 0 => n.to_string(),
                _ => word(&mut g),
            };
            let same = matches!(&d, Dest::Named(n, _) if *n == w.as_str());
            ensure!(P, t, (d == w.as_str()) == same && (w.as_str() == d) == same, "{d:?} == {w:?} is {} and {}", d == w.as_str(), w.as_str() == d);
        }
        // nodes as text
        for _ in 0..8 {
            let n = if g.below(3) == 0 { Node::Local } else { Node::Remote(word(&mut g), addr(&mut g)) };
            let text = match (&n, g.below(3)) {
                (_, 0) => word(&mut g),
                (Node::Local, _) => "local".to_string(),
                (Node::Remote(a, b), 1) => format!("{a}@{b}"),
                (Node::Remote(a, _), _) => format!("{a}@{}", addr(&mut g)),
            };
            let same = node_of(&text).is_some_and(|x| same_node(&x, &n));
            ensure!(P, t, (n == text.as_str()) == same && (n == text.clone()) == same && (text.as_str() == n) == same && (text.clone() == n) == same, "{n:?} == {text:?} is {}", n == text.as_str());
            if let Some(x) = node_of(&text) {
                ensure!(P, t, same_node(&Node::from(text.as_str()), &x) && same_node(&Node::from(text.clone()), &x), "the node of {text:?} is {:?}", Node::from(text.as_str()));
            }
            if let Node::Remote(a, b) = &n {
                ensure!(P, t, n == (a.as_str(), *b) && n == (a.clone(), *b) && same_node(&Node::from((a.as_str(), *b)), &n) && same_node(&Node::from((a.clone(), *b)), &n) && n.name() == Some(a.as_str()) && n.address() == Some(*b), "{n:?} differs from its parts");
                let (c, e) = (word(&mut g), addr(&mut g));
                let same = c == *a && e == *b;
                ensure!(P, t, (n == (c.as_str(), e)) == same && (n == (c.clone(), e)) == same, "{n:?} == ({c:?}, {e:?})");
            } else {
                ensure!(P, t, n.name().is_none() && n.address().is_none() && n != ("local", a) && n != ("local".to_string(), a), "the local node has a name or an address");
            }
        }
        Ok(())
    })
}
pub fn cases(v: &mut Vec<Case>) {
    v.push(Case { name: "destinations", props: &["C07", "C23"], random: true, limit: 3000, f: names });
}
