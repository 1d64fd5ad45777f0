//! HashRing against a membership model (C18). The hash function is the ring's own, so the model only uses what does not depend on it.
use crate::harness::*;
use crate::Case;
use hydra::HashRing;
use std::collections::BTreeMap;

const P: [&'static str; 1] = ["C18"];
fn probes(r: &HashRing<u64>) -> Vec<Option<u64>> {
    (0..80u64).map(|k| r.find_node(k)).collect()
}
fn check(r: &HashRing<u64>, m: &BTreeMap<u64, u64>, o: &BTreeMap<u64, u64>, t: &[String]) -> Result<Vec<Option<u64>>, Fail> {
    let f = probes(r);
    for (k, v) in f.iter().enumerate() {
        let k = k as u64;
        let mut mapped: Option<Option<u64>> = None;
        r.map_node(k, |x| mapped = Some(x.copied()));
        ensure!(P, t, mapped == Some(*v), "map_node({k}) yields {mapped:?}, find_node {v:?}");
        match o.get(&k) {
            Some(n) => ensure!(P, t, *v == Some(*n), "find({k}) = {v:?}, its override is {n}"),
            None if m.is_empty() => ensure!(P, t, v.is_none(), "find({k}) = {v:?} on an empty ring"),
            None => {
                ensure!(P, t, v.is_some(), "find({k}) = None on a ring with members");
                ensure!(P, t, m.values().any(|n| Some(*n) == *v), "find({k}) = {v:?} is not a member");
                // a key that hashes exactly to a member's position belongs to that member
                if let Some(n) = m.get(&k) {
                    ensure!(P, t, *v == Some(*n), "find({k}) = {v:?}, the member at this position is {n}");
                }
            }
        }
    }
    Ok(f)
}
fn run(seed: u64) -> R {
    let mut g = Rng::new(seed);
    let mut t: Vec<String> = vec![];
    let r: HashRing<u64> = HashRing::new();
    let mut m: BTreeMap<u64, u64> = BTreeMap::new();
    let mut o: BTreeMap<u64, u64> = BTreeMap::new();
    let mut id = 1000u64;
    let mut last = check(&r, &m, &o, &t)?;
    for _ in 0..60 {
        let k = g.below(40) as u64 * 2;
        let op = g.below(100);
        if op < 35 {
            id += 1;
            t.push(format!("add_node({k}, {id})"));
            let x = r.add_node(k, id);
            let w = m.insert(k, id);
            ensure!(P, t, x == w, "add_node returned {x:?}, expected {w:?}");
            let f = check(&r, &m, &o, &t)?;
            for p in 0..80usize {
                let moved_ok = f[p] == last[p] || f[p] == Some(id);
                ensure!(P, t, moved_ok, "adding {id} moved key {p} from {:?} to {:?}", last[p], f[p]);
                if w.is_some() && !o.contains_key(&(p as u64)) {
                    ensure!(P, t, (last[p] == w) == (f[p] == Some(id)), "replacing {w:?} by {id} changed key {p} from {:?} to {:?}", last[p], f[p]);
                }
            }
            last = f;
        } else if op < 60 {
            t.push(format!("remove_node({k})"));
            let x = r.remove_node(k);
            let w = m.remove(&k);
            ensure!(P, t, x == w, "remove_node returned {x:?}, expected {w:?}");
            let f = check(&r, &m, &o, &t)?;
            for p in 0..80usize {
                ensure!(P, t, f[p] == last[p] || (w.is_some() && last[p] == w), "removing {w:?} moved key {p} from {:?} to {:?}", last[p], f[p]);
            }
            last = f;
        } else if op < 70 {
            id += 1;
            t.push(format!("add_override({k}, {id})"));
            let x = r.add_override(k, id);
            let w = o.insert(k, id);
            ensure!(P, t, x == w, "add_override returned {x:?}, expected {w:?}");
            let f = check(&r, &m, &o, &t)?;
            for p in 0..80usize {
                ensure!(P, t, p as u64 == k || f[p] == last[p], "an override of {k} moved key {p}");
            }
            last = f;
        } else if op < 78 {
            t.push(format!("remove_override({k})"));
            let x = r.remove_override(k);
            let w = o.remove(&k);
            ensure!(P, t, x == w, "remove_override returned {x:?}, expected {w:?}");
            let f = check(&r, &m, &o, &t)?;
            for p in 0..80usize {
                ensure!(P, t, p as u64 == k || f[p] == last[p], "removing the override of {k} moved key {p}");
            }
            last = f;
        } else if op < 84 {
            let n: Vec<(u64, u64)> = (0..g.below(6)).map(|_| { id += 1; (g.below(40) as u64 * 2, id) }).collect();
            let set = g.chance(40);
            t.push(format!("{}({n:?})", if set { "set_nodes" } else { "add_nodes" }));
            if set { m.clear(); r.set_nodes(n.clone()) } else { r.add_nodes(n.clone()) }
            m.extend(n.iter().copied());
            let f = check(&r, &m, &o, &t)?;
            if !set {
                for p in 0..80usize {
                    ensure!(P, t, f[p] == last[p] || n.iter().any(|x| Some(x.1) == f[p]), "add_nodes moved key {p} from {:?} to {:?}", last[p], f[p]);
                }
            }
            last = f;
        } else if op < 89 {
            let n: Vec<(u64, u64)> = (0..g.below(5)).map(|_| { id += 1; (g.below(40) as u64 * 2, id) }).collect();
            let set = g.chance(40);
            t.push(format!("{}({n:?})", if set { "set_overrides" } else { "add_overrides" }));
            if set { o.clear(); r.set_overrides(n.clone()) } else { r.add_overrides(n.clone()) }
            o.extend(n.iter().copied());
            last = check(&r, &m, &o, &t)?;
        } else if op < 97 {
            // the same members in another order: every lookup stays the same
            let mut n: Vec<(u64, u64)> = m.iter().map(|(a, b)| (*a, *b)).collect();
            for i in (1..n.len()).rev() {
                n.swap(i, g.below(i + 1));
            }
            let how = g.below(4);
            t.push(format!("rebuild the same members in the order {n:?} ({how})"));
            match how {
                0 => r.set_nodes(n.clone()),
                1 => {
                    for (k, _) in n.iter() { r.remove_node(k); }
                    for (k, v) in n.iter() { r.add_node(k, *v); }
                }
                2 => r.add_nodes(n.clone()),
                _ => {
                    for (k, v) in n.iter() { r.remove_node(k); r.add_node(k, *v); }
                }
            }
            let f = check(&r, &m, &o, &t)?;
            ensure!(P, t, f == last, "lookups depend on the order in which the same members were added: {last:?} became {f:?}");
        } else {
            t.push("clear()".into());
            r.clear();
            m.clear();
            o.clear();
            last = check(&r, &m, &o, &t)?;
        }
    }
    Ok(())
}
pub fn cases(v: &mut Vec<Case>) {
    v.push(Case { name: "ring_model", props: &["C18"], random: true, limit: 0, f: run });
}
