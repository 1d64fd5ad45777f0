//! The local node against fake peers that speak the real frames over loopback connections:
//! admission (C20), node bookkeeping (C21), frames received (C22), identity on the wire (C23).
use crate::harness::*;
use crate::{rt, Case};
use futures_util::{SinkExt, StreamExt};
use hydra::hydra_verif as hv;
use hydra::hydra_verif::{Codec, Frame};
use hydra::*;
use std::collections::{BTreeMap, BTreeSet};
use std::net::SocketAddr;
use std::num::NonZeroU64;
use std::time::Duration;
use tokio::net::{TcpListener, TcpStream};
use tokio_util::codec::Framed;

type Conn = Framed<TcpStream, Codec>;
const MS: u64 = 5000;

/// the number a pid or reference has on its own node (frames name processes by it)
pub fn number(s: String) -> u64 {
    let d: Vec<&str> = s.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).collect();
    d.last().and_then(|x| x.parse().ok()).unwrap_or(0)
}
pub fn pid_no(p: Pid) -> u64 {
    number(format!("{p:?}"))
}
pub fn ref_no(r: Reference) -> u64 {
    number(format!("{r:?}"))
}
pub fn free_addr() -> SocketAddr {
    std::net::TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap()
}
pub fn enc<T: serde::Serialize>(v: &T) -> Vec<u8> {
    rmp_serde::to_vec_named(v).unwrap()
}
pub fn dec<T: serde::de::DeserializeOwned>(b: &[u8]) -> Result<T, String> {
    rmp_serde::from_slice(b).map_err(|e| e.to_string())
}
/// runs f inside a process
pub async fn inside<T: Send + 'static>(k: &Puppet, f: impl FnOnce() -> T + Send + 'static) -> Result<T, Fail> {
    k.call(f).await.map_err(|e| Fail { props: vec!["C20", "C21", "C22", "C23"], what: format!("the operation failed: {e:?}"), trace: vec![] })
}
pub fn show(f: &mut Frame) -> String {
    match f {
        Frame::LinkDown(l) => l.links.sort(),
        Frame::MonitorDown(m) => m.monitors.sort(),
        _ => {}
    }
    format!("{f:?}")
}
fn showf(f: impl Into<Frame>) -> String {
    show(&mut f.into())
}
pub async fn start_local(k: &Puppet, name: &'static str, addr: SocketAddr, handshake_ms: u64) -> Result<Pid, Fail> {
    inside(k, move || {
        if Node::alive() {
            Node::stop();
        }
        Node::start(name, NodeOptions::new().listen_address(addr).broadcast_address(addr).handshake_timeout(Duration::from_millis(handshake_ms)))
    })
    .await
}
pub async fn dial(addr: SocketAddr) -> Option<Conn> {
    for _ in 0..500 {
        if let Ok(s) = TcpStream::connect(addr).await {
            return Some(Framed::new(s, Codec::new()));
        }
        tokio::time::sleep(Duration::from_millis(5)).await;
    }
    None
}
/// the next frame that is not a ping; None when the connection ends or nothing comes for a while
pub async fn next(c: &mut Conn) -> Option<Frame> {
    loop {
        match tokio::time::timeout(Duration::from_millis(MS), c.next()).await {
            Ok(Some(Ok(Frame::Ping))) => continue,
            Ok(Some(Ok(f))) => return Some(f),
            _ => return None,
        }
    }
}
pub async fn state(n: &Node, s: NodeState) -> bool {
    wait_for(MS, || Node::list_by_state(s).contains(n)).await
}

struct Peer {
    name: String,
    addr: SocketAddr,
    node: Node,
    listener: TcpListener,
    conn: Option<Conn>,
    wires: Vec<Vec<u8>>,
    ids: Vec<u64>,
    pids: Vec<Pid>,
}
struct Slot {
    p: Puppet,
    id: u64,
}
struct W {
    g: Rng,
    t: Vec<String>,
    k: Puppet,
    kid: u64,
    sup: Pid,
    listen: SocketAddr,
    slots: Vec<Slot>,
    dead: Vec<u64>,
    peers: Vec<Peer>,
    links: BTreeSet<(usize, usize, usize)>,
    /// links between local processes, the smaller first
    locals: BTreeSet<(usize, usize)>,
    /// who does the next operation, on which remote process
    force: Option<(usize, usize)>,
    /// pids of nodes that have been forgotten
    retired: Vec<Pid>,
    /// slot, reference, peer, remote process, destination named in the DOWN message, whether the process is known
    outs: Vec<(usize, Reference, usize, usize, Dest, bool)>,
    ins: BTreeMap<(usize, u64), usize>,
    nodes: Vec<(usize, Reference, usize)>,
    /// aliases of monitors, with their process while they can still be used
    aliases: BTreeMap<u64, Option<usize>>,
    items: Vec<Vec<Item>>,
    frames: Vec<Vec<String>>,
    count: u64,
    /// which operations are favoured
    mode: u64,
}
async fn slot(i: usize) -> Slot {
    let p = Puppet::spawn();
    p.call(move || {
        Process::set_flags(ProcessFlags::TRAP_EXIT);
        let _ = Process::register(Process::current(), format!("slot{i}"));
    })
    .await
    .unwrap();
    Slot { id: pid_no(p.pid), p }
}
impl W {
    async fn new(seed: u64, n_slots: usize) -> Result<W, Fail> {
        let g = Rng::new(seed);
        let k = Puppet::spawn();
        let mut slots = vec![];
        for i in 0..n_slots {
            slots.push(slot(i).await);
        }
        let mut peers = vec![];
        for i in 0..2 {
            let listener = TcpListener::bind("127.0.0.1:0").await.unwrap();
            let addr = listener.local_addr().unwrap();
            // the second peer has the same name as the first or the same host under another name
            let name = if g.0 % 2 == 0 { "peer".to_string() } else { format!("peer{i}") };
            let ids: Vec<Pid> = slots.iter().take(3).map(|s| s.p.pid).collect();
            let nm = name.clone();
            // what this node puts on the wire for its own processes when it is known as the peer
            let wires = inside(&k, move || {
                if Node::alive() {
                    Node::stop();
                }
                Node::start(nm, NodeOptions::new().broadcast_address(addr));
                let w: Vec<Vec<u8>> = ids.iter().map(|p| enc(p)).collect();
                Node::stop();
                w
            })
            .await?;
            let ids = slots.iter().take(3).map(|s| s.id).collect();
            peers.push(Peer { node: Node::from((name.clone(), addr)), name, addr, listener, conn: None, wires, ids, pids: vec![] });
        }
        let listen = free_addr();
        let sup = start_local(&k, "local", listen, 5000).await?;
        let n = slots.len();
        let kid = pid_no(k.pid);
        let mut w = W { mode: seed % 3, g, t: vec![], k, kid, sup, listen, slots, dead: vec![], peers, links: Default::default(), locals: Default::default(), force: None, retired: vec![], outs: vec![], ins: Default::default(), nodes: vec![], aliases: Default::default(), items: vec![vec![]; n], frames: vec![vec![]; 2], count: 1000 };
        w.pids()?;
        for i in 0..2 {
            w.connect(i).await?;
        }
        Ok(w)
    }
    fn pids(&mut self) -> R {
        for p in self.peers.iter_mut() {
            p.pids = vec![];
            for b in &p.wires {
                match dec::<Pid>(b) {
                    Ok(x) => p.pids.push(x),
                    Err(e) => return fail(&["C23", "C21", "C22"], format!("a pid of another node does not decode: {e}"), &[]),
                }
            }
        }
        Ok(())
    }
    fn bad<T>(&self, props: &[&'static str], what: impl Into<String>) -> Result<T, Fail> {
        fail(props, what, &self.t)
    }
    /// the peer connects to the local node
    async fn connect(&mut self, i: usize) -> R {
        let Some(mut c) = dial(self.listen).await else { return self.bad(&["C20", "C21"], "the local node does not listen") };
        let (n, a) = (self.peers[i].name.clone(), self.peers[i].addr);
        if c.send(hv::Hello::new(n, a).into()).await.is_err() || !matches!(next(&mut c).await, Some(Frame::Hello(_))) {
            return self.bad(&["C20", "C21"], format!("no hello for peer {i}"));
        }
        if !state(&self.peers[i].node, NodeState::Connected).await {
            return self.bad(&["C20", "C21"], format!("peer {i} said hello with the cookie and is not connected"));
        }
        self.peers[i].conn = Some(c);
        Ok(())
    }
    /// everything the peers sent has been handled and everything sent to them has been read
    async fn sync(&mut self, props: &[&'static str]) -> Result<Vec<Vec<String>>, Fail> {
        let mut got = vec![vec![]; self.peers.len()];
        for i in 0..self.peers.len() {
            if self.peers[i].conn.is_none() {
                continue;
            }
            self.count += 1;
            let n = self.count;
            let f = hv::Send::with_pid(NonZeroU64::new(self.kid).unwrap(), enc(&n));
            let ok = self.peers[i].conn.as_mut().unwrap().send(f.into()).await.is_ok();
            let end = std::time::Instant::now() + Duration::from_millis(MS);
            loop {
                let v = inside(&self.k, || ()).await.and(Ok(self.k.drain().await.unwrap_or_default()))?;
                if v.contains(&Item::User(n)) {
                    break;
                }
                if !ok || std::time::Instant::now() > end {
                    return self.bad(props, format!("a message peer {i} sent does not arrive"));
                }
                tokio::time::sleep(Duration::from_millis(1)).await;
            }
            let to = self.peers[i].pids[0];
            inside(&self.k, move || Process::send(to, n)).await?;
            loop {
                match next(self.peers[i].conn.as_mut().unwrap()).await {
                    Some(Frame::Send(s)) if s.message == enc(&n) => {
                        let x = format!("{:?}", s.targets);
                        let y = format!("{:?}", vec![hv::SendTarget::Pid(NonZeroU64::new(self.peers[i].ids[0]).unwrap())]);
                        if x != y {
                            return self.bad(&["C07", "C22", "C21"], format!("a message to {y} of peer {i} names {x}"));
                        }
                        break;
                    }
                    Some(mut f) => got[i].push(show(&mut f)),
                    None => return self.bad(props, format!("a message to peer {i} does not arrive")),
                }
            }
        }
        Ok(got)
    }
    /// compares what the processes and the peers received with what was expected
    async fn check(&mut self, props: &[&'static str], ordered: bool) -> R {
        let got = self.sync(props).await?;
        for i in 0..self.peers.len() {
            let mut a = got[i].clone();
            let mut b = std::mem::take(&mut self.frames[i]);
            if !ordered {
                a.sort();
                b.sort();
            }
            if a != b {
                return self.bad(props, format!("peer {i} received {a:?}, expected {b:?}"));
            }
            let up = self.peers[i].conn.is_some();
            if Node::list_by_state(NodeState::Connected).contains(&self.peers[i].node) != up {
                return self.bad(&["C21"], format!("peer {i} is {} and the list of connected nodes is {:?}", if up { "connected" } else { "not connected" }, Node::list_by_state(NodeState::Connected)));
            }
            let n = Node::list().iter().filter(|x| **x == self.peers[i].node).count();
            if n != 1 || Node::list().contains(&Node::Local) {
                return self.bad(&["C21"], format!("peer {i} is {n} times in {:?}", Node::list()));
            }
        }
        self.check_items(props).await?;
        self.info(props)
    }
    /// the connection to peer i is lost: what every dependent is told
    fn lose(&mut self, i: usize) {
        let why = || ExitReason::from("noconnection");
        let l: Vec<_> = self.links.iter().filter(|x| x.1 == i).copied().collect();
        for x in l {
            self.links.remove(&x);
            self.items[x.0].push(Item::Exit(self.peers[i].pids[x.2], why()));
        }
        for x in std::mem::take(&mut self.outs) {
            if x.2 == i {
                self.items[x.0].push(Item::Down(x.4, x.1, why()));
                self.gone(x.1);
            } else {
                self.outs.push(x);
            }
        }
        for x in std::mem::take(&mut self.nodes) {
            if x.2 == i {
                self.items[x.0].push(Item::NodeDown(self.peers[i].node.clone(), x.1));
            } else {
                self.nodes.push(x);
            }
        }
        self.ins.retain(|k, _| k.0 != i);
        self.peers[i].conn = None;
    }
    fn gone(&mut self, r: Reference) {
        if let Some(x) = self.aliases.get_mut(&ref_no(r)) {
            *x = None;
        }
    }
    /// an operation of a local process on a process of peer i; the frames that go out are added when a connection takes them
    async fn local_op(&mut self, i: usize, kind: usize, taken: bool) -> Result<&'static [&'static str], Fail> {
        let forced = self.force.is_some();
        let (s, k) = match self.force.take() {
            Some(x) => x,
            None => (self.g.below(self.slots.len()), self.g.below(3)),
        };
        let (pid, id) = (self.peers[i].pids[k], self.peers[i].ids[k]);
        let me = self.slots[s].id;
        let p = self.slots[s].p.clone();
        let mut out: Vec<String> = vec![];
        let props: &'static [&'static str] = match kind {
            0 => {
                self.t.push(format!("process {s} links to {id} of peer {i}"));
                inside(&p, move || Process::link(pid)).await?;
                self.links.insert((s, i, k));
                out.push(showf(hv::Link::new(true, id, me)));
                &["C03", "C21"]
            }
            1 => {
                let named = self.g.chance(30);
                self.t.push(format!("process {s} monitors {id} of peer {i}{}", if named { " by name" } else { "" }));
                let dest = if named { Dest::Named("remote".into(), self.peers[i].node.clone()) } else { Dest::Pid(pid) };
                let alias = self.g.chance(50);
                let d = dest.clone();
                let r = inside(&p, move || if alias { Process::monitor_alias(d, true) } else { Process::monitor(d) }).await?;
                self.outs.push((s, r, i, k, dest, !named));
                if alias {
                    self.aliases.insert(ref_no(r), Some(s));
                }
                out.push(showf(hv::Monitor::new(true, if named { None } else { Some(id) }, if named { Some("remote".into()) } else { None }, Some(me), ref_no(r))));
                &["C04", "C21"]
            }
            2 => {
                self.count += 1;
                let n = self.count;
                self.t.push(format!("process {s} sends {n} to {id} of peer {i}"));
                inside(&p, move || Process::send(pid, n)).await?;
                out.push(showf(hv::Send::with_pid(NonZeroU64::new(id).unwrap(), enc(&n))));
                &["C07", "C21"]
            }
            3 => {
                self.t.push(format!("process {s} sends an exit signal to {id} of peer {i}"));
                inside(&p, move || Process::exit(pid, ExitReason::from("why"))).await?;
                out.push(showf(hv::Exit::new(id, me, ExitReason::from("why"))));
                &["C01", "C21"]
            }
            4 => {
                // rather one that is linked
                let (s, k) = match self.links.iter().find(|x| x.1 == i) {
                    Some(x) if !forced && self.g.chance(70) => (x.0, x.2),
                    _ => (s, k),
                };
                let (pid, id) = (self.peers[i].pids[k], self.peers[i].ids[k]);
                let me = self.slots[s].id;
                let p = self.slots[s].p.clone();
                self.t.push(format!("process {s} unlinks {id} of peer {i}"));
                inside(&p, move || Process::unlink(pid)).await?;
                self.links.remove(&(s, i, k));
                out.push(showf(hv::Link::new(false, id, me)));
                &["C03", "C21"]
            }
            5 => {
                // rather one whose number the peer uses as well
                let mut v: Vec<usize> = (0..self.outs.len()).filter(|x| self.outs[*x].2 == i && self.outs[*x].5).collect();
                if self.g.chance(50) {
                    if let Some(x) = v.iter().find(|x| self.ins.contains_key(&(i, ref_no(self.outs[**x].1)))) {
                        v = vec![*x];
                    }
                }
                if v.is_empty() {
                    return Ok(&[]);
                }
                let x = self.outs.remove(v[self.g.below(v.len())]);
                self.t.push(format!("process {} drops its monitor {:?} of peer {i}", x.0, x.1));
                let p = self.slots[x.0].p.clone();
                self.gone(x.1);
                inside(&p, move || Process::demonitor(x.1)).await?;
                out.push(showf(hv::Monitor::new(false, Some(self.peers[i].ids[x.3]), None, None, ref_no(x.1))));
                &["C05", "C21"]
            }
            6 => {
                self.t.push(format!("process {s} monitors peer {i}"));
                let n = self.peers[i].node.clone();
                let r = inside(&p, move || Node::monitor(n)).await?;
                self.nodes.push((s, r, i));
                &["C21"]
            }
            _ => {
                let Some(x) = self.nodes.iter().position(|x| x.2 == i) else { return Ok(&[]) };
                let x = self.nodes.remove(x);
                self.t.push(format!("process {} drops its monitor of peer {i}", x.0));
                let p = self.slots[x.0].p.clone();
                inside(&p, move || Node::demonitor(x.1)).await?;
                &["C21"]
            }
        };
        if taken {
            self.frames[i].append(&mut out);
        }
        Ok(props)
    }
    /// processes a and b, both local, link or unlink
    async fn local_link(&mut self, a: usize, b: usize, on: bool) -> R {
        self.t.push(format!("process {a} {}links to process {b}", if on { "" } else { "un" }));
        let to = self.slots[b].p.pid;
        inside(&self.slots[a].p.clone(), move || if on { Process::link(to) } else { Process::unlink(to) }).await?;
        let x = (a.min(b), a.max(b));
        if on {
            self.locals.insert(x);
        } else {
            self.locals.remove(&x);
        }
        self.check(&["C03"], false).await
    }
    /// links that share a process, a number or a node, one of which is dropped again
    async fn shared(&mut self, i: usize) -> R {
        let n = self.slots.len();
        let (a, k) = (self.g.below(n), self.g.below(3));
        let b = (a + 1 + self.g.below(n - 1)) % n;
        // the local process of the same number as the remote one
        let l = if k != a && self.slots[k].id == self.peers[i].ids[k] { k } else { b };
        let j = if self.peers[1 - i].conn.is_some() { 1 - i } else { i };
        let steps: Vec<(usize, usize, usize, usize)> = match self.g.below(5) {
            // two processes linked to the same remote one, two remote ones linked to the same process
            0 => vec![(a, i, k, 0), (b, i, k, 0), (a, i, k, 4)],
            1 => vec![(a, i, k, 0), (a, i, (k + 1) % 3, 0), (a, i, k, 4)],
            // processes of the same number on several nodes
            2 => vec![(a, i, k, 0), (a, i, l, 10), (a, i, k, 4)],
            3 => vec![(a, i, l, 10), (a, i, k, 0), (a, i, l, 14)],
            _ => vec![(a, i, k, 0), (a, j, k, 0), (a, i, k, 4)],
        };
        for (s, i, k, kind) in steps {
            if kind >= 10 {
                self.local_link(s, k, kind == 10).await?;
            } else {
                self.force = Some((s, k));
                let p = self.local_op(i, kind, true).await?;
                self.check(p, false).await?;
            }
        }
        Ok(())
    }
    async fn put(&mut self, i: usize, f: impl Into<Frame>) -> R {
        let mut f = f.into();
        self.t.push(format!("peer {i} sends {}", show(&mut f)));
        if self.peers[i].conn.as_mut().unwrap().send(f).await.is_err() {
            return self.bad(&["C22"], format!("the connection of peer {i} is gone"));
        }
        Ok(())
    }
    /// a frame of peer i
    async fn frame_op(&mut self, i: usize) -> R {
        let s = self.g.below(self.slots.len());
        let k = self.g.below(3);
        let (pid, id) = (self.peers[i].pids[k], self.peers[i].ids[k]);
        let gone = self.g.chance(20) && !self.dead.is_empty();
        let me = if gone { self.dead[self.g.below(self.dead.len())] } else { self.slots[s].id };
        let noproc = ExitReason::from("noproc");
        let kind = match self.mode {
            1 if self.g.chance(80) => [3, 4, 5, 5, 5, 6, 9, 9][self.g.below(8)],
            2 if self.g.chance(80) => [0, 1, 2, 2, 7, 7, 8][self.g.below(7)],
            _ => self.g.below(11),
        };
        match kind {
            0 | 1 => {
                self.put(i, hv::Link::new(true, me, id)).await?;
                if gone {
                    let mut d = hv::LinkDown::new(me, noproc);
                    d.links.push(id);
                    self.frames[i].push(showf(d));
                } else {
                    self.links.insert((s, i, k));
                }
            }
            2 => {
                let (s, k) = match self.links.iter().find(|x| x.1 == i) {
                    Some(x) if self.g.chance(70) => (x.0, x.2),
                    _ => (s, k),
                };
                self.put(i, hv::Link::new(false, if gone { me } else { self.slots[s].id }, self.peers[i].ids[k])).await?;
                if !gone {
                    self.links.remove(&(s, i, k));
                }
            }
            3 => {
                self.count += 1;
                // the numbers a peer uses for its references may be those of references of this node
                let own: Vec<u64> = self.outs.iter().map(|x| ref_no(x.1)).chain(self.nodes.iter().map(|x| ref_no(x.1))).collect();
                let r = match self.g.below(4) {
                    0 if !own.is_empty() => own[self.g.below(own.len())],
                    0 | 1 => self.count,
                    _ => self.count % 40 + 1,
                };
                if self.ins.contains_key(&(i, r)) {
                    return Ok(());
                }
                match self.g.below(3) {
                    0 => {
                        let name = if gone { "nobody".to_string() } else { format!("slot{s}") };
                        self.put(i, hv::Monitor::new(true, None, Some(name), Some(id), r)).await?;
                        if !gone {
                            self.frames[i].push(showf(hv::MonitorUpdate::new(id, me, r)));
                        }
                    }
                    _ => self.put(i, hv::Monitor::new(true, Some(me), None, Some(id), r)).await?,
                }
                if gone {
                    let mut d = hv::MonitorDown::new(noproc);
                    d.monitors.push(r);
                    self.frames[i].push(showf(d));
                } else {
                    self.ins.insert((i, r), s);
                }
            }
            4 => {
                let own: Vec<u64> = self.outs.iter().map(|x| ref_no(x.1)).chain(self.nodes.iter().map(|x| ref_no(x.1))).collect();
                let mut v: Vec<(u64, usize)> = self.ins.iter().filter(|x| x.0 .0 == i).map(|x| (x.0 .1, *x.1)).collect();
                if v.iter().any(|x| own.contains(&x.0)) && self.g.chance(50) {
                    v.retain(|x| own.contains(&x.0));
                }
                if v.is_empty() {
                    return Ok(());
                }
                let (r, s) = v[self.g.below(v.len())];
                let me = self.slots[s].id;
                self.put(i, hv::Monitor::new(false, Some(me), None, None, r)).await?;
                self.ins.remove(&(i, r));
            }
            5 => {
                // some of the references are not monitors of this peer
                let why = ExitReason::from("down");
                let mut d = hv::MonitorDown::new(why.clone());
                let pick: Vec<bool> = self.outs.iter().map(|_| self.g.chance(60)).collect();
                for (n, x) in std::mem::take(&mut self.outs).into_iter().enumerate() {
                    if pick[n] {
                        d.monitors.push(ref_no(x.1));
                    }
                    if pick[n] && x.2 == i {
                        self.items[x.0].push(Item::Down(x.4, x.1, why.clone()));
                        self.gone(x.1);
                    } else {
                        self.outs.push(x);
                    }
                }
                for x in &self.nodes {
                    if pick.is_empty() && x.2 != i {
                        d.monitors.push(ref_no(x.1));
                    }
                }
                if let Some(x) = self.ins.keys().next() {
                    if !self.outs.iter().any(|y| ref_no(y.1) == x.1) && !self.nodes.iter().any(|y| ref_no(y.1) == x.1) && !d.monitors.contains(&x.1) {
                        d.monitors.push(x.1);
                    }
                }
                self.put(i, d).await?;
            }
            6 => {
                let Some(x) = self.outs.iter().position(|x| x.2 == i && !x.5) else { return Ok(()) };
                self.outs[x].5 = true;
                let x = self.outs[x].clone();
                let me = self.slots[x.0].id;
                self.put(i, hv::MonitorUpdate::new(me, self.peers[i].ids[x.3], ref_no(x.1))).await?;
            }
            7 => {
                let why = ExitReason::from("linkdown");
                let mut d = hv::LinkDown::new(id, why.clone());
                for s in 0..self.slots.len() {
                    if self.g.chance(50) {
                        d.links.push(self.slots[s].id);
                        if self.links.remove(&(s, i, k)) {
                            self.items[s].push(Item::Exit(pid, why.clone()));
                        }
                    }
                }
                d.links.extend(self.dead.iter().take(2));
                self.put(i, d).await?;
            }
            8 => {
                self.put(i, hv::Exit::new(me, id, ExitReason::from("exit"))).await?;
                if !gone {
                    self.items[s].push(Item::Exit(pid, ExitReason::from("exit")));
                }
            }
            9 => {
                self.count += 1;
                let n = self.count;
                let mut f = hv::Send::with_message(enc(&n));
                for _ in 0..1 + self.g.below(3) {
                    let s = self.g.below(self.slots.len());
                    match self.g.below(4) {
                        0 => {
                            f.targets.push(hv::SendTarget::Named(format!("slot{s}")));
                            self.items[s].push(Item::User(n));
                        }
                        1 if !self.aliases.is_empty() => {
                            let n_al = self.aliases.len();
                            let (&r, o) = self.aliases.iter_mut().nth(self.g.below(n_al)).unwrap();
                            if let Some(s) = o.take() {
                                self.items[s].push(Item::User(n));
                            }
                            f.targets.push(hv::SendTarget::Alias(NonZeroU64::new(r).unwrap()));
                        }
                        2 if !self.dead.is_empty() => f.targets.push(hv::SendTarget::Pid(NonZeroU64::new(self.dead[0]).unwrap())),
                        _ => {
                            f.targets.push(hv::SendTarget::Pid(NonZeroU64::new(self.slots[s].id).unwrap()));
                            self.items[s].push(Item::User(n));
                        }
                    }
                }
                self.put(i, f).await?;
            }
            _ => {
                let c = self.peers[i].conn.as_mut().unwrap();
                self.t.push(format!("peer {i} pings"));
                let _ = c.send(Frame::Ping).await;
                loop {
                    match next(c).await {
                        Some(Frame::Pong) => break,
                        Some(mut f) => {
                            let x = show(&mut f);
                            return self.bad(&["C22", "C21"], format!("peer {i} unexpectedly receives {x}"));
                        }
                        None => return self.bad(&["C22"], format!("the ping of peer {i} is not answered")),
                    }
                }
                let _ = self.peers[i].conn.as_mut().unwrap().send(Frame::Pong).await;
            }
        }
        self.check(if kind == 9 { &["C22", "C07", "C08"] } else { &["C22"] }, false).await
    }
    async fn finish(&mut self, s: usize) -> R {
        let how = self.g.below(3);
        self.t.push(format!("process {s} ends"));
        let why = match how {
            0 => {
                self.slots[s].p.cmd(Cmd::Finish);
                ExitReason::Normal
            }
            1 => {
                self.slots[s].p.cmd(Cmd::Panic("boom".into()));
                ExitReason::from("boom")
            }
            _ => {
                let p = self.slots[s].p.pid;
                if let Some(i) = (0..2).find(|i| self.peers[*i].conn.is_some()) {
                    let f = hv::Exit::new(self.slots[s].id, self.peers[i].ids[0], ExitReason::Kill);
                    self.put(i, f).await?;
                } else {
                    inside(&self.k, move || Process::exit(p, ExitReason::Kill)).await?;
                }
                ExitReason::Kill
            }
        };
        let p = self.slots[s].p.pid;
        if !wait_for(MS, || !Process::alive(p)).await {
            return self.bad(&["C01", "C22"], format!("process {s} does not end"));
        }
        let me = self.slots[s].id;
        for i in 0..2 {
            let up = self.peers[i].conn.is_some();
            let l: Vec<_> = self.links.iter().filter(|x| x.0 == s && x.1 == i).copied().collect();
            if !l.is_empty() {
                let mut d = hv::LinkDown::new(me, why.clone());
                for x in l {
                    self.links.remove(&x);
                    d.links.push(self.peers[i].ids[x.2]);
                }
                self.frames[i].push(showf(d));
            }
            let m: Vec<u64> = self.ins.iter().filter(|x| x.0 .0 == i && *x.1 == s).map(|x| x.0 .1).collect();
            if !m.is_empty() {
                let mut d = hv::MonitorDown::new(why.clone());
                for r in m {
                    self.ins.remove(&(i, r));
                    d.monitors.push(r);
                }
                self.frames[i].push(showf(d));
            }
            for x in self.outs.iter().filter(|x| x.0 == s && x.2 == i && x.5) {
                self.frames[i].push(showf(hv::Monitor::new(false, Some(self.peers[i].ids[x.3]), None, None, ref_no(x.1))));
            }
            if !up {
                self.frames[i].clear();
            }
        }
        for x in std::mem::take(&mut self.locals) {
            if x.0 == s || x.1 == s {
                self.items[x.0 + x.1 - s].push(Item::Exit(p, why.clone()));
            } else {
                self.locals.insert(x);
            }
        }
        self.items[s].clear();
        self.outs.retain(|x| x.0 != s);
        self.aliases.retain(|_, x| *x != Some(s));
        self.nodes.retain(|x| x.0 != s);
        self.dead.push(me);
        let n = slot(s).await;
        self.slots[s] = n;
        self.check(&["C01", "C02", "C04", "C05", "C22"], false).await
    }
    /// peer i goes away
    async fn down(&mut self, i: usize) -> R {
        let n = self.peers[i].node.clone();
        let how = self.g.below(6);
        let props: &[&'static str] = match how {
            0 | 1 => {
                self.t.push(format!("peer {i} closes its connection"));
                self.peers[i].conn = None;
                &["C21"]
            }
            2 => {
                self.t.push(format!("disconnect peer {i}"));
                inside(&self.k, move || Node::disconnect(n)).await?;
                &["C21"]
            }
            3 => {
                self.t.push(format!("forget peer {i}"));
                inside(&self.k, move || Node::forget(n.clone())).await?;
                if Node::list().contains(&self.peers[i].node) {
                    return self.bad(&["C21"], "a forgotten node is still listed");
                }
                &["C21"]
            }
            _ => {
                // a frame that violates the protocol ends this connection and nothing else
                let me = self.slots[0].id;
                let (name, addr) = (self.peers[i].name.clone(), self.peers[i].addr);
                let f: Frame = match self.g.below(7) {
                    0 => hv::Hello::new(name, addr).into(),
                    1 => hv::Link::new(true, 0, 5).into(),
                    2 => hv::Link::new(true, me, 0).into(),
                    3 => hv::Monitor::new(true, None, None, Some(1), 7).into(),
                    4 => hv::Monitor::new(true, Some(me), None, None, 7).into(),
                    5 => hv::Exit::new(0, 1, ExitReason::Kill).into(),
                    _ => hv::Monitor::new(true, Some(me), None, Some(1), 0).into(),
                };
                self.put(i, f).await?;
                &["C21", "C22"]
            }
        };
        let n = self.peers[i].node.clone();
        if !wait_for(MS, || !Node::list_by_state(NodeState::Connected).contains(&n)).await {
            return self.bad(props, format!("peer {i} is still connected"));
        }
        self.lose(i);
        // forgetting makes the old pids unreachable
        let stale = self.peers[i].pids.clone();
        self.check_items(props).await?;
        self.pids()?;
        if how == 3 {
            self.retired.extend(stale.iter().copied());
        }
        for p in self.peers.iter().flat_map(|p| p.pids.iter()) {
            if self.retired.contains(p) {
                return self.bad(&["C26", "C21"], format!("{p:?} named a process of a node that has been forgotten and names one of another node"));
            }
        }
        if stale != self.peers[i].pids {
            let (s, p) = (self.g.below(self.slots.len()), stale[0]);
            self.t.push(format!("process {s} links to a process of the forgotten peer {i}"));
            inside(&self.slots[s].p.clone(), move || Process::link(p)).await?;
            self.items[s].push(Item::Exit(p, ExitReason::from("noconnection")));
        }
        self.check(props, false).await
    }
    /// the links and monitors the processes report
    fn info(&self, props: &[&'static str]) -> R {
        for s in 0..self.slots.len() {
            let Some(x) = Process::info(self.slots[s].p.pid) else { return self.bad(props, format!("process {s} is gone")) };
            let mut a: Vec<String> = x.links.iter().map(|p| format!("{p:?}")).collect();
            let mut b: Vec<String> = self.links.iter().filter(|l| l.0 == s).map(|l| format!("{:?}", self.peers[l.1].pids[l.2])).collect();
            b.extend(self.locals.iter().filter(|l| l.0 == s || l.1 == s).map(|l| format!("{:?}", self.slots[l.0 + l.1 - s].p.pid)));
            a.sort();
            b.sort();
            if a != b {
                return self.bad(props, format!("process {s} is linked to {a:?}, expected {b:?}"));
            }
            let n = self.ins.values().filter(|x| **x == s).count();
            if x.monitored_by.len() != n {
                return self.bad(props, format!("process {s} is monitored by {:?}, expected {n} monitors", x.monitored_by));
            }
        }
        Ok(())
    }
    async fn check_items(&mut self, props: &[&'static str]) -> R {
        for s in 0..self.slots.len() {
            let mut b: Vec<String> = std::mem::take(&mut self.items[s]).iter().map(|x| format!("{x:?}")).collect();
            let mut a: Vec<String> = match self.slots[s].p.drain().await {
                Ok(v) => v.iter().map(|x| format!("{x:?}")).collect(),
                Err(e) => return self.bad(props, format!("process {s} is gone: {e:?}")),
            };
            a.sort();
            b.sort();
            if a != b {
                return self.bad(props, format!("process {s} received {a:?}, expected {b:?}"));
            }
        }
        Ok(())
    }
    /// peer i comes back, either by itself or because a local process needs it
    async fn up(&mut self, i: usize) -> R {
        if self.g.chance(30) {
            self.t.push(format!("peer {i} connects"));
            self.connect(i).await?;
            return self.check(&["C21"], true).await;
        }
        // the first operation asks for a connection, later ones wait for it
        let first = [0usize, 1, 6][self.g.below(3)];
        self.local_op(i, first, true).await?;
        if !Node::list_by_state(NodeState::Pending).contains(&self.peers[i].node) {
            return self.bad(&["C21"], format!("peer {i} is not pending: {:?}", Node::list()));
        }
        for _ in 0..self.g.below(6) {
            let kind = self.g.below(8);
            self.local_op(i, kind, true).await?;
        }
        match self.g.below(6) {
            0 | 1 | 2 => {
                self.t.push(format!("peer {i} accepts the connection"));
                let Ok(Ok((s, _))) = tokio::time::timeout(Duration::from_millis(MS), self.peers[i].listener.accept()).await else { return self.bad(&["C21"], format!("nobody connects to peer {i}")) };
                let mut c = Framed::new(s, Codec::new());
                if !matches!(next(&mut c).await, Some(Frame::Hello(_))) {
                    return self.bad(&["C20", "C21"], "the connector does not say hello first");
                }
                let _ = c.send(hv::Hello::new(self.peers[i].name.clone(), self.peers[i].addr).into()).await;
                if !state(&self.peers[i].node, NodeState::Connected).await {
                    return self.bad(&["C20", "C21"], format!("peer {i} said hello and is not connected"));
                }
                self.peers[i].conn = Some(c);
                self.check(&["C21"], true).await
            }
            3 => {
                self.t.push(format!("peer {i} connects by itself meanwhile"));
                self.connect(i).await?;
                self.check(&["C21"], true).await?;
                let _ = tokio::time::timeout(Duration::from_millis(20), self.peers[i].listener.accept()).await;
                Ok(())
            }
            4 => {
                self.t.push(format!("disconnect peer {i} while it is pending"));
                let n = self.peers[i].node.clone();
                inside(&self.k, move || Node::disconnect(n)).await?;
                self.frames[i].clear();
                self.lose(i);
                let _ = tokio::time::timeout(Duration::from_millis(20), self.peers[i].listener.accept()).await;
                self.check(&["C21"], true).await
            }
            _ => {
                self.t.push(format!("peer {i} refuses the connection"));
                let Ok(Ok((s, _))) = tokio::time::timeout(Duration::from_millis(MS), self.peers[i].listener.accept()).await else { return self.bad(&["C21"], format!("nobody connects to peer {i}")) };
                drop(s);
                let n = self.peers[i].node.clone();
                if !wait_for(MS, || !Node::list_by_state(NodeState::Pending).contains(&n)).await {
                    return self.bad(&["C21"], format!("peer {i} is still pending"));
                }
                self.frames[i].clear();
                self.lose(i);
                self.check(&["C21"], true).await
            }
        }
    }
    /// the local node ends
    async fn end(&mut self) -> R {
        let sup = self.sup;
        for i in 0..2 {
            if self.peers[i].conn.is_none() || self.g.chance(40) {
                // this node is still pending at the end
                if self.peers[i].conn.is_some() {
                    let n = self.peers[i].node.clone();
                    inside(&self.k, move || Node::disconnect(n)).await?;
                    self.lose(i);
                }
                for _ in 0..2 {
                    let kind = [0usize, 1, 6][self.g.below(3)];
                    self.local_op(i, kind, false).await?;
                }
            }
        }
        if self.g.chance(50) {
            self.t.push("the local node is stopped".into());
            inside(&self.k, || Node::stop()).await?;
        } else {
            self.t.push("the process of the local node is killed".into());
            inside(&self.k, move || Process::exit(sup, ExitReason::Kill)).await?;
            if !wait_for(MS, || !Node::alive()).await {
                return self.bad(&["C21"], "the local node is still alive");
            }
        }
        if Node::alive() || !Node::list().is_empty() || [NodeState::Connected, NodeState::Known, NodeState::Pending].iter().any(|s| !Node::list_by_state(*s).is_empty()) {
            return self.bad(&["C21"], format!("the local node ended and {:?} is listed", Node::list()));
        }
        settle().await;
        for i in 0..2 {
            self.lose(i);
        }
        self.check_items(&["C21"]).await?;
        self.info(&["C21"])?;
        if self.g.chance(50) {
            return Ok(());
        }
        // nothing of the node that ended reaches the peers of the next one
        self.t.push("the local node is started again and the peers connect to it".into());
        self.retired.extend(self.peers.iter().flat_map(|p| p.pids.iter().copied()));
        self.frames = vec![vec![]; 2];
        self.listen = free_addr();
        self.sup = start_local(&self.k, "local", self.listen, 5000).await?;
        self.pids()?;
        for p in self.peers.iter().flat_map(|p| p.pids.iter()) {
            if self.retired.contains(p) {
                return self.bad(&["C26", "C21"], format!("{p:?} named a process of a node of a local node that has ended and names one of another node"));
            }
        }
        for i in 0..2 {
            if self.peers[i].conn.is_none() {
                self.connect(i).await?;
            }
        }
        self.check(&["C21"], true).await?;
        for _ in 0..4 {
            let i = self.g.below(2);
            let kind = self.g.below(8);
            let p = self.local_op(i, kind, true).await?;
            self.check(if p.is_empty() { &["C21"] } else { p }, false).await?;
        }
        Ok(())
    }
}
async fn network(seed: u64) -> R {
    let mut w = W::new(seed, 3).await?;
    let mut r = steps(&mut w).await;
    if let Err(f) = &mut r {
        if f.trace.is_empty() {
            f.trace = w.t.clone();
        }
    }
    if Node::alive() {
        let _ = inside(&w.k, || Node::stop()).await;
    }
    r
}
async fn steps(w: &mut W) -> R {
    w.check(&["C21", "C22"], false).await?;
    for _ in 0..40 {
        let i = w.g.below(2);
        if w.peers[i].conn.is_none() {
            if w.g.chance(60) {
                w.up(i).await?;
            } else {
                // nothing is kept for a node that is only known
                let kind = [2usize, 3, 4, 7][w.g.below(4)];
                let p = w.local_op(i, kind, false).await?;
                w.check(if p.is_empty() { &["C21"] } else { p }, false).await?;
            }
            continue;
        }
        match w.g.below(20) {
            0 => w.shared(i).await?,
            1 if w.g.chance(50) => {
                let (a, n) = (w.g.below(3), w.g.below(2));
                let on = w.g.chance(70);
                w.local_link(a, (a + 1 + n) % 3, on).await?;
            }
            0..=6 => {
                let kind = match w.mode {
                    1 if w.g.chance(85) => [1, 1, 1, 1, 1, 5, 6][w.g.below(7)],
                    2 if w.g.chance(85) => [0, 0, 0, 4, 4, 2][w.g.below(6)],
                    _ => w.g.below(8),
                };
                let p = w.local_op(i, kind, true).await?;
                w.check(if p.is_empty() { &["C21"] } else { p }, false).await?;
            }
            7..=14 => w.frame_op(i).await?,
            15..=16 => {
                // rather one that is monitored under a number another process uses for its own monitor
                let both = w.ins.iter().find(|(k, s)| w.outs.iter().any(|x| ref_no(x.1) == k.1 && x.0 != **s) || w.nodes.iter().any(|x| ref_no(x.1) == k.1 && x.0 != **s)).map(|(k, s)| (k.0, *s));
                match both {
                    Some((i, s)) if w.g.chance(70) => {
                        w.finish(s).await?;
                        if w.peers[i].conn.is_some() && w.g.chance(50) {
                            w.down(i).await?;
                        }
                    }
                    _ => {
                        let s = w.g.below(w.slots.len());
                        w.finish(s).await?;
                    }
                }
            }
            _ => {
                if w.g.chance(40) {
                    w.shared(i).await?;
                }
                w.down(i).await?
            }
        }
    }
    w.end().await
}
fn network_case(seed: u64) -> R {
    rt(network(seed))
}
pub fn cases(v: &mut Vec<Case>) {
    v.push(Case { name: "network", props: &["C02", "C03", "C04", "C05", "C07", "C08", "C21", "C22", "C26"], random: true, limit: 0, f: network_case });
}

// ---- admission (C20)
const H: [&str; 1] = ["C20"];
fn hello(name: &str, addr: SocketAddr, cookie: Option<&str>, real: Option<&str>) -> hv::Hello {
    match cookie {
        Some(c) => Node::set_cookie(c),
        None => Node::clear_cookie(),
    }
    let h = hv::Hello::new(name.into(), addr);
    match real {
        Some(c) => Node::set_cookie(c),
        None => Node::clear_cookie(),
    }
    h
}
fn word(g: &mut Rng) -> String {
    let n = [0, 1, 3, 9, 40][g.below(5)];
    (0..n).map(|_| ['a', 'b', '1', ':', '.', '\0', 'é', '@'][g.below(8)]).collect()
}
/// a hello of a peer, and whether it is authentic for what it says
fn attempt(g: &mut Rng, name: &str, addr: SocketAddr, real: Option<&str>) -> (Option<Frame>, bool, String) {
    let good = hello(name, addr, real, real);
    let fake_key = |g: &mut Rng| -> Option<String> {
        match g.below(4) {
            0 => real.map(|_| String::new()).or(Some("x".into())),
            1 => {
                if real.is_some() {
                    None
                } else {
                    Some("secret".into())
                }
            }
            2 => Some(format!("{}x", real.unwrap_or("secret"))),
            _ => Some(format!("{}S", word(g))),
        }
    };
    match g.below(13) {
        0 | 1 => (Some(good.into()), true, "the right hello".into()),
        2 | 3 => {
            let k = fake_key(g);
            // HMAC pads short keys with zero bytes, so these are the same key
            let same = |a: Option<&str>| a.unwrap_or("\0").trim_end_matches('\0').to_string();
            let ok = same(k.as_deref()) == same(real);
            (Some(hello(name, addr, k.as_deref(), real).into()), ok, format!("a hello made with the cookie {k:?}"))
        }
        4 => {
            let mut h = good;
            h.name.push('x');
            (Some(h.into()), false, "a hello whose name was changed".into())
        }
        5 => {
            let mut h = good;
            h.broadcast_address.set_port(h.broadcast_address.port() ^ 1);
            (Some(h.into()), false, "a hello whose address was changed".into())
        }
        6 => {
            let mut h = good;
            if h.challenge.is_empty() {
                return (Some(h.into()), true, "the right hello".into());
            }
            let i = g.below(h.challenge.len());
            h.challenge[i] ^= 1 << g.below(8);
            (Some(h.into()), false, format!("a hello with byte {i} of its code changed"))
        }
        7 => {
            let mut h = good;
            let n = h.challenge.len();
            h.challenge.truncate([0, 1, n / 2, n - 1][g.below(4)]);
            let n = h.challenge.len();
            (Some(h.into()), false, format!("a hello with the first {n} bytes of its code"))
        }
        8 => {
            let mut h = good;
            h.challenge.push(0);
            (Some(h.into()), false, "a hello with a longer code".into())
        }
        9 => {
            // the same bytes split differently between name and address
            let text = addr.to_string();
            let (a, b) = text.split_at(1);
            match b.parse::<SocketAddr>() {
                Ok(other) => {
                    let mut h = good;
                    h.name.push_str(a);
                    h.broadcast_address = other;
                    (Some(h.into()), false, "a hello whose name took a digit of the address".into())
                }
                Err(_) => (Some(Frame::Ping), false, "a ping".into()),
            }
        }
        10 => (Some(crate::frames::frame(g)), false, "another frame".into()),
        11 => (None, false, "nothing and closes".into()),
        _ => {
            let h = hv::Hello { name: name.into(), broadcast_address: addr, challenge: vec![] };
            (Some(h.into()), false, "a hello without a code".into())
        }
    }
}
async fn admission(seed: u64) -> R {
    let mut g = Rng::new(seed);
    let mut t: Vec<String> = vec![];
    let k = Puppet::spawn();
    let kid = pid_no(k.pid);
    inside(&k, || Process::set_flags(ProcessFlags::TRAP_EXIT)).await?;
    let cookies: [Option<&str>; 4] = [None, Some("secret"), Some(""), Some("a much longer cookie, longer than the block of the hash function, which is sixty-four bytes")];
    let real = cookies[g.below(4)];
    match real {
        Some(c) => Node::set_cookie(c),
        None => Node::clear_cookie(),
    }
    let listen = free_addr();
    let sup = start_local(&k, "local", listen, 400).await?;
    t.push(format!("cookie {real:?}"));
    let r = admissions(&mut g, &mut t, &k, kid, real, listen, sup).await;
    inside(&k, || {
        if Node::alive() {
            Node::stop()
        }
    })
    .await?;
    Node::clear_cookie();
    r
}
async fn admissions(g: &mut Rng, t: &mut Vec<String>, k: &Puppet, kid: u64, real: Option<&str>, listen: SocketAddr, sup: Pid) -> R {
    let mut admitted: Vec<(Node, Conn)> = vec![];
    for n in 0..8u64 {
        let outbound = g.chance(40);
        let listener = TcpListener::bind("127.0.0.1:0").await.unwrap();
        let addr = if outbound || g.chance(50) { listener.local_addr().unwrap() } else { SocketAddr::from(([10, 0, 0, 1 + g.below(250) as u8], 1000 + n as u16)) };
        let name = if g.chance(50) { format!("peer{n}") } else { format!("{}{n}", word(g)) };
        let node = Node::from((name.clone(), addr));
        let (f, mut ok, what) = attempt(g, &name, addr, real);
        if matches!(&f, Some(Frame::Hello(h)) if h.name != name && !ok) && what == "another frame" {
            continue;
        }
        let mut said = Node::from((name.clone(), addr));
        if let Some(Frame::Hello(h)) = &f {
            said = Node::from((h.name.clone(), h.broadcast_address));
        }
        let wrong_node = outbound && g.chance(20);
        let (f, what) = if wrong_node {
            // authentic, but not the node that was wanted
            let h = hello(&format!("{name}'"), addr, real, real);
            said = Node::from((h.name.clone(), addr));
            ok = false;
            (Some(h.into()), "an authentic hello of another node".to_string())
        } else {
            (f, what)
        };
        let mut c = if outbound {
            t.push(format!("the local node connects to {node:?}, which answers with {what}"));
            let x = node.clone();
            inside(k, move || Node::connect(x)).await?;
            let Ok(Ok((s, _))) = tokio::time::timeout(Duration::from_millis(MS), listener.accept()).await else { return fail(&H, "nobody connects", t) };
            Framed::new(s, Codec::new())
        } else {
            t.push(format!("{node:?} connects with {what}"));
            let Some(c) = dial(listen).await else { return fail(&H, "the local node does not listen", t) };
            c
        };
        // the local node introduces itself, authentic under the cookie
        match next(&mut c).await {
            Some(Frame::Hello(mut h)) => {
                ensure!(H, t, h.name == "local" && h.broadcast_address == listen, "the local node says it is {} {}", h.name, h.broadcast_address);
                let mine = hello("local", listen, real, real);
                ensure!(H, t, h.challenge == mine.challenge && h.validate(), "the hello of the local node is not authentic");
            }
            f => return fail(&H, format!("the local node starts with {f:?}"), t),
        }
        let silent = f.is_none() && g.chance(50);
        if let Some(f) = f {
            let _ = c.send(f).await;
        }
        // whatever follows counts only if the hello was accepted
        let m = 5000 + n;
        let _ = c.send(hv::Send::with_pid(NonZeroU64::new(kid).unwrap(), enc(&m)).into()).await;
        let _ = c.send(hv::Exit::new(kid, 5, ExitReason::from("from a peer")).into()).await;
        if silent {
            t.push("it stays silent".into());
        }
        if ok {
            if !state(&node, NodeState::Connected).await {
                return fail(&H, format!("{node:?} is not connected: {:?}", Node::list_by_state(NodeState::Connected)), t);
            }
            let end = std::time::Instant::now() + Duration::from_millis(MS);
            let mut got = vec![];
            while got.len() < 2 {
                got.extend(k.drain().await.unwrap());
                if std::time::Instant::now() > end {
                    return fail(&["C20", "C22"], format!("the frames of a connected node are not acted upon: {got:?}"), t);
                }
                tokio::time::sleep(Duration::from_millis(1)).await;
            }
            admitted.push((node, c));
        } else {
            if !silent {
                // the connection is given up
                let end = tokio::time::timeout(Duration::from_millis(MS), async { while let Some(Ok(_)) = c.next().await {} }).await;
                ensure!(H, t, end.is_ok(), "the connection stays open");
            } else {
                let end = tokio::time::timeout(Duration::from_millis(MS), async { while let Some(Ok(_)) = c.next().await {} }).await;
                ensure!(H, t, end.is_ok(), "the connection of a silent peer stays open");
            }
            drop(c);
            if outbound {
                let x = node.clone();
                ensure!(H, t, wait_for(MS, || Node::list_by_state(NodeState::Known).contains(&x)).await, "{node:?} is still pending or connected");
            }
            tokio::time::sleep(Duration::from_millis(2)).await;
            let l = Node::list();
            ensure!(H, t, outbound || (!l.contains(&node) && !l.contains(&said)), "{node:?} was registered: {l:?}");
            let l = Node::list_by_state(NodeState::Connected);
            ensure!(H, t, !l.contains(&node) && !l.contains(&said), "{node:?} was admitted: {l:?}");
            let got = k.drain().await.unwrap();
            ensure!(H, t, got.is_empty(), "a peer that was not admitted caused {got:?}");
        }
        ensure!(H, t, Process::alive(sup) && Node::alive(), "the local node is gone");
        let mut a: Vec<Node> = Node::list_by_state(NodeState::Connected);
        let mut b: Vec<Node> = admitted.iter().map(|x| x.0.clone()).collect();
        a.sort();
        b.sort();
        ensure!(H, t, a == b, "connected: {a:?}, expected {b:?}");
    }
    Ok(())
}
fn admission_case(seed: u64) -> R {
    rt(admission(seed))
}
/// codes of different hellos differ, and only the one made for exactly that hello is accepted
fn codes(seed: u64) -> R {
    let mut g = Rng::new(seed);
    let mut t: Vec<String> = vec![];
    let mut seen: BTreeMap<Vec<u8>, (String, SocketAddr, Option<String>)> = Default::default();
    for _ in 0..60 {
        let name = word(&mut g);
        let a = if g.chance(50) { SocketAddr::from(([1, 2, 3, (g.below(2) * 10 + 1) as u8], [1u16, 11, 111][g.below(3)])) } else { crate::frames::addr(&mut g) };
        let c: Option<String> = match g.below(4) {
            0 => None,
            1 => Some("secret".into()),
            2 => Some(word(&mut g)),
            _ => Some("k".repeat(60 + g.below(10))),
        };
        let h = hello(&name, a, c.as_deref(), c.as_deref());
        t.push(format!("hello of {name:?} {a} with {c:?}"));
        let mut again = hv::Hello { name: h.name.clone(), broadcast_address: h.broadcast_address, challenge: h.challenge.clone() };
        let ok = again.validate();
        Node::clear_cookie();
        ensure!(H, t, ok, "the hello is not accepted under its own cookie");
        let key = c.clone().unwrap_or("\0".into()).trim_end_matches('\0').to_string();
        let x = (name, a, if key.len() > 64 { c } else { Some(key) });
        if let Some(y) = seen.insert(h.challenge, x.clone()) {
            ensure!(H, t, x == y, "{x:?} and {y:?} have the same code");
        }
    }
    Ok(())
}
// ---- identity (C23)
const I: [&str; 1] = ["C23"];
fn hash<T: std::hash::Hash>(x: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
/// equality, ordering and hashing agree with the identity given by `id`
fn agrees<T: Ord + std::hash::Hash + std::fmt::Debug, K: PartialEq + std::fmt::Debug>(t: &[String], v: &[(T, K)]) -> R {
    use std::cmp::Ordering::*;
    for (a, ka) in v {
        for (b, kb) in v {
            let same = ka == kb;
            ensure!(I, t, (a == b) == same && (a.cmp(b) == Equal) == same && a.partial_cmp(b) == Some(a.cmp(b)), "{a:?} ({ka:?}) and {b:?} ({kb:?}) compare as {} and {:?}", a == b, a.cmp(b));
            ensure!(I, t, !same || hash(a) == hash(b), "{a:?} and {b:?} are equal and hash differently");
            ensure!(I, t, a.cmp(b) == b.cmp(a).reverse(), "the order of {a:?} and {b:?} is not antisymmetric");
            for (c, _) in v {
                ensure!(I, t, !(a.cmp(b) == Less && b.cmp(c) == Less) || a.cmp(c) == Less, "{a:?} < {b:?} < {c:?} is not transitive");
            }
        }
    }
    Ok(())
}
fn become_node(name: &str, addr: SocketAddr) {
    if Node::alive() {
        Node::stop();
    }
    Node::start(name, NodeOptions::new().broadcast_address(addr));
}
fn identity(seed: u64) -> R {
    rt(async move {
        let k = Puppet::spawn();
        match k.call(move || identities(seed)).await {
            Ok(r) => r,
            Err(e) => fail(&I, format!("the operation failed: {e:?}"), &[]),
        }
    })
}
fn identities(seed: u64) -> R {
    let mut g = Rng::new(seed);
    let mut t: Vec<String> = vec![];
    // names and addresses that differ in one part only
    let port = 2000 + g.below(100) as u16;
    let a4 = SocketAddr::from(([10, 0, 0, 1], port));
    let a6 = SocketAddr::from(([0u16, 0, 0, 0, 0, 0xffff, 0x0a00, 1], port));
    let pool: Vec<(String, SocketAddr)> = vec![("a".into(), a4), ("a".into(), SocketAddr::from(([10, 0, 0, 1], port + 1))), ("b".into(), a4), ("".into(), a4), ("a".into(), a6), ("a".into(), SocketAddr::from(([10, 0, 0, 2], port))), ("local".into(), a4), ("nohost".into(), a4), ("a@10.0.0.1".into(), a4), (word(&mut g), crate::frames::addr(&mut g))];
    let mut ids: Vec<(String, SocketAddr)> = vec![];
    while ids.len() < 3 {
        let x = pool[g.below(pool.len())].clone();
        if !ids.contains(&x) {
            ids.push(x);
        }
    }
    t.push(format!("nodes {ids:?}"));
    let pids: Vec<Pid> = (0..3).map(|_| Process::spawn(async {})).collect();
    let refs: Vec<Reference> = (0..3).map(|_| Reference::new()).collect();
    // what each node says about its own processes, references and itself
    let mut home: Vec<(Vec<Vec<u8>>, Vec<Vec<u8>>, Vec<u8>)> = vec![];
    for (n, a) in &ids {
        become_node(n, *a);
        home.push((pids.iter().map(|p| enc(p)).collect(), refs.iter().map(|r| enc(r)).collect(), enc(&Node::current())));
        let back: Result<Vec<Pid>, String> = home.last().unwrap().0.iter().map(|b| dec(b)).collect();
        ensure!(I, t, back.as_ref() == Ok(&pids), "on its own node a pid decodes as {back:?}");
    }
    for here in 0..3 {
        become_node(&ids[here].0, ids[here].1);
        let mut vp: Vec<(Pid, (usize, usize))> = vec![];
        let mut vr: Vec<(Reference, (usize, usize))> = vec![];
        let mut vn: Vec<(Node, usize)> = vec![];
        let order: Vec<usize> = if g.chance(50) { vec![0, 1, 2] } else { vec![2, 0, 1] };
        let before: BTreeSet<Node> = Node::list().into_iter().collect();
        ensure!(I, t, before.is_empty(), "a fresh node knows {before:?}");
        for &o in &order {
            for i in 0..3 {
                let e = |e: String| Fail { props: I.to_vec(), what: format!("node {here} cannot decode a value of node {o}: {e}"), trace: vec![] };
                let p: Pid = dec(&home[o].0[i]).map_err(e)?;
                let r: Reference = dec(&home[o].1[i]).map_err(e)?;
                let n: Node = dec(&home[o].2).map_err(e)?;
                ensure!(I, t, p.is_local() == (o == here) && p.is_remote() != p.is_local(), "on node {here} a pid of node {o} is {p:?}");
                ensure!(I, t, r.is_local() == (o == here) && r.is_remote() != r.is_local(), "on node {here} a reference of node {o} is {r:?}");
                ensure!(I, t, n.is_local() == (o == here) && n.is_remote() != n.is_local(), "on node {here} node {o} is {n:?}");
                ensure!(I, t, (n.name() == Some(&ids[o].0[..]) && n.address() == Some(ids[o].1)) == (o != here), "on node {here} node {o} is {n:?}");
                if o == here {
                    ensure!(I, t, p == pids[i] && r == refs[i], "back home pid {:?} is {p:?} and reference {:?} is {r:?}", pids[i], refs[i]);
                }
                vp.push((p, (o, i)));
                vr.push((r, (o, i)));
                vn.push((n, o));
            }
        }
        // decoded once more they are the same values
        for (p, (o, i)) in &vp {
            ensure!(I, t, dec::<Pid>(&home[*o].0[*i]).as_ref() == Ok(p), "{p:?} decodes differently the second time");
        }
        agrees(&t, &vp)?;
        agrees(&t, &vr)?;
        agrees(&t, &vn)?;
        let l: BTreeSet<Node> = Node::list().into_iter().collect();
        let w: BTreeSet<Node> = (0..3).filter(|o| *o != here).map(|o| Node::from(ids[o].clone())).collect();
        ensure!(I, t, l == w && Node::list().len() == 2, "node {here} knows {:?}, expected {w:?}", Node::list());
        let down: Vec<Node> = Node::list_by_state(NodeState::Known);
        ensure!(I, t, down.len() == 2, "the nodes of decoded values are not just known: {down:?}");
        // passed on they are what their home said, whoever passes them on
        for (p, (o, i)) in &vp {
            let (x, y) = (enc(p), &home[*o].0[*i]);
            ensure!(I, t, x == *y, "node {here} passes {p:?} of node {o} on as {x:?}, at home it is {y:?}");
        }
        for (r, (o, i)) in &vr {
            ensure!(I, t, enc(r) == home[*o].1[*i], "node {here} passes {r:?} of node {o} on as something else");
        }
        for (n, o) in &vn {
            ensure!(I, t, enc(n) == home[*o].2, "node {here} passes {n:?} on as something else");
        }
        // a destination keeps what it names
        let d: Vec<Dest> = vp.iter().map(|x| Dest::Pid(x.0)).chain(vr.iter().map(|x| Dest::Alias(x.0))).chain(vn.iter().map(|x| Dest::Named("n".into(), x.0.clone()))).collect();
        ensure!(I, t, dec::<Vec<Dest>>(&enc(&d)).as_ref() == Ok(&d), "destinations change on the wire");
        // forgotten nodes: values that can no longer name their node still decode, as no live process
        if g.chance(50) {
            let o = (here + 1) % 3;
            let p = vp.iter().find(|x| x.1 .0 == o).unwrap().0;
            Node::forget(Node::from(ids[o].clone()));
            let b = enc(&p);
            let q: Result<Pid, String> = dec(&b);
            ensure!(I, t, matches!(&q, Ok(q) if q.is_remote()), "a pid of a forgotten node decodes as {q:?}");
            for j in 0..3 {
                become_node(&ids[j].0, ids[j].1);
                let q: Result<Pid, String> = dec(&b);
                ensure!(I, t, matches!(&q, Ok(q) if q.is_remote()), "a pid of a forgotten node decodes as {q:?} on node {j}");
            }
        }
    }
    // values sent by a node that is not distributed, and to one
    Node::stop();
    let lost = (enc(&pids[0]), enc(&refs[0]), enc(&Node::current()));
    for b in [&home[0], &home[1]] {
        let p: Result<Pid, String> = dec(&b.0[0]);
        let r: Result<Reference, String> = dec(&b.1[0]);
        let n: Result<Node, String> = dec(&b.2);
        ensure!(I, t, p.is_ok() && r.is_ok() && n.is_ok(), "a node that is not distributed cannot decode {p:?} {r:?} {n:?}");
    }
    for (n, a) in &ids {
        become_node(n, *a);
        let (p, r): (Result<Pid, String>, Result<Reference, String>) = (dec(&lost.0), dec(&lost.1));
        ensure!(I, t, matches!(&p, Ok(p) if p.is_remote()) && matches!(&r, Ok(r) if r.is_remote()), "values without a node decode as {p:?} {r:?}");
        let _ = dec::<Node>(&lost.2);
        // bytes no node sends are refused or decode, without a panic
        let mut b = home[0].0[0].clone();
        for _ in 0..20 {
            let i = g.below(b.len());
            b[i] = g.next() as u8;
            let _ = dec::<Pid>(&b);
            let _ = dec::<Reference>(&b);
            let _ = dec::<Node>(&b);
        }
    }
    Node::stop();
    Ok(())
}
pub fn more_cases(v: &mut Vec<Case>) {
    v.push(Case { name: "admission", props: &["C20", "C22"], random: true, limit: 0, f: admission_case });
    v.push(Case { name: "hello-codes", props: &["C20"], random: true, limit: 200, f: codes });
    v.push(Case { name: "identity", props: &["C23"], random: true, limit: 0, f: identity });
}
