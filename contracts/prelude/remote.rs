// The socket side of a connection, and what one frame from a peer does (C22)
//@wmethod next
//@world got: Ghost<Seq<Frame>>
//@assume unit remote: other processes run while the receiver waits for a frame; they keep the invariants of the tables
#[verifier::external_body]
pub struct Reader { x: u8 }
pub open spec fn all_wf(w: World) -> bool { nodes_wf(w) && sp_wf(w) && ids_wf(w) && names_nz(w) }
impl Reader {
    /// the next frame of the connection; everything else may have changed meanwhile
    #[verifier::external_body]
    pub fn next(&mut self, w: &mut World) -> (r: Option<Result<Frame, IoError>>)
        requires all_wf(*old(w)),
        ensures all_wf(*final(w)), final(w).got@ == (match r { Some(Ok(f)) => old(w).got@.push(f), _ => old(w).got@ })
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_timed_out(d: Duration) -> (r: bool) { unimplemented!() }

/// the world with the peer's node registered, everything else as in w0
pub open spec fn with_node(w0: World, w: World) -> World { World { NODE_MAP: w.NODE_MAP, NODE_REGISTRATIONS: w.NODE_REGISTRATIONS, NODE_ID: w.NODE_ID, ..w0 } }
pub open spec fn reg_step(w0: World, w1: World, node: Node) -> bool { if w0.NODE_MAP@.contains_key(node) { reg_same(w0, w1) } else { reg_new(w0, w1, node) } }
pub open spec fn reg_same(w0: World, w1: World) -> bool { w1.NODE_MAP@ =~= w0.NODE_MAP@ && w1.NODE_REGISTRATIONS@ =~= w0.NODE_REGISTRATIONS@ && w1.NODE_ID@ == w0.NODE_ID@ }
pub open spec fn reg_new(w0: World, w1: World, node: Node) -> bool {
    let id = w0.NODE_ID@;
    w1.NODE_ID@ == id + 1 && w1.NODE_MAP@ =~= w0.NODE_MAP@.insert(node, id) && w1.NODE_REGISTRATIONS@.remove(id) =~= w0.NODE_REGISTRATIONS@.remove(id) && known(w1, id) && node_at(w1, id) == node
        && w1.NODE_REGISTRATIONS@[id].state is Known && w1.NODE_REGISTRATIONS@[id].supervisor is None && w1.NODE_REGISTRATIONS@[id].sender is None
}
/// w is w0 after frame f of `node` was handled by the connection served by `sup`
pub open spec fn handled(w0: World, w: World, node: Node, sup: Pid, f: Frame) -> bool {
    let w1 = with_node(w0, w);
    (reg_same(w0, w) || reg_step(w0, w, node)) && acted(w1, w, node, w.NODE_MAP@[node], sup, f)
}
pub open spec fn acted(w0: World, w: World, node: Node, nid: u64, sup: Pid, f: Frame) -> bool {
    match f {
        Frame::Hello(_) => false,
        Frame::Ping => f_ping(w0, w, sup),
        Frame::Pong => w == w0,
        Frame::Send(s) => f_send(w0, w, s),
        Frame::Monitor(m) => if m.install { f_monitor(w0, w, node, nid, m) } else { f_demonitor(w0, w, node, nid, m) },
        Frame::MonitorDown(d) => f_mondown(w0, w, node, d.monitors@, d.exit_reason),
        Frame::MonitorUpdate(u) => f_update(w0, w, nid, u),
        Frame::Link(l) => if l.install { f_link(w0, w, node, nid, l) } else { f_unlink(w0, w, node, nid, l) },
        Frame::LinkDown(d) => f_linkdown(w0, w, node, Pid::Remote(nz(d.from_id), nid), d.links@, d.exit_reason),
        Frame::Exit(e) => f_exit(w0, w, nid, e),
    }
}
pub open spec fn f_ping(w0: World, w: World, sup: Pid) -> bool {
    w == (World { ALIASES: w.ALIASES, mail: w.mail, ..w0 }) && w.ALIASES@ =~= w0.ALIASES@ && w.mail@ =~= deliver_w(w0, Dest::Pid(sup), user_item(NodeRemoteSupervisorMessage::SendPong)).1
}
pub open spec fn f_send(w0: World, w: World, s: Send) -> bool {
    let b = deliver_targets(w0.PROCESS_NAMES@, w0.PROCESS_REGISTRY@, w0.open@, (w0.ALIASES@, w0.mail@), s.targets@, s.targets@.len() as int, ProcessItem::UserRemoteMessage(s.message));
    w == (World { ALIASES: w.ALIASES, mail: w.mail, ..w0 }) && w.ALIASES@ =~= b.0 && w.mail@ =~= b.1
}
/// one frame was sent to the peer
pub open spec fn answered(w0: World, w: World, nid: u64) -> bool { w.wire@.len() == w0.wire@.len() + 1 && w.wire@ =~= w0.wire@.push(w.wire@.last()) && w.wire@.last().1 == nid }
/// the local process id of the target of a monitor frame, if it exists
pub open spec fn mon_id(w: World, m: Monitor) -> Option<u64> {
    match m.process_id {
        Some(i) => if w.PROCESS_REGISTRY@.contains_key(i) { Some(i) } else { None },
        None => match m.process_name { Some(n) => if w.PROCESS_NAMES@.contains_key(vstr(n@)) && w.PROCESS_REGISTRY@.contains_key(w.PROCESS_NAMES@[vstr(n@)]) { Some(w.PROCESS_NAMES@[vstr(n@)]) } else { None }, None => None },
    }
}
pub open spec fn f_monitor(w0: World, w: World, node: Node, nid: u64, m: Monitor) -> bool {
    let rf = Reference::Remote(nz(m.reference_id), nid);
    &&& m.from_id is Some && (m.process_id is Some || m.process_name is Some)
    &&& match mon_id(w0, m) {
        Some(i) => mo_insert(w0, w, i, rf, (Pid::Remote(nz(m.from_id->0), nid), None)) && nm_insert(w0, w, node, rf, NodeMonitor::ProcessMonitorCleanup(i))
            && w == (World { MONITORS: w.MONITORS, NODE_MONITORS: w.NODE_MONITORS, wire: w.wire, ..w0 })
            && (m.process_id is Some ==> w.wire == w0.wire)
            && (m.process_id is None ==> answered(w0, w, nid) && w.wire@.last().0 == Frame::MonitorUpdate(MonitorUpdate { process_id: m.from_id->0, from_id: i, reference_id: m.reference_id })),
        None => w == (World { wire: w.wire, ..w0 }) && answered(w0, w, nid) && is_mon_down(w.wire@.last().0, noproc(), seq![m.reference_id]),
    }
}
pub open spec fn f_demonitor(w0: World, w: World, node: Node, nid: u64, m: Monitor) -> bool {
    let rf = Reference::Remote(nz(m.reference_id), nid);
    m.process_id is Some && mo_remove(w0, w, m.process_id->0, rf) && nm_remove(w0, w, node, rf) && w == (World { MONITORS: w.MONITORS, NODE_MONITORS: w.NODE_MONITORS, ..w0 })
}
pub type Mds = (Map<Reference, NodeMonitor>, Map<u64, Alias>, Map<int, Seq<ProcessItem>>);
/// monitors recorded for the node, aliases and mailboxes after the first n of the listed monitors fired
pub open spec fn mds(reg: Map<u64, ProcessRegistration>, b: Mds, s: Seq<u64>, n: int, reason: ExitReason) -> Mds decreases n {
    if n <= 0 { b } else {
        let p = mds(reg, b, s, n - 1, reason);
        let r = Reference::Local(nz(s[n - 1]));
        if p.0.contains_key(r) { match p.0[r] {
            NodeMonitor::ProcessMonitor(id, dest) => (p.0.remove(r), p.1.remove(refid(r)), down_push(reg, p.2, id, ProcessItem::MonitorProcessDown(dest, r, reason))),
            _ => (p.0.remove(r), p.1, p.2),
        } } else { p }
    }
}
pub open spec fn mds_w(w0: World, node: Node, s: Seq<u64>, n: int, reason: ExitReason) -> Mds { mds(w0.PROCESS_REGISTRY@, (nm(w0.NODE_MONITORS@, node), w0.ALIASES@, w0.mail@), s, n, reason) }
pub open spec fn f_mondown(w0: World, w: World, node: Node, s: Seq<u64>, reason: ExitReason) -> bool { mondown_n(w0, w, node, s, s.len() as int, reason) }
pub open spec fn mondown_n(w0: World, w: World, node: Node, s: Seq<u64>, n: int, reason: ExitReason) -> bool {
    let b = mds_w(w0, node, s, n, reason);
    &&& w == (World { NODE_MONITORS: w.NODE_MONITORS, ALIASES: w.ALIASES, mail: w.mail, ..w0 })
    &&& nm_is(w0, w, node, b.0) && w.ALIASES@ =~= b.1 && w.mail@ =~= b.2
}
pub open spec fn nm_is(w0: World, w: World, node: Node, m: Map<Reference, NodeMonitor>) -> bool { forall|n: Node| #[trigger] nm(w.NODE_MONITORS@, n) =~= (if n == node { m } else { nm(w0.NODE_MONITORS@, n) }) }
pub open spec fn f_update(w0: World, w: World, nid: u64, u: MonitorUpdate) -> bool {
    w == (World { mail: w.mail, ..w0 }) && w.mail@ =~= down_push(w0.PROCESS_REGISTRY@, w0.mail@, u.process_id, ProcessItem::MonitorProcessUpdate(Reference::Local(nz(u.reference_id)), Pid::Remote(nz(u.from_id), nid)))
}
pub open spec fn nl_insert(w0: World, w: World, node: Node, e: (Pid, u64)) -> bool { forall|n: Node| #[trigger] nl(w.NODE_LINKS@, n) =~= (if n == node { nl(w0.NODE_LINKS@, n).insert(e) } else { nl(w0.NODE_LINKS@, n) }) }
pub open spec fn nl_remove(w0: World, w: World, node: Node, e: (Pid, u64)) -> bool { forall|n: Node| #[trigger] nl(w.NODE_LINKS@, n) =~= (if n == node { nl(w0.NODE_LINKS@, n).remove(e) } else { nl(w0.NODE_LINKS@, n) }) }
pub open spec fn f_link(w0: World, w: World, node: Node, nid: u64, l: Link) -> bool {
    let from = Pid::Remote(nz(l.from_id), nid);
    if w0.PROCESS_REGISTRY@.contains_key(l.process_id) {
        lk_add(w0, w, l.process_id, from) && nl_insert(w0, w, node, (from, l.process_id)) && w == (World { LINKS: w.LINKS, NODE_LINKS: w.NODE_LINKS, ..w0 })
    } else {
        lk_same(w0, w) && w == (World { LINKS: w.LINKS, wire: w.wire, ..w0 }) && answered(w0, w, nid) && is_noproc_down(w.wire@.last().0, l)
    }
}
pub open spec fn is_noproc_down(f: Frame, l: Link) -> bool { match f { Frame::LinkDown(d) => d.from_id == l.process_id && d.exit_reason == noproc() && d.links@ =~= seq![l.from_id], _ => false } }
pub open spec fn f_unlink(w0: World, w: World, node: Node, nid: u64, l: Link) -> bool {
    let from = Pid::Remote(nz(l.from_id), nid);
    lk_remove(w0, w, l.process_id, from) && nl_remove(w0, w, node, (from, l.process_id)) && w == (World { LINKS: w.LINKS, NODE_LINKS: w.NODE_LINKS, ..w0 })
}
pub open spec fn before(s: Seq<u64>, n: int, x: u64) -> bool { exists|j: int| 0 <= j < n && #[trigger] s[j] == x }
/// registrations, mailboxes and aborted tasks after the first n of the listed links fired: only recorded ones, each once
pub open spec fn lds(t: Trip, ls: Set<(Pid, u64)>, from: Pid, s: Seq<u64>, n: int, reason: ExitReason) -> Trip decreases n {
    if n <= 0 { t } else { let p = lds(t, ls, from, s, n - 1, reason); if ls.contains((from, s[n - 1])) && !before(s, n - 1, s[n - 1]) { lsig1(p, s[n - 1], from, reason) } else { p } }
}
pub open spec fn f_linkdown(w0: World, w: World, node: Node, from: Pid, s: Seq<u64>, reason: ExitReason) -> bool { linkdown_n(w0, w, node, from, s, s.len() as int, reason) }
pub open spec fn linkdown_n(w0: World, w: World, node: Node, from: Pid, s: Seq<u64>, n: int, reason: ExitReason) -> bool {
    let ls = nl(w0.NODE_LINKS@, node);
    let t = lds(trip(w0), ls, from, s, n, reason);
    &&& w == (World { NODE_LINKS: w.NODE_LINKS, LINKS: w.LINKS, PROCESS_REGISTRY: w.PROCESS_REGISTRY, mail: w.mail, aborted: w.aborted, ..w0 })
    &&& w.PROCESS_REGISTRY@ =~= t.0 && w.mail@ =~= t.1 && w.aborted@ =~= t.2
    &&& forall|m: Node, e: (Pid, u64)| #[trigger] nl(w.NODE_LINKS@, m).contains(e) <==> nl(w0.NODE_LINKS@, m).contains(e) && !(m == node && e.0 == from && before(s, n, e.1))
    &&& forall|i: u64, p: Pid| #[trigger] lk(w.LINKS@, i).contains(p) <==> lk(w0.LINKS@, i).contains(p) && !(p == from && before(s, n, i) && ls.contains((from, i)))
}
pub open spec fn f_exit(w0: World, w: World, nid: u64, e: Exit) -> bool {
    signalled(w0, w, e.process_id, exit_act(trapf(w0.PROCESS_REGISTRY@[e.process_id].flags), false, e.exit_reason), Pid::Remote(nz(e.from_id), nid), e.exit_reason)
}
