// Spec vocabulary: node registry (C21)
pub type Pend = Map<Node, Vec<Frame>>;
pub open spec fn pend(m: Pend, n: Node) -> Seq<Frame> { if m.contains_key(n) { m[n]@ } else { Seq::empty() } }
pub open spec fn frame_item(f: Frame) -> ProcessItem { user_item(NodeRemoteSenderMessage::SendFrame(Local(f))) }
pub open spec fn frames_item(f: Vec<Frame>) -> ProcessItem { user_item(NodeRemoteSenderMessage::SendFrames(Local(f))) }
pub open spec fn opt_local(p: Option<Pid>) -> bool { match p { Some(q) => q is Local, None => true } }
/// the processes that serve a node are local ones
pub open spec fn workers_local(w: World) -> bool { wloc(w.NODE_REGISTRATIONS@) }
pub open spec fn wloc(g: Map<u64, NodeRegistration>) -> bool { forall|i: u64| #[trigger] g.contains_key(i) ==> opt_local(g[i].supervisor) && opt_local(g[i].sender) && opt_local(g[i].receiver) }
/// the dependents recorded for a node are local processes, linked to remote ones
pub open spec fn deps_wf(w: World) -> bool { dwf(w.NODE_LINKS@, w.NODE_MONITORS@) }
pub open spec fn dwf(l: Map<Node, BTreeSet<(Pid, u64)>>, m: Map<Node, BTreeMap<Reference, NodeMonitor>>) -> bool {
    &&& forall|n: Node, e: (Pid, u64)| #[trigger] nl(l, n).contains(e) ==> e.1 != 0 && e.0 is Remote
    &&& forall|n: Node, r: Reference| #[trigger] nm(m, n).contains_key(r) ==> nmid(nm(m, n)[r]) != 0
}
pub open spec fn nmid(m: NodeMonitor) -> u64 { match m { NodeMonitor::Node(id) => id, NodeMonitor::ProcessMonitor(id, _) => id, NodeMonitor::ProcessMonitorCleanup(id) => id } }
/// registrations, mailboxes, aborted tasks
pub type Trip = (Map<u64, ProcessRegistration>, Map<int, Seq<ProcessItem>>, Set<int>);
pub open spec fn trip(w: World) -> Trip { (w.PROCESS_REGISTRY@, w.mail@, w.aborted@) }
pub open spec fn sig1(t: Trip, id: u64, act: Act, from: Pid, reason: ExitReason) -> Trip {
    if !t.0.contains_key(id) || t.0[id].exit_reason is Some { t } else { match act {
        Act::Die => (t.0.insert(id, with_reason(t.0[id], reason)), t.1, t.2.insert(t.0[id].handle.hid())),
        Act::Deliver => (t.0, mail_push(t.1, t.0[id].sender.chan(), exit_item(from, reason)), t.2),
        Act::Ignore => t,
    } }
}
pub open spec fn lsig1(t: Trip, id: u64, from: Pid, reason: ExitReason) -> Trip { sig1(t, id, link_act(trapf(t.0[id].flags), reason), from, reason) }
/// one noconnection signal for each of the first n links of a lost node
pub open spec fn links_down(t: Trip, s: Seq<(Pid, u64)>, n: int) -> Trip decreases n {
    if n <= 0 { t } else { lsig1(links_down(t, s, n - 1), s[n - 1].1, s[n - 1].0, noconnection()) }
}
/// one message for each of the first n monitors of a lost node
pub open spec fn monitors_down(r: Map<u64, ProcessRegistration>, m: Map<int, Seq<ProcessItem>>, node: Node, s: Seq<(Reference, NodeMonitor)>, n: int) -> Map<int, Seq<ProcessItem>> decreases n {
    if n <= 0 { m } else { let p = monitors_down(r, m, node, s, n - 1); match s[n - 1].1 {
        NodeMonitor::Node(id) => down_push(r, p, id, ProcessItem::MonitorNodeDown(node, s[n - 1].0)),
        NodeMonitor::ProcessMonitor(id, dest) => down_push(r, p, id, ProcessItem::MonitorProcessDown(dest, s[n - 1].0, noconnection())),
        NodeMonitor::ProcessMonitorCleanup(_) => p,
    } }
}
pub open spec fn lost_reg(r: NodeRegistration) -> NodeRegistration { NodeRegistration { supervisor: None, sender: None, receiver: None, state: NodeState::Known, ..r } }
/// w1 is w0 after the connection of `node` was lost: every dependent was told once, nothing of another node changed
pub open spec fn node_lost(w0: World, w1: World, node: Node) -> bool {
    let id = w0.NODE_MAP@[node];
    let ls = set_order(nl(w0.NODE_LINKS@, node));
    let ms = map_order(nm(w0.NODE_MONITORS@, node));
    let t = links_down(trip(w0), ls, ls.len() as int);
    &&& lists(ls, nl(w0.NODE_LINKS@, node)) && lists_map(ms, nm(w0.NODE_MONITORS@, node))
    &&& w1.NODE_REGISTRATIONS@ =~= w0.NODE_REGISTRATIONS@.insert(id, lost_reg(w0.NODE_REGISTRATIONS@[id]))
    &&& w1.NODE_LINKS@ =~= w0.NODE_LINKS@.remove(node)
    &&& w1.NODE_MONITORS@ =~= w0.NODE_MONITORS@.remove(node)
    &&& w1.NODE_PENDING_MESSAGES@ =~= w0.NODE_PENDING_MESSAGES@.remove(node)
    &&& w1.PROCESS_REGISTRY@ =~= t.0 && w1.aborted@ =~= t.2
    &&& w1.mail@ =~= monitors_down(t.0, t.1, node, ms, ms.len() as int)
    &&& forall|i: u64, p: Pid| #[trigger] lk(w1.LINKS@, i).contains(p) <==> lk(w0.LINKS@, i).contains(p) && !nl(w0.NODE_LINKS@, node).contains((p, i))
    &&& forall|i: u64, r: Reference| #[trigger] mo(w1.MONITORS@, i).contains_key(r) <==> mo(w0.MONITORS@, i).contains_key(r) && !is_cleanup(nm(w0.NODE_MONITORS@, node), r, i)
    &&& mo_sub(w0, w1)
    &&& forall|a: u64| #[trigger] w1.ALIASES@.contains_key(a) <==> w0.ALIASES@.contains_key(a) && !(exists|r: Reference| #[trigger] nm(w0.NODE_MONITORS@, node).contains_key(r) && is_lref(r, a))
    &&& forall|a: u64| #[trigger] w1.ALIASES@.contains_key(a) ==> w1.ALIASES@[a] == w0.ALIASES@[a]
    &&& w1 == (World { NODE_REGISTRATIONS: w1.NODE_REGISTRATIONS, ..lost_frame(w0, w1) })
}
pub open spec fn lost_frame(w0: World, w1: World) -> World { World { NODE_LINKS: w1.NODE_LINKS, NODE_MONITORS: w1.NODE_MONITORS, NODE_PENDING_MESSAGES: w1.NODE_PENDING_MESSAGES, LINKS: w1.LINKS, MONITORS: w1.MONITORS, ALIASES: w1.ALIASES, PROCESS_REGISTRY: w1.PROCESS_REGISTRY, mail: w1.mail, aborted: w1.aborted, ..w0 } }
pub open spec fn is_cleanup(m: Map<Reference, NodeMonitor>, r: Reference, i: u64) -> bool { m.contains_key(r) && m[r] == NodeMonitor::ProcessMonitorCleanup(i) }
pub open spec fn is_lref(r: Reference, a: u64) -> bool { r is Local && refid(r) == a }
pub open spec fn registered(w: World, node: Node) -> bool { w.NODE_MAP@.contains_key(node) && known(w, w.NODE_MAP@[node]) }
pub open spec fn reg_of(w: World, node: Node) -> NodeRegistration { w.NODE_REGISTRATIONS@[w.NODE_MAP@[node]] }
/// the supervisor whose end means that the connection of `node` is lost
pub open spec fn serves(w: World, node: Node, process: Pid) -> bool { registered(w, node) && (reg_of(w, node).supervisor matches Some(p) ==> p == process) }
/// w1 is w0 with a new node under the next id
pub open spec fn new_node(w0: World, w1: World, node: Node, supervisor: Option<Pid>, state: NodeState) -> bool {
    let id = w0.NODE_ID@;
    &&& w1.NODE_ID@ == id + 1
    &&& w1.NODE_MAP@ =~= w0.NODE_MAP@.insert(node, id)
    &&& w1.NODE_REGISTRATIONS@ =~= w0.NODE_REGISTRATIONS@.insert(id, NodeRegistration { supervisor, sender: None, receiver: None, state, name: node->Remote_0, broadcast_address: node->Remote_1 })
    &&& w1 == node_frame(w0, w1)
}
/// a connection of a registered node is accepted when nothing serves the node yet; a connection attempt gives way to it
pub open spec fn accepted(w0: World, w1: World, node: Node, supervisor: Pid, r: bool) -> bool {
    let v = reg_of(w0, node);
    &&& r == (v.state is Pending || v.supervisor is None)
    &&& if v.state is Pending && v.supervisor is Some && v.supervisor != Some(supervisor) { signalled(World { NODE_REGISTRATIONS: w1.NODE_REGISTRATIONS, ..w0 }, w1, pidid(v.supervisor->0), Act::Die, w0.PROCESS.pid, ExitReason::Kill) } else { w1 == (World { NODE_REGISTRATIONS: w1.NODE_REGISTRATIONS, ..w0 }) }
    &&& w1.NODE_REGISTRATIONS@ =~= (if r { w0.NODE_REGISTRATIONS@.insert(w0.NODE_MAP@[node], NodeRegistration { supervisor: Some(supervisor), state: NodeState::Connected, ..v }) } else { w0.NODE_REGISTRATIONS@ })
}
/// the supervisor of a node is killed and nothing is queued for the node any more
pub open spec fn cut(w0: World, w1: World, node: Node) -> bool {
    let v = reg_of(w0, node);
    &&& w1.NODE_REGISTRATIONS@ =~= w0.NODE_REGISTRATIONS@.insert(w0.NODE_MAP@[node], NodeRegistration { supervisor: None, state: NodeState::Known, ..v })
    &&& w1.NODE_PENDING_MESSAGES@ =~= w0.NODE_PENDING_MESSAGES@.remove(node)
    &&& match v.supervisor {
        Some(p) => signalled(World { NODE_REGISTRATIONS: w1.NODE_REGISTRATIONS, NODE_PENDING_MESSAGES: w1.NODE_PENDING_MESSAGES, ..w0 }, w1, pidid(p), Act::Die, w0.PROCESS.pid, ExitReason::Kill),
        None => w1 == (World { NODE_REGISTRATIONS: w1.NODE_REGISTRATIONS, NODE_PENDING_MESSAGES: w1.NODE_PENDING_MESSAGES, ..w0 }),
    }
}
/// w1 is w0 after `node` was disconnected: its supervisor was killed and its dependents were told
pub open spec fn disconnected(w0: World, w1: World, node: Node) -> bool {
    if !registered(w0, node) { w1 == w0 }
    else if reg_of(w0, node).supervisor is None { cut(w0, w1, node) }
    else { exists|m: World| #[trigger] cut(w0, m, node) && node_lost(m, w1, node) }
}
/// w1 is w0 after `node` was disconnected and dropped from the tables
pub open spec fn forgotten(w0: World, w1: World, node: Node) -> bool {
    exists|m: World| #[trigger] disconnected(w0, m, node)
        && w1 == (World { NODE_MAP: w1.NODE_MAP, NODE_REGISTRATIONS: w1.NODE_REGISTRATIONS, NODE_PENDING_MESSAGES: w1.NODE_PENDING_MESSAGES, ..m })
        && w1.NODE_MAP@ =~= m.NODE_MAP@.remove(node) && w1.NODE_REGISTRATIONS@ =~= m.NODE_REGISTRATIONS@.remove(m.NODE_MAP@[node]) && w1.NODE_PENDING_MESSAGES@ =~= m.NODE_PENDING_MESSAGES@.remove(node)
}

pub open spec fn local_supervisor(w: World) -> Option<Pid> { if known(w, 0) { w.NODE_REGISTRATIONS@[0].supervisor } else { None } }
/// r lists the remote nodes among the first n entries
pub open spec fn node_keys(r: Seq<Node>, s: Seq<(Node, u64)>, n: int) -> bool decreases n {
    if n <= 0 { r.len() == 0 } else if s[n - 1].0 is Local { node_keys(r, s, n - 1) } else { r.len() > 0 && r.last() == s[n - 1].0 && node_keys(r.drop_last(), s, n - 1) }
}
pub proof fn lm_push_contains<T>(s: Seq<T>, x: T, y: T) ensures s.push(x).contains(y) <==> s.contains(y) || x == y {
    let p = s.push(x);
    if s.contains(y) { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; assert(p[i] == y); }
    if x == y { assert(p[s.len() as int] == y); }
}
pub proof fn lm_node_keys_has(r: Seq<Node>, s: Seq<(Node, u64)>, n: int, k: Node)
    requires 0 <= n <= s.len(), node_keys(r, s, n),
    ensures r.contains(k) <==> k is Remote && exists|j: int| 0 <= j < n && (#[trigger] s[j]).0 == k decreases n
{
    if n > 0 {
        if s[n - 1].0 is Local {
            lm_node_keys_has(r, s, n - 1, k);
            if k is Remote && exists|j: int| 0 <= j < n && (#[trigger] s[j]).0 == k { let j = choose|j: int| 0 <= j < n && (#[trigger] s[j]).0 == k; assert(j < n - 1); }
        } else {
            lm_node_keys_has(r.drop_last(), s, n - 1, k);
            assert(r =~= r.drop_last().push(r.last()));
            lm_push_contains(r.drop_last(), r.last(), k);
            if k == s[n - 1].0 { assert(s[n - 1].0 == k); }
            if k is Remote && exists|j: int| 0 <= j < n && (#[trigger] s[j]).0 == k { let j = choose|j: int| 0 <= j < n && (#[trigger] s[j]).0 == k; if j < n - 1 { assert(s[j].0 == k); } }
        }
    }
}
pub proof fn lm_node_keys_dup(r: Seq<Node>, s: Seq<(Node, u64)>, n: int)
    requires 0 <= n <= s.len(), node_keys(r, s, n), forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0,
    ensures r.no_duplicates() decreases n
{
    if n > 0 {
        if s[n - 1].0 is Local { lm_node_keys_dup(r, s, n - 1); } else {
            let d = r.drop_last();
            lm_node_keys_dup(d, s, n - 1);
            lm_node_keys_has(d, s, n - 1, s[n - 1].0);
            assert(!d.contains(s[n - 1].0));
            assert forall|i: int, j: int| 0 <= i < j < r.len() implies r[i] != r[j] by { if j < d.len() { assert(d[i] != d[j]); } else { assert(d[i] == r[i]); assert(d.contains(r[i])); } }
        }
    }
}
pub proof fn lm_node_keys(r: Seq<Node>, s: Seq<(Node, u64)>, m: Map<Node, u64>)
    requires node_keys(r, s, s.len() as int), lists_map(s, m),
    ensures r.no_duplicates(), forall|n: Node| #[trigger] r.contains(n) <==> n is Remote && m.contains_key(n)
{
    lm_node_keys_dup(r, s, s.len() as int);
    assert forall|n: Node| #[trigger] r.contains(n) <==> n is Remote && m.contains_key(n) by { lm_node_keys_has(r, s, s.len() as int, n); if m.contains_key(n) { let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).0 == n; assert(s[j].0 == n); } }
}
pub open spec fn lists_nodes(s: Seq<Node>, m: Map<Node, u64>) -> bool { s.no_duplicates() && forall|n: Node| #[trigger] s.contains(n) <==> n is Remote && m.contains_key(n) }
/// the first n nodes were disconnected one after the other
pub open spec fn all_disc(w0: World, s: Seq<Node>, n: int, w1: World) -> bool decreases n {
    if n <= 0 { w1 == w0 } else { exists|m: World| all_disc(w0, s, n - 1, m) && #[trigger] disconnected(m, w1, s[n - 1]) }
}
pub open spec fn lost_step(w0: World, w1: World, n: Node) -> bool { if registered(w0, n) && reg_of(w0, n).supervisor is Some { node_lost(w0, w1, n) } else { w1 == w0 } }
pub open spec fn all_lost(w0: World, s: Seq<Node>, n: int, w1: World) -> bool decreases n {
    if n <= 0 { w1 == w0 } else { exists|m: World| all_lost(w0, s, n - 1, m) && #[trigger] lost_step(m, w1, s[n - 1]) }
}
pub open spec fn no_nodes(w: World) -> bool { w.NODE_MAP@ =~= Map::<Node, u64>::empty() && w.NODE_REGISTRATIONS@ =~= Map::<u64, NodeRegistration>::empty() && w.NODE_PENDING_MESSAGES@ =~= Map::<Node, Vec<Frame>>::empty() }
/// the local node ended on its own: every node with a connection (or an attempt) is lost, and nothing is registered any more
pub open spec fn panic_chain(w0: World, s: Seq<Node>, m: World, w1: World) -> bool {
    &&& lists_nodes(s, w0.NODE_MAP@) && all_lost(w0, s, s.len() as int, m)
    &&& no_nodes(w1) && w1 == (World { NODE_MAP: w1.NODE_MAP, NODE_REGISTRATIONS: w1.NODE_REGISTRATIONS, NODE_PENDING_MESSAGES: w1.NODE_PENDING_MESSAGES, ..m })
}
/// the local node was stopped: every node is disconnected, the local supervisor is killed and nothing is registered any more
pub open spec fn stop_chain(w0: World, m0: World, s: Seq<Node>, m1: World, w1: World) -> bool {
    &&& m0 == (World { NODE_MAP: m0.NODE_MAP, ..w0 }) && m0.NODE_MAP@ =~= w0.NODE_MAP@.remove(Node::Local)
    &&& lists_nodes(s, w0.NODE_MAP@) && all_disc(m0, s, s.len() as int, m1)
    &&& no_nodes(w1)
    &&& match local_supervisor(m1) {
        Some(p) => signalled(World { NODE_MAP: w1.NODE_MAP, NODE_REGISTRATIONS: w1.NODE_REGISTRATIONS, NODE_PENDING_MESSAGES: w1.NODE_PENDING_MESSAGES, ..m1 }, w1, pidid(p), Act::Die, m1.PROCESS.pid, ExitReason::Kill),
        None => w1 == (World { NODE_MAP: w1.NODE_MAP, NODE_REGISTRATIONS: w1.NODE_REGISTRATIONS, NODE_PENDING_MESSAGES: w1.NODE_PENDING_MESSAGES, ..m1 }),
    }
}

pub proof fn lm_disc_step(w0: World, s: Seq<Node>, n: int, m: World, w1: World) requires n > 0, all_disc(w0, s, n - 1, m), disconnected(m, w1, s[n - 1]) ensures all_disc(w0, s, n, w1) {}
pub proof fn lm_lost_step(w0: World, s: Seq<Node>, n: int, m: World, w1: World) requires n > 0, all_lost(w0, s, n - 1, m), lost_step(m, w1, s[n - 1]) ensures all_lost(w0, s, n, w1) {}
/// w1 is w0 after a connection to `node` was requested: an attempt is started unless something serves the node already
pub open spec fn connected(w0: World, w1: World, node: Node) -> bool {
    if w0.NODE_MAP@.contains_key(node) {
        let v = reg_of(w0, node);
        &&& w1.NODE_MAP@ =~= w0.NODE_MAP@ && w1.NODE_ID == w0.NODE_ID
        &&& v.supervisor is Some ==> w1.NODE_REGISTRATIONS@ =~= w0.NODE_REGISTRATIONS@
        &&& v.supervisor is None ==> reg_of(w1, node).supervisor is Some && w1.NODE_REGISTRATIONS@ =~= w0.NODE_REGISTRATIONS@.insert(w0.NODE_MAP@[node], NodeRegistration { supervisor: reg_of(w1, node).supervisor, state: NodeState::Pending, ..v })
    } else {
        let id = w0.NODE_ID@;
        &&& w1.NODE_MAP@ =~= w0.NODE_MAP@.insert(node, id) && w1.NODE_ID@ == id + 1
        &&& w1.NODE_REGISTRATIONS@ =~= w0.NODE_REGISTRATIONS@.insert(id, w1.NODE_REGISTRATIONS@[id])
        &&& reg_of(w1, node).supervisor is Some && reg_of(w1, node).sender is None && reg_of(w1, node).state is Pending && node_at(w1, id) == node
    }
}
pub proof fn lm_one_changed<K, V>(m0: Map<K, V>, m1: Map<K, V>, k: K) ensures m1.remove(k) =~= m0.remove(k) && m1.contains_key(k) ==> m1 =~= m0.insert(k, m1[k])
{
  if m1.remove(k) =~= m0.remove(k) && m1.contains_key(k) {
    assert forall|x: K| m1.contains_key(x) <==> m0.insert(k, m1[k]).contains_key(x) by { if x != k { assert(m1.remove(k).contains_key(x) <==> m0.remove(k).contains_key(x)); } }
    assert forall|x: K| m1.contains_key(x) implies m1[x] == m0.insert(k, m1[k])[x] by { if x != k { assert(m1.remove(k)[x] == m0.remove(k)[x]); } }
  }
}
