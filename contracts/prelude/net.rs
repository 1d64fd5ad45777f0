// Spec vocabulary: links, monitors, aliases, per-node tables.
pub open spec fn lk(m: Map<u64, BTreeSet<Pid>>, id: u64) -> Set<Pid> { if m.contains_key(id) { m[id]@ } else { Set::empty() } }
/// the link tables agree except for the listed sides
pub open spec fn lk_is(w0: World, w1: World, f: spec_fn(u64) -> Set<Pid>) -> bool { forall|i: u64| #[trigger] lk(w1.LINKS@, i) =~= f(i) }
pub open spec fn lk_same(w0: World, w1: World) -> bool { forall|i: u64| #[trigger] lk(w1.LINKS@, i) == lk(w0.LINKS@, i) }
/// link sets after `a` was recorded as linked to (the set of) `b`
pub open spec fn lk_add(w0: World, w1: World, b: u64, a: Pid) -> bool {
    forall|i: u64| #[trigger] lk(w1.LINKS@, i) =~= (if i == b { lk(w0.LINKS@, i).insert(a) } else { lk(w0.LINKS@, i) })
}
pub open spec fn nl(m: Map<Node, BTreeSet<(Pid, u64)>>, n: Node) -> Set<(Pid, u64)> { if m.contains_key(n) { m[n]@ } else { Set::empty() } }
pub open spec fn nm(m: Map<Node, BTreeMap<Reference, NodeMonitor>>, n: Node) -> Map<Reference, NodeMonitor> { if m.contains_key(n) { m[n]@ } else { Map::empty() } }
pub open spec fn nl_same(w0: World, w1: World) -> bool { forall|n: Node| #[trigger] nl(w1.NODE_LINKS@, n) == nl(w0.NODE_LINKS@, n) }
pub open spec fn nm_same(w0: World, w1: World) -> bool { forall|n: Node| #[trigger] nm(w1.NODE_MONITORS@, n) == nm(w0.NODE_MONITORS@, n) }
pub open spec fn known(w: World, id: u64) -> bool { w.NODE_REGISTRATIONS@.contains_key(id) }
pub open spec fn node_at(w: World, id: u64) -> Node { Node::Remote(w.NODE_REGISTRATIONS@[id].name, w.NODE_REGISTRATIONS@[id].broadcast_address) }
pub open spec fn others_kept(w0: World, w1: World, r: u64) -> bool { forall|i: u64| i != r && #[trigger] known(w0, i) ==> known(w1, i) && w1.NODE_REGISTRATIONS@[i] == w0.NODE_REGISTRATIONS@[i] }
/// every registered remote node is found by its name under exactly one id (C21)
pub open spec fn nwf(m: Map<Node, u64>, g: Map<u64, NodeRegistration>, next: u64) -> bool {
    &&& forall|i: u64| #[trigger] g.contains_key(i) && i != 0 ==> m.contains_key(Node::Remote(g[i].name, g[i].broadcast_address)) && m[Node::Remote(g[i].name, g[i].broadcast_address)] == i
    &&& forall|n: Node| #[trigger] m.contains_key(n) && n is Remote ==> g.contains_key(m[n]) && Node::Remote(g[m[n]].name, g[m[n]].broadcast_address) == n && m[n] != 0 && m[n] < next
    &&& m.contains_key(Node::Local) ==> m[Node::Local] == 0
    &&& next != 0
}
pub open spec fn nodes_wf(w: World) -> bool { nwf(w.NODE_MAP@, w.NODE_REGISTRATIONS@, w.NODE_ID@) }
/// what `node_register` may change besides the node tables: it can spawn the process that connects
pub open spec fn mo(m: Map<u64, BTreeMap<Reference, (Pid, Option<Dest>)>>, id: u64) -> Map<Reference, (Pid, Option<Dest>)> { if m.contains_key(id) { m[id]@ } else { Map::empty() } }
#[verifier::external_body]
pub fn node_remote_connector(node: Node) -> (r: VFuture) { unimplemented!() }
#[verifier::external_body]
pub fn node_local_supervisor(name: String, options: NodeOptions) -> (r: VFuture) { unimplemented!() }

pub open spec fn lk_remove(w0: World, w1: World, b: u64, a: Pid) -> bool {
    forall|i: u64| #[trigger] lk(w1.LINKS@, i) =~= (if i == b { lk(w0.LINKS@, i).remove(a) } else { lk(w0.LINKS@, i) })
}
pub open spec fn lk_both_add(w0: World, w1: World, a: Pid, b: Pid) -> bool {
    forall|i: u64| #[trigger] lk(w1.LINKS@, i) =~= (if i == pidid(a) { lk(w0.LINKS@, i).insert(b) } else if i == pidid(b) { lk(w0.LINKS@, i).insert(a) } else { lk(w0.LINKS@, i) })
}
pub open spec fn lk_both_remove(w0: World, w1: World, a: Pid, b: Pid) -> bool {
    forall|i: u64| #[trigger] lk(w1.LINKS@, i) =~= (if i == pidid(a) && i == pidid(b) { lk(w0.LINKS@, i).remove(b).remove(a) } else if i == pidid(a) { lk(w0.LINKS@, i).remove(b) } else if i == pidid(b) { lk(w0.LINKS@, i).remove(a) } else { lk(w0.LINKS@, i) })
}
pub open spec fn only_links(w0: World, w1: World) -> bool { w1 == (World { LINKS: w1.LINKS, ..w0 }) }
pub open spec fn only_links_wire(w0: World, w1: World) -> bool { w1 == (World { LINKS: w1.LINKS, wire: w1.wire, ..w0 }) }
pub open spec fn noproc() -> ExitReason { ExitReason::Custom(vstr("noproc"@)) }
pub open spec fn noconnection() -> ExitReason { ExitReason::Custom(vstr("noconnection"@)) }
pub enum LinkCase { Linked, NoProc, Remote, NoConnection }
/// what Process::link of an existing process to `p` does (C03)
pub open spec fn link_case(w: World, p: Pid) -> LinkCase {
    if p is Local { if w.PROCESS_REGISTRY@.contains_key(pidid(p)) { LinkCase::Linked } else { LinkCase::NoProc } }
    else if known(w, pidnode(p)) { LinkCase::Remote } else { LinkCase::NoConnection }
}
// ---------- signals to a set of processes (C02)
pub open spec fn sig_reg(r: ProcessRegistration, reason: ExitReason) -> ProcessRegistration { if sig_dies(r, reason) { with_reason(r, reason) } else { r } }
pub open spec fn sig_dies(r: ProcessRegistration, reason: ExitReason) -> bool { r.exit_reason is None && link_act(trapf(r.flags), reason) is Die }
pub open spec fn sig_delivers(r: ProcessRegistration, reason: ExitReason) -> bool { r.exit_reason is None && link_act(trapf(r.flags), reason) is Deliver }
/// exactly the processes in `hit` received exactly one link signal
pub open spec fn link_signals(r0: Map<u64, ProcessRegistration>, m0: Map<int, Seq<ProcessItem>>, a0: Set<int>, r1: Map<u64, ProcessRegistration>, m1: Map<int, Seq<ProcessItem>>, a1: Set<int>, hit: Set<u64>, from: Pid, reason: ExitReason) -> bool {
    &&& r1.dom() =~= r0.dom()
    &&& forall|id: u64| #[trigger] r0.contains_key(id) ==> r1[id] == (if hit.contains(id) { sig_reg(r0[id], reason) } else { r0[id] })
    &&& forall|id: u64| #[trigger] r0.contains_key(id) ==> m1[r0[id].sender.chan()] == (if hit.contains(id) && sig_delivers(r0[id], reason) { m0[r0[id].sender.chan()].push(exit_item(from, reason)) } else { m0[r0[id].sender.chan()] })
    &&& forall|c: int| (forall|id: u64| #[trigger] r0.contains_key(id) ==> r0[id].sender.chan() != c) ==> #[trigger] m1[c] == m0[c]
    &&& forall|id: u64| #[trigger] r0.contains_key(id) && hit.contains(id) && sig_dies(r0[id], reason) ==> a1.contains(r0[id].handle.hid())
    &&& forall|h: int| #[trigger] a0.contains(h) ==> a1.contains(h)
    &&& forall|h: int| #[trigger] a1.contains(h) ==> a0.contains(h) || exists|id: u64| #[trigger] r0.contains_key(id) && hit.contains(id) && sig_dies(r0[id], reason) && r0[id].handle.hid() == h
}
pub open spec fn signals_w(w0: World, w1: World, hit: Set<u64>, from: Pid, reason: ExitReason) -> bool {
    link_signals(w0.PROCESS_REGISTRY@, w0.mail@, w0.aborted@, w1.PROCESS_REGISTRY@, w1.mail@, w1.aborted@, hit, from, reason)
}
pub proof fn lm_signals_step(w0: World, w1: World, w2: World, hit: Set<u64>, id: u64, from: Pid, reason: ExitReason)
    requires reg_wf(w0), signals_w(w0, w1, hit, from, reason), !hit.contains(id), link_signal(w1, w2, id, from, reason), w1.open == w0.open,
    ensures signals_w(w0, w2, hit.insert(id), from, reason)
{
    let r0 = w0.PROCESS_REGISTRY@;
    let r1 = w1.PROCESS_REGISTRY@;
    if r0.contains_key(id) {
        assert(r1.contains_key(id) && r1[id] == r0[id]);
        assert(chan_of(w1, id) == chan_of(w0, id));
        let c0 = chan_of(w0, id);
        assert forall|i: u64| #[trigger] r0.contains_key(i) implies w2.mail@[r0[i].sender.chan()] == (if hit.insert(id).contains(i) && sig_delivers(r0[i], reason) { w0.mail@[r0[i].sender.chan()].push(exit_item(from, reason)) } else { w0.mail@[r0[i].sender.chan()] }) by { }
        assert forall|c: int| (forall|i: u64| #[trigger] r0.contains_key(i) ==> r0[i].sender.chan() != c) implies #[trigger] w2.mail@[c] == w0.mail@[c] by { assert(c != c0); assert(w1.mail@[c] == w0.mail@[c]); }
    } else {
        assert(!r1.contains_key(id));
        assert forall|c: int| (forall|i: u64| #[trigger] r0.contains_key(i) ==> r0[i].sender.chan() != c) implies #[trigger] w2.mail@[c] == w0.mail@[c] by { assert(w1.mail@[c] == w0.mail@[c]); }
    }
    assert forall|h: int| #[trigger] w2.aborted@.contains(h) implies w0.aborted@.contains(h) || exists|i: u64| #[trigger] r0.contains_key(i) && hit.insert(id).contains(i) && sig_dies(r0[i], reason) && r0[i].handle.hid() == h by {
        if w1.aborted@.contains(h) { } else { assert(r0.contains_key(id)); }
    }
}
/// ids of the local pids among the first n
pub open spec fn local_ids(s: Seq<Pid>, n: int) -> Set<u64> decreases n {
    if n <= 0 { Set::empty() } else if s[n - 1] is Local { local_ids(s, n - 1).insert(pidid(s[n - 1])) } else { local_ids(s, n - 1) }
}
pub proof fn lm_local_ids(s: Seq<Pid>, n: int, id: u64) requires 0 <= n <= s.len(), id != 0 ensures local_ids(s, n).contains(id) <==> exists|j: int| 0 <= j < n && #[trigger] s[j] == lpid(id) decreases n
{
    if n > 0 { lm_local_ids(s, n - 1, id); ax_nz2(id); if s[n - 1] is Local { lm_lpid_inj(s[n - 1]); }
        if exists|j: int| 0 <= j < n && #[trigger] s[j] == lpid(id) { let j = choose|j: int| 0 <= j < n && #[trigger] s[j] == lpid(id); if j < n - 1 { assert(s[j] == lpid(id)); } else { assert(pidid(s[n - 1]) == id); } }
        if local_ids(s, n - 1).contains(id) { let j = choose|j: int| 0 <= j < n - 1 && #[trigger] s[j] == lpid(id); assert(s[j] == lpid(id)); }
    }
}
pub proof fn lm_lpid_inj(p: Pid) requires p is Local ensures lpid(pidid(p)) == p { match p { Pid::Local(n) => { ax_nz(n); } Pid::Remote(_, _) => {} } }
/// a pid that comes later in a list without repetitions has not been met yet
pub proof fn lm_local_fresh(s: Seq<Pid>, n: int) requires 0 <= n < s.len(), s.no_duplicates(), s[n] is Local ensures !local_ids(s, n).contains(pidid(s[n]))
{
    lm_pidid(s[n]); lm_local_ids(s, n, pidid(s[n])); lm_lpid_inj(s[n]);
}
/// the remote pids of one node, in order
pub open spec fn pids_of(s: Seq<Pid>, n: int, node: u64) -> Seq<Pid> decreases n {
    if n <= 0 { Seq::empty() } else if s[n - 1] is Remote && pidnode(s[n - 1]) == node { pids_of(s, n - 1, node).push(s[n - 1]) } else { pids_of(s, n - 1, node) }
}
pub open spec fn ids_of(s: Seq<Pid>, n: int, node: u64) -> Seq<u64> decreases n {
    if n <= 0 { Seq::empty() } else if s[n - 1] is Remote && pidnode(s[n - 1]) == node { ids_of(s, n - 1, node).push(pidid(s[n - 1])) } else { ids_of(s, n - 1, node) }
}
pub proof fn lm_pids_of(s: Seq<Pid>, n: int, node: u64, p: Pid) requires 0 <= n <= s.len()
    ensures pids_of(s, n, node).contains(p) <==> (p is Remote && pidnode(p) == node && exists|j: int| 0 <= j < n && #[trigger] s[j] == p) decreases n
{
    if n > 0 {
        lm_pids_of(s, n - 1, node, p);
        let a = pids_of(s, n - 1, node);
        if s[n - 1] is Remote && pidnode(s[n - 1]) == node {
            assert(a.push(s[n - 1])[a.len() as int] == s[n - 1]);
            if a.contains(p) { let i = choose|i: int| 0 <= i < a.len() && a[i] == p; assert(a.push(s[n - 1])[i] == p); }
            let b = a.push(s[n - 1]);
            if b.contains(p) && p != s[n - 1] { let i = choose|i: int| 0 <= i < b.len() && b[i] == p; assert(a[i] == p); }
        }
        if exists|j: int| 0 <= j < n && #[trigger] s[j] == p { let j = choose|j: int| 0 <= j < n && #[trigger] s[j] == p; if j < n - 1 { assert(s[j] == p); } }
    }
}
/// the nodes named by remote pids
pub open spec fn has_node(s: Seq<Pid>, n: int, node: u64) -> bool { exists|j: int| 0 <= j < n && (#[trigger] s[j]) is Remote && pidnode(s[j]) == node }
pub open spec fn is_link_down(f: Frame, from: Pid, reason: ExitReason, ids: Seq<u64>) -> bool { match f { Frame::LinkDown(d) => d.from_id == pidid(from) && d.exit_reason == reason && d.links@ == ids, _ => false } }
/// the frames sent when `from` dies: one per node, listing exactly the linked pids of that node
pub open spec fn link_down_frames(w0: Seq<(Frame, u64)>, w1: Seq<(Frame, u64)>, s: Seq<Pid>, from: Pid, reason: ExitReason) -> bool {
    &&& w0.len() <= w1.len() && (forall|j: int| 0 <= j < w0.len() ==> #[trigger] w1[j] == w0[j])
    &&& forall|j: int| w0.len() <= j < w1.len() ==> is_link_down((#[trigger] w1[j]).0, from, reason, ids_of(s, s.len() as int, w1[j].1)) && has_node(s, s.len() as int, w1[j].1)
    &&& forall|i: int, j: int| w0.len() <= i < j < w1.len() ==> (#[trigger] w1[i]).1 != (#[trigger] w1[j]).1
    &&& forall|n: u64| #[trigger] has_node(s, s.len() as int, n) ==> exists|j: int| w0.len() <= j < w1.len() && (#[trigger] w1[j]).1 == n
}
pub proof fn lm_no_node(s: Seq<Pid>, n: int, node: u64) requires 0 <= n <= s.len(), !has_node(s, n, node)
    ensures ids_of(s, n, node) =~= Seq::<u64>::empty(), pids_of(s, n, node) =~= Seq::<Pid>::empty() decreases n
{
    if n > 0 {
        if has_node(s, n - 1, node) { let j = choose|j: int| 0 <= j < n - 1 && (#[trigger] s[j]) is Remote && pidnode(s[j]) == node; assert(s[j] is Remote); }
        lm_no_node(s, n - 1, node);
        assert(!(s[n - 1] is Remote && pidnode(s[n - 1]) == node));
    }
}
// ---------- monitors
pub open spec fn nm_get(w: World, n: Node, r: Reference) -> Option<NodeMonitor> { if nm(w.NODE_MONITORS@, n).contains_key(r) { Some(nm(w.NODE_MONITORS@, n)[r]) } else { None } }
pub open spec fn nm_insert(w0: World, w1: World, node: Node, r: Reference, m: NodeMonitor) -> bool {
    forall|n: Node| #[trigger] nm(w1.NODE_MONITORS@, n) =~= (if n == node { nm(w0.NODE_MONITORS@, n).insert(r, m) } else { nm(w0.NODE_MONITORS@, n) })
}
pub open spec fn nm_remove(w0: World, w1: World, node: Node, r: Reference) -> bool {
    forall|n: Node| #[trigger] nm(w1.NODE_MONITORS@, n) =~= (if n == node { nm(w0.NODE_MONITORS@, n).remove(r) } else { nm(w0.NODE_MONITORS@, n) })
}
/// no node monitor was added or changed
pub open spec fn nm_sub(w0: World, w1: World) -> bool {
    forall|n: Node, r: Reference| #[trigger] nm(w1.NODE_MONITORS@, n).contains_key(r) ==> nm(w0.NODE_MONITORS@, n).contains_key(r) && nm(w1.NODE_MONITORS@, n)[r] == nm(w0.NODE_MONITORS@, n)[r]
}
/// mail after `x` was sent to the process `id` if it exists
pub open spec fn down_push(reg: Map<u64, ProcessRegistration>, m: Map<int, Seq<ProcessItem>>, id: u64, x: ProcessItem) -> Map<int, Seq<ProcessItem>> {
    if reg.contains_key(id) { mail_push(m, reg[id].sender.chan(), x) } else { m }
}
pub type MonEntry = (Reference, (Pid, Option<Dest>));
/// mail after every local monitor listed in the first n entries got its one DOWN
pub open spec fn downs(reg: Map<u64, ProcessRegistration>, m: Map<int, Seq<ProcessItem>>, s: Seq<MonEntry>, n: int, reason: ExitReason) -> Map<int, Seq<ProcessItem>> decreases n {
    if n <= 0 { m } else { let e = s[n - 1]; let p = downs(reg, m, s, n - 1, reason);
        if e.1.0 is Local { down_push(reg, p, pidid(e.1.0), ProcessItem::MonitorProcessDown(e.1.1->0, e.0, reason)) } else { p } }
}
pub open spec fn mrefs_of(s: Seq<MonEntry>, n: int, node: u64) -> Seq<Reference> decreases n {
    if n <= 0 { Seq::empty() } else if s[n - 1].1.0 is Remote && pidnode(s[n - 1].1.0) == node { mrefs_of(s, n - 1, node).push(s[n - 1].0) } else { mrefs_of(s, n - 1, node) }
}
pub open spec fn mids_of(s: Seq<MonEntry>, n: int, node: u64) -> Seq<u64> decreases n {
    if n <= 0 { Seq::empty() } else if s[n - 1].1.0 is Remote && pidnode(s[n - 1].1.0) == node { mids_of(s, n - 1, node).push(refid(s[n - 1].0)) } else { mids_of(s, n - 1, node) }
}
pub open spec fn mhas_node(s: Seq<MonEntry>, n: int, node: u64) -> bool { exists|j: int| 0 <= j < n && (#[trigger] s[j]).1.0 is Remote && pidnode(s[j].1.0) == node }
pub proof fn lm_mno_node(s: Seq<MonEntry>, n: int, node: u64) requires 0 <= n <= s.len(), !mhas_node(s, n, node)
    ensures mids_of(s, n, node) =~= Seq::<u64>::empty(), mrefs_of(s, n, node) =~= Seq::<Reference>::empty() decreases n
{
    if n > 0 {
        if mhas_node(s, n - 1, node) { let j = choose|j: int| 0 <= j < n - 1 && (#[trigger] s[j]).1.0 is Remote && pidnode(s[j].1.0) == node; assert(s[j].1.0 is Remote); }
        lm_mno_node(s, n - 1, node);
        assert(!(s[n - 1].1.0 is Remote && pidnode(s[n - 1].1.0) == node));
    }
}
pub proof fn lm_mrefs_of(s: Seq<MonEntry>, n: int, node: u64, r: Reference) requires 0 <= n <= s.len()
    ensures mrefs_of(s, n, node).contains(r) <==> exists|j: int| 0 <= j < n && (#[trigger] s[j]).0 == r && s[j].1.0 is Remote && pidnode(s[j].1.0) == node decreases n
{
    if n > 0 {
        lm_mrefs_of(s, n - 1, node, r);
        let a = mrefs_of(s, n - 1, node);
        let b = a.push(s[n - 1].0);
        if s[n - 1].1.0 is Remote && pidnode(s[n - 1].1.0) == node {
            assert(b[a.len() as int] == s[n - 1].0);
            if a.contains(r) { let i = choose|i: int| 0 <= i < a.len() && a[i] == r; assert(b[i] == r); let j = choose|j: int| 0 <= j < n - 1 && (#[trigger] s[j]).0 == r && s[j].1.0 is Remote && pidnode(s[j].1.0) == node; assert(s[j].0 == r); }
            if b.contains(r) && r != s[n - 1].0 { let i = choose|i: int| 0 <= i < b.len() && b[i] == r; assert(a[i] == r); }
        }
        if a.contains(r) { let j = choose|j: int| 0 <= j < n - 1 && (#[trigger] s[j]).0 == r && s[j].1.0 is Remote && pidnode(s[j].1.0) == node; assert(s[j].0 == r); }
        if exists|j: int| 0 <= j < n && (#[trigger] s[j]).0 == r && s[j].1.0 is Remote && pidnode(s[j].1.0) == node { let j = choose|j: int| 0 <= j < n && (#[trigger] s[j]).0 == r && s[j].1.0 is Remote && pidnode(s[j].1.0) == node; if j < n - 1 { assert(s[j].0 == r); } }
    }
}
pub open spec fn is_mon_down(f: Frame, reason: ExitReason, ids: Seq<u64>) -> bool { match f { Frame::MonitorDown(d) => d.exit_reason == reason && d.monitors@ == ids, _ => false } }
/// one frame per remote node, listing exactly that node's references (C04)
pub open spec fn mon_down_frames(w0: Seq<(Frame, u64)>, w1: Seq<(Frame, u64)>, s: Seq<MonEntry>, reason: ExitReason) -> bool {
    &&& w0.len() <= w1.len() && (forall|j: int| 0 <= j < w0.len() ==> #[trigger] w1[j] == w0[j])
    &&& forall|j: int| w0.len() <= j < w1.len() ==> is_mon_down((#[trigger] w1[j]).0, reason, mids_of(s, s.len() as int, w1[j].1)) && mhas_node(s, s.len() as int, w1[j].1)
    &&& forall|i: int, j: int| w0.len() <= i < j < w1.len() ==> (#[trigger] w1[i]).1 != (#[trigger] w1[j]).1
    &&& forall|n: u64| #[trigger] mhas_node(s, s.len() as int, n) ==> exists|j: int| w0.len() <= j < w1.len() && (#[trigger] w1[j]).1 == n
}
/// local ids of the references of the first n entries
pub open spec fn has_lref(s: Seq<MonEntry>, n: int, a: u64) -> bool { exists|j: int| 0 <= j < n && (#[trigger] s[j]).0 is Local && refid(s[j].0) == a }
pub open spec fn mo_insert(w0: World, w1: World, id: u64, r: Reference, v: (Pid, Option<Dest>)) -> bool {
    forall|i: u64| #[trigger] mo(w1.MONITORS@, i) =~= (if i == id { mo(w0.MONITORS@, i).insert(r, v) } else { mo(w0.MONITORS@, i) })
}
pub open spec fn mo_remove(w0: World, w1: World, id: u64, r: Reference) -> bool {
    forall|i: u64| #[trigger] mo(w1.MONITORS@, i) =~= (if i == id { mo(w0.MONITORS@, i).remove(r) } else { mo(w0.MONITORS@, i) })
}
pub enum MonCase { Local(u64), NoProc(Option<Pid>), Remote(u64, Node, Option<u64>, Option<String>), NoConnection }
/// what Process::monitor of `d` does (C04)
pub open spec fn mon_case(w: World, d: Dest) -> MonCase {
    match d {
        Dest::Pid(p) => if p is Local { if w.PROCESS_REGISTRY@.contains_key(pidid(p)) { MonCase::Local(pidid(p)) } else { MonCase::NoProc(Some(p)) } }
            else if known(w, pidnode(p)) { MonCase::Remote(pidnode(p), node_at(w, pidnode(p)), Some(pidid(p)), None) } else { MonCase::NoConnection },
        Dest::Named(n, Node::Local) => if w.PROCESS_NAMES@.contains_key(vstr(n@)) { MonCase::Local(w.PROCESS_NAMES@[vstr(n@)]) } else { MonCase::NoProc(None) },
        Dest::Named(n, m) => MonCase::Remote(if w.NODE_MAP@.contains_key(m) { w.NODE_MAP@[m] } else { w.NODE_ID@ }, m, None, Some(vstr(n@))),
        Dest::Alias(_) => MonCase::NoConnection,
    }
}
/// the target recorded by the monitoring process
pub open spec fn mon_target(w: World, d: Dest) -> Option<Pid> {
    match d { Dest::Pid(p) => Some(p), Dest::Named(n, Node::Local) => if w.PROCESS_NAMES@.contains_key(vstr(n@)) { Some(lpid(w.PROCESS_NAMES@[vstr(n@)])) } else { None }, _ => None }
}
pub open spec fn own_wf(w: World) -> bool { w.open@.contains(w.PROCESS.sender.chan()) && w.PROCESS.pid is Local }
pub open spec fn own_down(w0: World, w1: World, d: Dest, r: Reference, reason: ExitReason) -> bool {
    &&& w1.mail@ =~= mail_push(w0.mail@, w0.PROCESS.sender.chan(), ProcessItem::MonitorProcessDown(d, r, reason))
    &&& w1.ALIASES@ =~= w0.ALIASES@.remove(refid(r))
}
pub open spec fn node_spawn_frame(w0: World, w1: World) -> World { World { NODE_MAP: w1.NODE_MAP, NODE_REGISTRATIONS: w1.NODE_REGISTRATIONS, NODE_ID: w1.NODE_ID, PROCESS_REGISTRY: w1.PROCESS_REGISTRY, process__ID: w1.process__ID, open: w1.open, mail: w1.mail, fresh: w1.fresh, ..w0 } }
pub open spec fn mo_sub(w0: World, w1: World) -> bool {
    forall|n: u64, r: Reference| #[trigger] mo(w1.MONITORS@, n).contains_key(r) ==> mo(w0.MONITORS@, n).contains_key(r) && mo(w1.MONITORS@, n)[r] == mo(w0.MONITORS@, n)[r]
}
/// entry e of a process's monitor table names the local monitor (i, r)
pub open spec fn dm_mo(e: (&Reference, &ProcessMonitor), i: u64, r: Reference) -> bool { *e.0 == r && match *e.1 { ProcessMonitor::ForProcess(Some(p)) => p is Local && pidid(p) == i, _ => false } }
pub open spec fn dm_nm(w: World, e: (&Reference, &ProcessMonitor), n: Node, r: Reference) -> bool { dmn(w.NODE_REGISTRATIONS@, e, n, r) }
pub open spec fn dmn(g: Map<u64, NodeRegistration>, e: (&Reference, &ProcessMonitor), n: Node, r: Reference) -> bool {
    *e.0 == r && match *e.1 { ProcessMonitor::ForProcess(Some(p)) => p is Remote && g.contains_key(pidnode(p)) && n == Node::Remote(g[pidnode(p)].name, g[pidnode(p)].broadcast_address), ProcessMonitor::ForNode(m) => n == m, _ => false }
}
/// the frames that remove the remote monitors of a table
pub open spec fn dm_frames(s: Seq<(&Reference, &ProcessMonitor)>, n: int) -> Seq<(Frame, u64)> decreases n {
    if n <= 0 { Seq::empty() } else { match *s[n - 1].1 { ProcessMonitor::ForProcess(Some(Pid::Remote(id, node))) => dm_frames(s, n - 1).push((Frame::Monitor(Monitor { install: false, process_id: Some(id@), process_name: None, from_id: None, reference_id: refid(*s[n - 1].0) }), node)), _ => dm_frames(s, n - 1) } }
}
// ---------- processes
impl VxDefault for ExitReason { open spec fn vdef(v: Self) -> bool { v is Normal } #[verifier::external_body] fn vx_default() -> (r: Self) { unimplemented!() } }
pub open spec fn pid_ok(p: Pid) -> bool { p is Remote ==> pidnode(p) != 0 }
pub open spec fn dest_ok(d: Dest) -> bool { match d { Dest::Pid(p) => pid_ok(p), _ => true } }
/// invariant of the node's state between operations, seen from a running process
pub open spec fn node_inv(w: World) -> bool { nodes_wf(w) && sp_wf(w) && names_wf(w) && own_wf(w) && ids_wf(w) }
pub open spec fn spawn_frame(w0: World, w1: World) -> World { World { PROCESS_REGISTRY: w1.PROCESS_REGISTRY, process__ID: w1.process__ID, open: w1.open, mail: w1.mail, fresh: w1.fresh, ..w0 } }
/// w1 is w0 after the current process installed a monitor of `d` with reference `r` (C04)
pub open spec fn monitored(w0: World, w1: World, d: Dest, r: Reference) -> bool {
    &&& !(d is Alias) && d != Dest::Pid(w0.PROCESS.pid)
    &&& nodes_wf(w1) && sp_wf(w1)
    &&& w1.PROCESS.monitors@ =~= w0.PROCESS.monitors@.insert(r, ProcessMonitor::ForProcess(mon_target(w0, d)))
    &&& w1.PROCESS == (Process { monitors: w1.PROCESS.monitors, ..w0.PROCESS })
    &&& match mon_case(w0, d) {
        MonCase::Local(id) => mo_insert(w0, w1, id, r, (w0.PROCESS.pid, Some(d))) && w1 == (World { MONITORS: w1.MONITORS, PROCESS: w1.PROCESS, reference__REF: w1.reference__REF, ..w0 }),
        MonCase::NoProc(_) => w1.mail@ =~= mail_push(w0.mail@, w0.PROCESS.sender.chan(), ProcessItem::MonitorProcessDown(d, r, noproc())) && w1 == (World { PROCESS: w1.PROCESS, mail: w1.mail, ALIASES: w1.ALIASES, reference__REF: w1.reference__REF, ..w0 }),
        MonCase::NoConnection => w1.mail@ =~= mail_push(w0.mail@, w0.PROCESS.sender.chan(), ProcessItem::MonitorProcessDown(d, r, noconnection())) && w1 == (World { PROCESS: w1.PROCESS, mail: w1.mail, ALIASES: w1.ALIASES, reference__REF: w1.reference__REF, ..w0 }),
        MonCase::Remote(nid, node, pid, name) => nm_insert(w0, w1, node, r, NodeMonitor::ProcessMonitor(pidid(w0.PROCESS.pid), d))
            && w1.wire@ == w0.wire@.push((Frame::Monitor(Monitor { install: true, process_id: pid, process_name: name, from_id: Some(pidid(w0.PROCESS.pid)), reference_id: refid(r) }), nid))
            && w1 == (World { NODE_MONITORS: w1.NODE_MONITORS, wire: w1.wire, PROCESS: w1.PROCESS, reference__REF: w1.reference__REF, ..node_spawn_frame(w0, w1) }),
    }
}
pub open spec fn is_down_of(i: ProcessItem, m: Reference) -> bool { match i { ProcessItem::SystemMessage(SystemMessage::ProcessDown(_, r, _)) => r == m, _ => false } }
/// the items that are not DOWN messages of monitor m, in order
pub open spec fn without_down(s: Seq<ProcessItem>, n: int, m: Reference) -> Seq<ProcessItem> decreases n {
    if n <= 0 { Seq::empty() } else if is_down_of(s[n - 1], m) { without_down(s, n - 1, m) } else { without_down(s, n - 1, m).push(s[n - 1]) }
}
/// the reason a process ends with: the recorded one, Normal when nothing was recorded (C01)
pub open spec fn end_reason(r: ProcessRegistration) -> ExitReason { match r.exit_reason { Some(x) => x, None => ExitReason::Normal } }
/// the watching process of each monitor
pub open spec fn watchers(m: Map<Reference, (Pid, Option<Dest>)>) -> Seq<Pid> { Seq::new(map_order(m).len(), |i: int| map_order(m)[i].1.0) }

// ---------- destinations
pub open spec fn dests_seq(d: Dests) -> Seq<Dest> { match d { Dests::Dest(x) => seq![x], Dests::Dests(v) => v@ } }
pub open spec fn lists_dests(d: Dests, s: Seq<Dest>) -> bool { dests_seq(d) =~= s }
pub open spec fn lists_pids(d: Dests, s: Seq<Pid>) -> bool { dests_seq(d) =~= s.map_values(|p: Pid| Dest::Pid(p)) }
pub open spec fn names(d: Dest, n: Seq<char>) -> bool { d matches Dest::Named(x, _) && x@ == n }
