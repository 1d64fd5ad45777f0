// Spec vocabulary: message delivery (C07, C08, C22)
pub type Bx = (Map<u64, Alias>, Map<int, Seq<ProcessItem>>);
pub open spec fn chan_push(open: Set<int>, m: Map<int, Seq<ProcessItem>>, c: int, x: ProcessItem) -> Map<int, Seq<ProcessItem>> { if open.contains(c) { mail_push(m, c, x) } else { m } }
pub open spec fn user_item<M>(m: M) -> ProcessItem { ProcessItem::UserLocalMessage(anybox(m)) }
/// the aliases and mailboxes after item x was sent to the local destination d
pub open spec fn deliver(names: Map<String, u64>, reg: Map<u64, ProcessRegistration>, open: Set<int>, b: Bx, d: Dest, x: ProcessItem) -> Bx {
    match d {
        Dest::Pid(p) => if reg.contains_key(pidid(p)) { (b.0, chan_push(open, b.1, reg[pidid(p)].sender.chan(), x)) } else { b },
        Dest::Named(n, _) => if names.contains_key(vstr(n@)) && reg.contains_key(names[vstr(n@)]) { (b.0, chan_push(open, b.1, reg[names[vstr(n@)]].sender.chan(), x)) } else { b },
        Dest::Alias(r) => if b.0.contains_key(refid(r)) {
                let a = b.0[refid(r)];
                if a.reply { (b.0.remove(refid(r)), chan_push(open, chan_push(open, b.1, a.sender.chan(), ProcessItem::AliasDeactivated(refid(r))), a.sender.chan(), x)) }
                else { (b.0, chan_push(open, b.1, a.sender.chan(), x)) }
            } else { b },
    }
}
pub open spec fn deliver_w(w: World, d: Dest, x: ProcessItem) -> Bx { deliver(w.PROCESS_NAMES@, w.PROCESS_REGISTRY@, w.open@, (w.ALIASES@, w.mail@), d, x) }
/// index of the first local destination among the first n, -1 if there is none
pub open spec fn first_local(s: Seq<Dest>, n: int) -> int decreases n {
    if n <= 0 { -1 } else { let p = first_local(s, n - 1); if p >= 0 { p } else if dest_local(s[n - 1]) { n - 1 } else { -1 } }
}
pub proof fn lm_first_local(s: Seq<Dest>, n: int) requires 0 <= n <= s.len()
    ensures -1 <= first_local(s, n) < n || (n == 0 && first_local(s, n) == -1), first_local(s, n) >= 0 ==> dest_local(s[first_local(s, n)]), first_local(s, n) < 0 ==> forall|i: int| 0 <= i < n ==> !dest_local(#[trigger] s[i]) decreases n
{ if n > 0 { lm_first_local(s, n - 1); } }
/// deliveries to the local destinations among the first n, except the first one
pub open spec fn deliver_rest(names: Map<String, u64>, reg: Map<u64, ProcessRegistration>, open: Set<int>, b: Bx, s: Seq<Dest>, n: int, x: ProcessItem) -> Bx decreases n {
    if n <= 0 { b } else { let p = deliver_rest(names, reg, open, b, s, n - 1, x); if dest_local(s[n - 1]) && first_local(s, n - 1) >= 0 { deliver(names, reg, open, p, s[n - 1], x) } else { p } }
}
pub open spec fn to_local_pid(d: Dest) -> bool { match d { Dest::Pid(p) => p is Local, _ => false } }
pub open spec fn target_of(d: Dest) -> SendTarget { match d { Dest::Pid(p) => SendTarget::Pid(nz(pidid(p))), Dest::Named(n, _) => SendTarget::Named(vstr(n@)), Dest::Alias(r) => SendTarget::Alias(nz(refid(r))) } }
/// the node id of a remote destination
pub open spec fn node_of(m: Map<Node, u64>, d: Dest) -> u64 { match d { Dest::Pid(p) => pidnode(p), Dest::Named(_, n) => m[n], Dest::Alias(r) => refnode(r) } }
/// the targets on one node, in order
pub open spec fn targets_of(m: Map<Node, u64>, s: Seq<Dest>, n: int, node: u64) -> Seq<SendTarget> decreases n {
    if n <= 0 { Seq::empty() } else if !dest_local(s[n - 1]) && node_of(m, s[n - 1]) == node { targets_of(m, s, n - 1, node).push(target_of(s[n - 1])) } else { targets_of(m, s, n - 1, node) }
}
pub open spec fn dests_known(m: Map<Node, u64>, s: Seq<Dest>, n: int) -> bool { forall|i: int| 0 <= i < n ==> (match #[trigger] s[i] { Dest::Named(_, nd) => nd is Local || m.contains_key(nd), _ => true }) }
pub open spec fn some_target(m: Map<Node, u64>, s: Seq<Dest>, n: int, node: u64) -> bool { exists|j: int| 0 <= j < n && !dest_local(#[trigger] s[j]) && node_of(m, s[j]) == node }
pub proof fn lm_targets_grow(m0: Map<Node, u64>, m1: Map<Node, u64>, s: Seq<Dest>, n: int, node: u64)
    requires 0 <= n <= s.len(), dests_known(m0, s, n), forall|k: Node| #[trigger] m0.contains_key(k) ==> m1.contains_key(k) && m1[k] == m0[k],
    ensures targets_of(m1, s, n, node) == targets_of(m0, s, n, node), dests_known(m1, s, n), some_target(m0, s, n, node) == some_target(m1, s, n, node) decreases n
{
    if n > 0 { lm_targets_grow(m0, m1, s, n - 1, node); }
    assert forall|j: int| 0 <= j < n && !dest_local(#[trigger] s[j]) implies node_of(m1, s[j]) == node_of(m0, s[j]) by { }
    if some_target(m0, s, n, node) { let j = choose|j: int| 0 <= j < n && !dest_local(#[trigger] s[j]) && node_of(m0, s[j]) == node; assert(node_of(m1, s[j]) == node); }
    if some_target(m1, s, n, node) { let j = choose|j: int| 0 <= j < n && !dest_local(#[trigger] s[j]) && node_of(m1, s[j]) == node; assert(node_of(m0, s[j]) == node); }
}
pub proof fn lm_no_target(m: Map<Node, u64>, s: Seq<Dest>, n: int, node: u64) requires 0 <= n <= s.len(), !some_target(m, s, n, node)
    ensures targets_of(m, s, n, node) =~= Seq::<SendTarget>::empty() decreases n
{
    if n > 0 {
        assert(!(!dest_local(s[n - 1]) && node_of(m, s[n - 1]) == node));
        if some_target(m, s, n - 1, node) { let j = choose|j: int| 0 <= j < n - 1 && !dest_local(#[trigger] s[j]) && node_of(m, s[j]) == node; assert(!dest_local(s[j])); }
        lm_no_target(m, s, n - 1, node);
    }
}
pub open spec fn is_send(f: Frame, t: Seq<SendTarget>, msg: Vec<u8>) -> bool { match f { Frame::Send(x) => x.targets@ =~= t && x.message == msg, _ => false } }
/// the frames of one send: one per node, listing exactly the destinations of that node in order
pub open spec fn send_frames(w0: Seq<(Frame, u64)>, w1: Seq<(Frame, u64)>, m: Map<Node, u64>, s: Seq<Dest>, msg: Vec<u8>) -> bool {
    &&& w0.len() <= w1.len() && (forall|j: int| 0 <= j < w0.len() ==> #[trigger] w1[j] == w0[j])
    &&& forall|j: int| w0.len() <= j < w1.len() ==> is_send((#[trigger] w1[j]).0, targets_of(m, s, s.len() as int, w1[j].1), msg) && some_target(m, s, s.len() as int, w1[j].1)
    &&& forall|i: int, j: int| w0.len() <= i < j < w1.len() ==> (#[trigger] w1[i]).1 != (#[trigger] w1[j]).1
    &&& forall|n: u64| #[trigger] some_target(m, s, s.len() as int, n) ==> exists|j: int| w0.len() <= j < w1.len() && (#[trigger] w1[j]).1 == n
}
pub open spec fn node_frame(w0: World, w1: World) -> World { World { NODE_MAP: w1.NODE_MAP, NODE_REGISTRATIONS: w1.NODE_REGISTRATIONS, NODE_ID: w1.NODE_ID, ..w0 } }
pub open spec fn map_grows<K, V>(m0: Map<K, V>, m1: Map<K, V>) -> bool { forall|k: K| #[trigger] m0.contains_key(k) ==> m1.contains_key(k) && m1[k] == m0[k] }
pub open spec fn tdest(t: SendTarget) -> Dest { match t { SendTarget::Pid(i) => Dest::Pid(Pid::Local(i)), SendTarget::Named(n) => Dest::Named(CowStr::Owned(n), Node::Local), SendTarget::Alias(a) => Dest::Alias(Reference::Local(a)) } }
pub open spec fn deliver_targets(names: Map<String, u64>, reg: Map<u64, ProcessRegistration>, open: Set<int>, b: Bx, s: Seq<SendTarget>, n: int, x: ProcessItem) -> Bx decreases n {
    if n <= 0 { b } else { deliver(names, reg, open, deliver_targets(names, reg, open, b, s, n - 1, x), tdest(s[n - 1]), x) }
}
/// aliases and mailboxes after a message was sent to the listed destinations
pub open spec fn deliver_end<M>(w: World, s: Seq<Dest>, message: M) -> Bx {
    let n = s.len() as int;
    let b = deliver_rest(w.PROCESS_NAMES@, w.PROCESS_REGISTRY@, w.open@, (w.ALIASES@, w.mail@), s, n, ProcessItem::UserRemoteMessage(ser_vec(message)));
    if first_local(s, n) >= 0 { deliver(w.PROCESS_NAMES@, w.PROCESS_REGISTRY@, w.open@, b, s[first_local(s, n)], user_item(message)) } else { b }
}
