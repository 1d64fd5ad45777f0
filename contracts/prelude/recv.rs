// Spec vocabulary: receiving (C09, C05)
//@wmethod receive
pub type Mons = Map<Reference, ProcessMonitor>;
pub enum Look<T> { Msg(Message<T>), Skip, Bad }
/// the item once it has been looked at by a receiver of T
pub open spec fn item_after<T>(m: Mons, x: ProcessItem) -> ProcessItem {
    match x {
        ProcessItem::UserRemoteMessage(v) => match de_val::<T>(v) { Some(t) => ProcessItem::UserLocalMessage(anybox(t)), None => x },
        ProcessItem::MonitorProcessDown(d, r, e) => if m.contains_key(r) { ProcessItem::SystemMessage(SystemMessage::ProcessDown(d, r, e)) } else { x },
        ProcessItem::MonitorNodeDown(n, r) => if m.contains_key(r) { ProcessItem::SystemMessage(SystemMessage::NodeDown(n, r)) } else { x },
        _ => x,
    }
}
/// what a receiver of T sees in it
pub open spec fn item_look<T>(m: Mons, x: ProcessItem) -> Look<T> {
    match x {
        ProcessItem::UserRemoteMessage(v) => match de_val::<T>(v) { Some(t) => Look::Msg(Message::User(t)), None => Look::Bad },
        ProcessItem::UserLocalMessage(a) => if is_any::<T>(a) { Look::Msg(Message::User(any_val::<T>(a))) } else { Look::Bad },
        ProcessItem::SystemMessage(s) => Look::Msg(Message::System(s)),
        ProcessItem::MonitorProcessDown(d, r, e) => if m.contains_key(r) { Look::Msg(Message::System(SystemMessage::ProcessDown(d, r, e))) } else { Look::Skip },
        ProcessItem::MonitorNodeDown(n, r) => if m.contains_key(r) { Look::Msg(Message::System(SystemMessage::NodeDown(n, r))) } else { Look::Skip },
        ProcessItem::MonitorProcessUpdate(_, _) => Look::Skip,
        ProcessItem::AliasDeactivated(_) => Look::Skip,
    }
}
pub open spec fn mon_after(m: Mons, x: ProcessItem) -> Mons {
    match x {
        ProcessItem::MonitorProcessDown(_, r, _) => m.remove(r),
        ProcessItem::MonitorNodeDown(_, r) => m.remove(r),
        ProcessItem::MonitorProcessUpdate(r, p) => if m.contains_key(r) { m.insert(r, ProcessMonitor::ForProcess(Some(p))) } else { m },
        _ => m,
    }
}
pub open spec fn ali_after(a: Set<u64>, x: ProcessItem) -> Set<u64> { match x { ProcessItem::AliasDeactivated(id) => a.remove(id), _ => a } }
pub open spec fn mref<T: 'static>(m: Message<T>) -> Message<&'static T> { match m { Message::User(u) => Message::User(&u), Message::System(s) => Message::System(s) } }
pub open spec fn item_final(x: ProcessItem) -> bool { x is UserLocalMessage || x is SystemMessage }

/// monitors and aliases after the first n items were looked at
pub open spec fn mons_n(m: Mons, q: Seq<ProcessItem>, n: int) -> Mons decreases n { if n <= 0 { m } else { mon_after(mons_n(m, q, n - 1), q[n - 1]) } }
pub open spec fn alis_n(a: Set<u64>, q: Seq<ProcessItem>, n: int) -> Set<u64> decreases n { if n <= 0 { a } else { ali_after(alis_n(a, q, n - 1), q[n - 1]) } }
pub open spec fn look_n<T>(m: Mons, q: Seq<ProcessItem>, i: int) -> Look<T> { item_look::<T>(mons_n(m, q, i), q[i]) }
pub open spec fn after_n<T>(m: Mons, q: Seq<ProcessItem>, i: int) -> ProcessItem { item_after::<T>(mons_n(m, q, i), q[i]) }
/// the items at i0.. that stay in the mailbox: everything but commands that were executed
pub open spec fn kept<T>(m: Mons, q: Seq<ProcessItem>, i0: int, n: int) -> Seq<ProcessItem> decreases n - i0 {
    if n <= i0 { Seq::empty() } else if look_n::<T>(m, q, n - 1) is Skip { kept::<T>(m, q, i0, n - 1) } else { kept::<T>(m, q, i0, n - 1).push(after_n::<T>(m, q, n - 1)) }
}
/// the filter refused every matching-typed message among the first n; with strict types none had another type
pub open spec fn refused<T: 'static, F: Fn(&Message<&T>) -> bool>(f: F, ignore: bool, m: Mons, q: Seq<ProcessItem>, n: int) -> bool {
    forall|j: int| 0 <= j < n ==> refused1::<T, F>(f, ignore, #[trigger] look_n::<T>(m, q, j))
}
pub open spec fn refused1<T: 'static, F: Fn(&Message<&T>) -> bool>(f: F, ignore: bool, l: Look<T>) -> bool {
    match l { Look::Msg(x) => call_ensures(f, (&mref(x),), false), Look::Skip => true, Look::Bad => ignore }
}
/// queue of the process: what was looked at before, then what it takes from its channel
pub open spec fn queue(w0: World, w1: World) -> Seq<ProcessItem> { w0.PROCESS.items@ + w1.taken@.skip(w0.taken@.len() as int) }
pub open spec fn total_filter<T: 'static, F: Fn(&Message<&T>) -> bool>(f: F) -> bool { forall|m: &Message<&'static T>| #[trigger] call_requires(f, (m,)) }
pub proof fn lm_mons_prefix(m: Mons, a: Set<u64>, q: Seq<ProcessItem>, p: Seq<ProcessItem>, n: int)
    requires 0 <= n <= q.len(), n <= p.len(), forall|i: int| 0 <= i < n ==> q[i] == p[i]
    ensures mons_n(m, q, n) == mons_n(m, p, n), alis_n(a, q, n) == alis_n(a, p, n) decreases n
{ if n > 0 { lm_mons_prefix(m, a, q, p, n - 1); } }
pub proof fn lm_queue_prefix<T>(m: Mons, a: Set<u64>, q: Seq<ProcessItem>, p: Seq<ProcessItem>, i0: int, n: int)
    requires 0 <= i0, n <= q.len(), n <= p.len(), forall|i: int| 0 <= i < n ==> q[i] == p[i]
    ensures kept::<T>(m, q, i0, n) == kept::<T>(m, p, i0, n), forall|i: int| 0 <= i < n ==> #[trigger] look_n::<T>(m, q, i) == look_n::<T>(m, p, i), forall|i: int| 0 <= i < n ==> #[trigger] after_n::<T>(m, q, i) == after_n::<T>(m, p, i)
    decreases n
{
    if n > 0 { lm_queue_prefix::<T>(m, a, q, p, i0, n - 1); lm_mons_prefix(m, a, q, p, n - 1); }
}
pub open spec fn sel_hit<T: 'static, F: Fn(&Message<&T>) -> bool>(f: F, l: Look<T>) -> bool { match l { Look::Msg(x) => call_ensures(f, (&mref(x),), true), _ => false } }
/// a receive took the item at position k of the queue: everything before it was refused and is still there
pub open spec fn sel_at<T: 'static, F: Fn(&Message<&T>) -> bool>(w0: World, w1: World, f: F, ignore: bool, r: Message<T>, k: int) -> bool {
    let q = queue(w0, w1); let i0 = w0.PROCESS.items@.len() as int; let m = w0.PROCESS.monitors@;
    &&& 0 <= k < q.len() && (k >= i0 ==> k == q.len() - 1) && (k < i0 ==> q.len() == i0)
    &&& look_n::<T>(m, q, k) == Look::Msg(r) && call_ensures(f, (&mref(r),), true) && refused::<T, F>(f, ignore, m, q, k)
    &&& w1.PROCESS.monitors@ =~= mons_n(m, q, k + 1) && w1.PROCESS.aliases@ =~= alis_n(w0.PROCESS.aliases@, q, k + 1)
    &&& w1.PROCESS.items@ =~= (if k < i0 { Seq::new(i0 as nat, |i: int| if i < k { after_n::<T>(m, q, i) } else { q[i] }).remove(k) } else { Seq::new(i0 as nat, |i: int| after_n::<T>(m, q, i)) + kept::<T>(m, q, i0, k) })
}
/// the message an item that was looked at turns into
pub open spec fn item_conv<T>(x: ProcessItem) -> Message<T> { match x { ProcessItem::UserLocalMessage(a) => Message::User(any_val::<T>(a)), ProcessItem::SystemMessage(s) => Message::System(s), _ => arbitrary() } }
/// which queued items a `remove` keeps: those its filter refuses (and, without strict types, those of other types)
pub open spec fn keep_ok<T: 'static, F: Fn(&Message<&T>) -> bool>(f: F, ignore: bool, m: Mons, q: Seq<ProcessItem>, i0: int, keep: Seq<bool>) -> bool {
    keep.len() <= q.len() && forall|j: int| 0 <= j < keep.len() ==> keep_ok1::<T, F>(f, ignore, look_n::<T>(m, q, j), j < i0, #[trigger] keep[j])
}
pub open spec fn keep_ok1<T: 'static, F: Fn(&Message<&T>) -> bool>(f: F, ignore: bool, l: Look<T>, old: bool, k: bool) -> bool {
    match l { Look::Msg(x) => call_ensures(f, (&mref(x),), !k), Look::Skip => k == old, Look::Bad => ignore && k }
}
pub open spec fn picked<T>(m: Mons, q: Seq<ProcessItem>, keep: Seq<bool>, n: int) -> Seq<ProcessItem> decreases n {
    if n <= 0 { Seq::empty() } else if keep[n - 1] { picked::<T>(m, q, keep, n - 1).push(after_n::<T>(m, q, n - 1)) } else { picked::<T>(m, q, keep, n - 1) }
}
pub proof fn lm_picked<T>(m: Mons, q: Seq<ProcessItem>, k0: Seq<bool>, k1: Seq<bool>, n: int)
    requires 0 <= n <= k0.len(), n <= k1.len(), forall|i: int| 0 <= i < n ==> k0[i] == k1[i] ensures picked::<T>(m, q, k0, n) == picked::<T>(m, q, k1, n) decreases n
{ if n > 0 { lm_picked::<T>(m, q, k0, k1, n - 1); } }

pub proof fn lm_look_conv<T>(m: Mons, x: ProcessItem) requires item_look::<T>(m, x) is Msg ensures item_look::<T>(m, x) == Look::Msg(item_conv::<T>(item_after::<T>(m, x)))
{ broadcast use ax_anybox; if let ProcessItem::UserRemoteMessage(v) = x { let t = de_val::<T>(v)->0; assert(is_any::<T>(anybox(t))); } }
/// what `remove` has left after looking at the first n queued items
pub open spec fn rem_state<T: 'static, F: Fn(&Message<&T>) -> bool>(f: F, ignore: bool, m: Mons, q: Seq<ProcessItem>, i0: int, n: int, items: Seq<ProcessItem>) -> bool {
    exists|keep: Seq<bool>| keep.len() == n && #[trigger] keep_ok::<T, F>(f, ignore, m, q, i0, keep) && items =~= picked::<T>(m, q, keep, n)
}
pub proof fn lm_rem_zero<T: 'static, F: Fn(&Message<&T>) -> bool>(f: F, ignore: bool, m: Mons, q: Seq<ProcessItem>, i0: int)
    ensures rem_state::<T, F>(f, ignore, m, q, i0, 0, Seq::empty())
{ assert(keep_ok::<T, F>(f, ignore, m, q, i0, Seq::empty())); }
pub proof fn lm_rem_step1<T: 'static, F: Fn(&Message<&T>) -> bool>(f: F, ignore: bool, m: Mons, q: Seq<ProcessItem>, i0: int, n: int, items: Seq<ProcessItem>, b: bool)
    requires 0 <= n < q.len(), rem_state::<T, F>(f, ignore, m, q, i0, n, items), keep_ok1::<T, F>(f, ignore, look_n::<T>(m, q, n), n < i0, b)
    ensures rem_state::<T, F>(f, ignore, m, q, i0, n + 1, if b { items.push(after_n::<T>(m, q, n)) } else { items })
{
    let k0 = choose|keep: Seq<bool>| keep.len() == n && #[trigger] keep_ok::<T, F>(f, ignore, m, q, i0, keep) && items =~= picked::<T>(m, q, keep, n);
    let k1 = k0.push(b);
    lm_picked::<T>(m, q, k0, k1, n);
    assert forall|j: int| 0 <= j < k1.len() implies keep_ok1::<T, F>(f, ignore, look_n::<T>(m, q, j), j < i0, #[trigger] k1[j]) by { if j < n { assert(k1[j] == k0[j]); } }
    assert(keep_ok::<T, F>(f, ignore, m, q, i0, k1));
}
pub proof fn lm_rem_step<T: 'static, F: Fn(&Message<&T>) -> bool>(f: F, ignore: bool, m: Mons, q: Seq<ProcessItem>, i0: int, n: int, items: Seq<ProcessItem>)
    requires 0 <= n < q.len(), rem_state::<T, F>(f, ignore, m, q, i0, n, items)
    ensures keep_ok1::<T, F>(f, ignore, look_n::<T>(m, q, n), n < i0, true) ==> rem_state::<T, F>(f, ignore, m, q, i0, n + 1, items.push(after_n::<T>(m, q, n))),
        keep_ok1::<T, F>(f, ignore, look_n::<T>(m, q, n), n < i0, false) ==> rem_state::<T, F>(f, ignore, m, q, i0, n + 1, items),
{
    if keep_ok1::<T, F>(f, ignore, look_n::<T>(m, q, n), n < i0, true) { lm_rem_step1::<T, F>(f, ignore, m, q, i0, n, items, true); }
    if keep_ok1::<T, F>(f, ignore, look_n::<T>(m, q, n), n < i0, false) { lm_rem_step1::<T, F>(f, ignore, m, q, i0, n, items, false); }
}
pub open spec fn refused0<T: 'static>(ignore: bool, l: Look<T>) -> bool { match l { Look::Msg(x) => false, Look::Skip => true, Look::Bad => ignore } }
/// `receive` took the item at position k: nothing before it was a message of this type
pub open spec fn recv_at<T: 'static>(w0: World, w1: World, ignore: bool, r: Message<T>, k: int) -> bool {
    let q = queue(w0, w1); let i0 = w0.PROCESS.items@.len() as int; let m = w0.PROCESS.monitors@;
    &&& 0 <= k < q.len() && (k >= i0 ==> k == q.len() - 1) && (k < i0 ==> q.len() == i0)
    &&& look_n::<T>(m, q, k) == Look::Msg(r) && forall|j: int| 0 <= j < k ==> refused0::<T>(ignore, #[trigger] look_n::<T>(m, q, j))
    &&& w1.PROCESS.monitors@ =~= mons_n(m, q, k + 1) && w1.PROCESS.aliases@ =~= alis_n(w0.PROCESS.aliases@, q, k + 1)
    &&& w1.PROCESS.items@ =~= (if k < i0 { Seq::new(i0 as nat, |i: int| if i < k { after_n::<T>(m, q, i) } else { q[i] }).remove(k) } else { Seq::new(i0 as nat, |i: int| after_n::<T>(m, q, i)) + kept::<T>(m, q, i0, k) })
}
pub proof fn lm_sel_recv<T: 'static, F: Fn(&Message<&T>) -> bool>(w0: World, w1: World, f: F, ignore: bool, r: Message<T>, k: int)
    ensures sel_at::<T, F>(w0, w1, f, ignore, r, k) && never_false::<T, F>(f) ==> recv_at::<T>(w0, w1, ignore, r, k)
{ }
pub open spec fn never_false<T: 'static, F: Fn(&Message<&T>) -> bool>(f: F) -> bool { forall|x: &Message<&'static T>| !#[trigger] call_ensures(f, (x,), false) }
