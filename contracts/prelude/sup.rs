// Supervisor: models and vocabulary (C12-C16)
//@world trace: Ghost<Seq<Step>>
//@world clock: Ghost<int>
//@wfn shutdown vx_dyn_call Process::current Process::set_flags Supervisor::call Supervisor::cast Instant::now GenServer::start GenServer::start_link
//@hofn position any find retain
//@assume a child's start routine, GenServer::call/cast/start as seen from the supervisor and the shutdown procedure are recorded in an event trace (their own contracts: C10, C11, C16, unit gen); Instant::now never goes backwards; subtracting a duration from an Instant fails only when the result lies before every Instant that was ever taken
pub broadcast group vx_axioms { vx_base_axioms, ax_dur, lm_tab_remove, lm_tab_push, lm_tab_update, lm_tab_has, lm_tab_empty, lm_start_step, lm_start_zero, lm_start_len, lm_sibs_zero, lm_sibs_facts, lm_sibs_next, ax_vec_len, ax_instant, lm_recent, lm_recent_all, lm_one_ok, lm_one_fail, lm_gave_up, lm_update_same }
/// what the supervisor did, in order
pub enum Step {
    /// a start routine was run and returned this
    Start(DynFn, Result<Pid, ExitReason>),
    /// a child was shut down with this method and waited for
    Stop(Pid, Shutdown),
    /// a message to a process
    Cast(Pid, SupervisorMessage),
    /// a client's call and its result
    Call(Dest, SupervisorMessage, Option<Duration>, Result<SupervisorMessage, CallError>),
    Flags(ProcessFlags),
    /// a server was started (linked or not)
    Server(Supervisor, GenServerOptions, bool, Result<Pid, ExitReason>),
}
#[verifier::external_body]
pub struct DynFn { x: u8 }
#[verifier::external_body]
pub fn vx_dyn_call(f: &DynFn, a: (), w: &mut World) -> (r: Result<Pid, ExitReason>)
    ensures *final(w) == (World { trace: final(w).trace, ..*old(w) }), final(w).trace@ == old(w).trace@.push(Step::Start(*f, r)) { unimplemented!() }
#[verifier::external_body]
pub fn shutdown(pid: Pid, how: Shutdown, w: &mut World) -> (r: Result<(), ExitReason>)
    ensures *final(w) == (World { trace: final(w).trace, ..*old(w) }), final(w).trace@ == old(w).trace@.push(Step::Stop(pid, how)) { unimplemented!() }
pub uninterp spec fn vx_self() -> Pid;
pub struct Process { pub x: u8 }
impl Process {
    #[verifier::external_body]
    pub fn current(w: &mut World) -> (r: Pid) ensures r == vx_self(), *final(w) == *old(w) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_flags(f: ProcessFlags, w: &mut World) ensures *final(w) == (World { trace: final(w).trace, ..*old(w) }), final(w).trace@ == old(w).trace@.push(Step::Flags(f)) { unimplemented!() }
}
pub struct GenServer { pub x: u8 }
impl GenServer {
    #[verifier::external_body]
    pub fn start(s: Supervisor, o: GenServerOptions, w: &mut World) -> (r: Result<Pid, ExitReason>)
        ensures *final(w) == (World { trace: final(w).trace, ..*old(w) }), final(w).trace@ == old(w).trace@.push(Step::Server(s, o, false, r)) { unimplemented!() }
    #[verifier::external_body]
    pub fn start_link(s: Supervisor, o: GenServerOptions, w: &mut World) -> (r: Result<Pid, ExitReason>)
        ensures *final(w) == (World { trace: final(w).trace, ..*old(w) }), final(w).trace@ == old(w).trace@.push(Step::Server(s, o, true, r)) { unimplemented!() }
}
pub uninterp spec fn into_dest<T>(t: T) -> Dest;
impl Supervisor {
    #[verifier::external_body]
    pub fn cast(p: Pid, m: SupervisorMessage, w: &mut World)
        ensures *final(w) == (World { trace: final(w).trace, ..*old(w) }), final(w).trace@ == old(w).trace@.push(Step::Cast(p, m)) { unimplemented!() }
    #[verifier::external_body]
    pub fn call<T>(s: T, m: SupervisorMessage, t: Option<Duration>, w: &mut World) -> (r: Result<SupervisorMessage, CallError>)
        ensures *final(w) == (World { trace: final(w).trace, ..*old(w) }), final(w).trace@ == old(w).trace@.push(Step::Call(into_dest(s), m, t, r)) { unimplemented!() }
}
// ---------- iterator methods with a predicate
impl<T> VIter<T> {
    #[verifier::external_body]
    pub fn vx_position<F: Fn(T) -> bool>(self, f: F) -> (r: Option<usize>)
        requires self.pos() == 0, forall|i: int| 0 <= i < self.seq().len() ==> call_requires(f, (#[trigger] self.seq()[i],)),
        ensures match r { Some(k) => k < self.seq().len() && call_ensures(f, (self.seq()[k as int],), true) && forall|i: int| 0 <= i < k ==> call_ensures(f, (#[trigger] self.seq()[i],), false),
            None => forall|i: int| 0 <= i < self.seq().len() ==> call_ensures(f, (#[trigger] self.seq()[i],), false) } { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_any<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
        requires self.pos() == 0, forall|i: int| 0 <= i < self.seq().len() ==> call_requires(f, (#[trigger] self.seq()[i],)),
        ensures r ==> exists|i: int| 0 <= i < self.seq().len() && call_ensures(f, (#[trigger] self.seq()[i],), true), !r ==> forall|i: int| 0 <= i < self.seq().len() ==> call_ensures(f, (#[trigger] self.seq()[i],), false) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_find<F: Fn(&T) -> bool>(self, f: F) -> (r: Option<T>)
        requires self.pos() == 0, forall|i: int| 0 <= i < self.seq().len() ==> call_requires(f, (&#[trigger] self.seq()[i],)),
        ensures match r { Some(t) => exists|k: int| 0 <= k < self.seq().len() && t == #[trigger] self.seq()[k] && call_ensures(f, (&self.seq()[k],), true) && forall|i: int| 0 <= i < k ==> call_ensures(f, (&#[trigger] self.seq()[i],), false),
            None => forall|i: int| 0 <= i < self.seq().len() ==> call_ensures(f, (&#[trigger] self.seq()[i],), false) } { unimplemented!() }
}
/// the elements that satisfy p, in order
pub open spec fn keepf<T>(s: Seq<T>, p: spec_fn(T) -> bool) -> Seq<T> decreases s.len() { if s.len() == 0 { s } else if p(s[0]) { seq![s[0]] + keepf(s.skip(1), p) } else { keepf(s.skip(1), p) } }
pub trait VxRetain<T> {
    spec fn vrs(&self) -> Seq<T>;
    fn vx_retain<F: Fn(&T) -> bool>(&mut self, f: F)
        requires forall|i: int| 0 <= i < old(self).vrs().len() ==> call_requires(f, (&#[trigger] old(self).vrs()[i],)),
        ensures exists|keep: spec_fn(T) -> bool| #[trigger] keepf(old(self).vrs(), keep) == final(self).vrs() && forall|i: int| 0 <= i < old(self).vrs().len() ==> call_ensures(f, (&#[trigger] old(self).vrs()[i],), keep(old(self).vrs()[i]));
}
impl<T> VxRetain<T> for Vec<T> { open spec fn vrs(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_retain<F: Fn(&T) -> bool>(&mut self, f: F) { unimplemented!() } }
// ---------- time
impl PartialEqSpecImpl for Instant { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Instant) -> bool { self.t() == o.t() } }
impl PartialEq for Instant { #[verifier::external_body] fn eq(&self, o: &Instant) -> bool { unimplemented!() } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Instant {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Instant) -> Option<core::cmp::Ordering> { Some(if self.t() < o.t() { core::cmp::Ordering::Less } else if self.t() > o.t() { core::cmp::Ordering::Greater } else { core::cmp::Ordering::Equal }) }
}
impl PartialOrd for Instant { #[verifier::external_body] fn partial_cmp(&self, o: &Instant) -> Option<core::cmp::Ordering> { unimplemented!() } }
impl Instant {
    #[verifier::external_body]
    pub fn now(w: &mut World) -> (r: Instant) ensures *final(w) == (World { clock: final(w).clock, ..*old(w) }), r.t() == final(w).clock@, final(w).clock@ >= old(w).clock@ { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_sub(&self, d: Duration) -> (r: Option<Instant>) ensures r matches Some(x) ==> x.t() == self.t() - d.ns(), r is None ==> self.t() - d.ns() < 0 { unimplemented!() }
}
// ---------- the child table
pub open spec fn method_of(c: ChildSpec) -> Shutdown { match c.shutdown { Some(s) => s, None => if c.child_type is Worker { Shutdown::Duration(secs(5)) } else { Shutdown::Infinity } } }
pub uninterp spec fn dur(ns: nat) -> Duration;
pub open spec fn secs(s: nat) -> Duration { dur(s * 1_000_000_000) }
pub broadcast axiom fn ax_dur(d: Duration) ensures #[trigger] dur(d.ns()) == d;
pub open spec fn fresh_child(c: ChildSpec) -> SupervisedChild { SupervisedChild { spec: c, pid: None, restarting: false } }
pub open spec fn has_id(s: Seq<SupervisedChild>, id: String) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).spec.id == id }
/// ids are unique and the id set is exactly the ids of the children
pub open spec fn sup_wf(s: Supervisor) -> bool { tab_wf(s.children@, s.identifiers@) }
#[verifier::opaque]
pub open spec fn tab_wf(s: Seq<SupervisedChild>, ids: Set<String>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).spec.id != (#[trigger] s[j]).spec.id
    &&& forall|i: int| 0 <= i < s.len() ==> ids.contains((#[trigger] s[i]).spec.id)
    &&& forall|x: String| #[trigger] ids.contains(x) ==> has_id(s, x)
}
pub open spec fn same_config(a: Supervisor, b: Supervisor) -> bool { b == (Supervisor { children: b.children, identifiers: b.identifiers, ..a }) }
pub broadcast proof fn lm_tab_remove(s: Seq<SupervisedChild>, ids: Set<String>, k: int, x: String)
    requires tab_wf(s, ids), 0 <= k < s.len(), x == s[k].spec.id
    ensures #![trigger tab_wf(s.remove(k), ids.remove(x))] tab_wf(s.remove(k), ids.remove(x))
{
    reveal(tab_wf);
    let t = s.remove(k);
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] == (if i < k { s[i] } else { s[i + 1] }) by {}
    assert forall|y: String| #[trigger] ids.remove(x).contains(y) implies has_id(t, y) by {
        assert(ids.contains(y)); let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).spec.id == y;
        if i < k { assert(t[i].spec.id == y); } else { assert(t[i - 1].spec.id == y); }
    }
}
pub broadcast proof fn lm_tab_push(s: Seq<SupervisedChild>, ids: Set<String>, c: SupervisedChild, x: String)
    requires tab_wf(s, ids), !ids.contains(x), x == c.spec.id
    ensures #![trigger tab_wf(s.push(c), ids.insert(x))] tab_wf(s.push(c), ids.insert(x))
{
    reveal(tab_wf);
    let t = s.push(c);
    assert forall|y: String| #[trigger] ids.insert(x).contains(y) implies has_id(t, y) by {
        if y == x { assert(t[s.len() as int].spec.id == y); } else { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).spec.id == y; assert(t[i].spec.id == y); }
    }
}
/// only process ids and restart marks differ
pub open spec fn same_specs(s: Seq<SupervisedChild>, t: Seq<SupervisedChild>) -> bool { s.len() == t.len() && forall|i: int| #![trigger s[i]] #![trigger t[i]] 0 <= i < s.len() ==> t[i].spec == s[i].spec }
pub proof fn lm_tab_specs(s: Seq<SupervisedChild>, t: Seq<SupervisedChild>, ids: Set<String>)
    requires tab_wf(s, ids), same_specs(s, t) ensures tab_wf(t, ids)
{
    reveal(tab_wf);
    assert forall|y: String| #[trigger] ids.contains(y) implies has_id(t, y) by { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).spec.id == y; assert(t[i].spec.id == y); }
}
pub broadcast proof fn lm_tab_update(s: Seq<SupervisedChild>, ids: Set<String>, k: int, c: SupervisedChild)
    requires tab_wf(s, ids), 0 <= k < s.len(), c.spec == s[k].spec
    ensures #![trigger tab_wf(s.update(k, c), ids)] tab_wf(s.update(k, c), ids)
{ lm_tab_specs(s, s.update(k, c), ids); }
pub broadcast proof fn lm_tab_has(s: Seq<SupervisedChild>, ids: Set<String>, x: String)
    requires tab_wf(s, ids)
    ensures #![trigger tab_wf(s, ids), has_id(s, x)] #![trigger tab_wf(s, ids), ids.contains(x)] has_id(s, x) == ids.contains(x)
{ reveal(tab_wf); }
pub broadcast proof fn lm_tab_empty()
    ensures #[trigger] tab_wf(Seq::empty(), Set::empty())
{ reveal(tab_wf); }

// ---------- starting
pub open spec fn only_trace(w0: World, w1: World) -> bool { w1 == (World { trace: w1.trace, ..w0 }) }
pub open spec fn start_raw(r: Result<Option<Pid>, ExitReason>) -> Result<Pid, ExitReason> { match r { Ok(Some(p)) => Ok(p), Ok(None) => Err(ExitReason::Ignore), Err(e) => Err(e) } }
/// a start result counts as started (an ignored start has no process)
pub open spec fn start_ok(r: Result<Pid, ExitReason>) -> bool { match r { Ok(p) => true, Err(e) => e is Ignore } }
pub open spec fn start_pid(r: Result<Pid, ExitReason>) -> Option<Pid> { match r { Ok(p) => Some(p), Err(e) => None } }
pub open spec fn start_step(c: SupervisedChild, st: Step) -> bool { c.spec.start is Some && st is Start && st->Start_0 == c.spec.start->0 }
pub open spec fn with_pid(c: SupervisedChild, p: Option<Pid>) -> SupervisedChild { SupervisedChild { pid: p, restarting: false, ..c } }
/// after the children lo..lo+n were started, all successfully
#[verifier::opaque]
pub open spec fn starts_ok(t0: Seq<Step>, t1: Seq<Step>, s: Seq<SupervisedChild>, s1: Seq<SupervisedChild>, lo: int, n: int) -> bool {
    &&& t1.len() == t0.len() + n && t0 =~= t1.take(t0.len() as int)
    &&& forall|i: int| 0 <= i < n ==> start_step(s[lo + i], #[trigger] t1[t0.len() + i]) && start_ok(t1[t0.len() + i]->Start_1)
    &&& s1 =~= Seq::new(s.len(), |i: int| if lo <= i < lo + n { with_pid(s[i], start_pid(t1[t0.len() + i - lo]->Start_1)) } else { s[i] })
}
/// after the children lo..lo+n were started successfully and the next one failed with e
pub open spec fn starts_fail(t0: Seq<Step>, t1: Seq<Step>, s: Seq<SupervisedChild>, s1: Seq<SupervisedChild>, lo: int, n: int, e: ExitReason) -> bool {
    &&& n >= 0 && lo + n < s.len() && t1.len() == t0.len() + n + 1 && !(e is Ignore)
    &&& starts_ok(t0, t1.drop_last(), s, s1, lo, n)
    &&& s[lo + n].spec.start is Some && t1.last() == Step::Start(s[lo + n].spec.start->0, Err(e))
}

pub open spec fn same_all(a: Supervisor, b: Supervisor) -> bool { same_config(a, b) && b.children@ =~= a.children@ && b.identifiers == a.identifiers }
pub open spec fn failed_to_start() -> ExitReason { ExitReason::Custom(vstr("failed_to_start_child"@)) }
pub open spec fn kept_started(c: SupervisedChild) -> bool { !(c.spec.restart is Temporary && c.pid is None) }
pub open spec fn kept_stopped(c: SupervisedChild) -> bool { !(c.spec.restart is Temporary) }
/// supervisor start: every child was started in order; ignored temporary children are forgotten
pub open spec fn all_started(t0: Seq<Step>, t1: Seq<Step>, s: Seq<SupervisedChild>, s1: Seq<SupervisedChild>) -> bool {
    exists|m: Seq<SupervisedChild>| #[trigger] starts_ok(t0, t1, s, m, 0, s.len() as int) && s1 == keepf(m, |c: SupervisedChild| kept_started(c))
}
pub open spec fn some_failed(t0: Seq<Step>, t1: Seq<Step>, s: Seq<SupervisedChild>, s1: Seq<SupervisedChild>) -> bool {
    exists|k: int, e: ExitReason| #[trigger] starts_fail(t0, t1, s, s1, 0, k, e)
}
/// indices of the children that are not kept, ascending
pub open spec fn idx_up(s: Seq<SupervisedChild>, p: spec_fn(SupervisedChild) -> bool, n: int) -> Seq<usize> decreases n {
    if n <= 0 { Seq::empty() } else if p(s[n - 1]) { idx_up(s, p, n - 1) } else { idx_up(s, p, n - 1).push((n - 1) as usize) }
}
pub proof fn lm_idx_up(s: Seq<SupervisedChild>, t: Seq<SupervisedChild>, p: spec_fn(SupervisedChild) -> bool, n: int)
    requires forall|i: int| 0 <= i < n ==> s[i] == t[i] ensures idx_up(s, p, n) == idx_up(t, p, n) decreases n
{ if n > 0 { lm_idx_up(s, t, p, n - 1); } }
/// after removing the first n of these indices, one after the other
pub open spec fn drop_idx(s: Seq<SupervisedChild>, q: Seq<usize>, n: int) -> Seq<SupervisedChild> decreases n {
    if n <= 0 { s } else { drop_idx(s, q, n - 1).remove(q[n - 1] as int) }
}
/// the same indices, descending, from position lo on
pub open spec fn idx_from(s: Seq<SupervisedChild>, p: spec_fn(SupervisedChild) -> bool, lo: int) -> Seq<usize> decreases s.len() - lo {
    if lo >= s.len() { Seq::empty() } else if p(s[lo]) { idx_from(s, p, lo + 1) } else { idx_from(s, p, lo + 1).push(lo as usize) }
}
pub proof fn lm_idx(s: Seq<SupervisedChild>, p: spec_fn(SupervisedChild) -> bool, lo: int)
    requires 0 <= lo <= s.len() ensures idx_up(s, p, lo) + idx_from(s, p, lo).reverse() =~= idx_up(s, p, s.len() as int) decreases s.len() - lo
{
    if lo < s.len() {
        lm_idx(s, p, lo + 1);
        if !p(s[lo]) { assert(idx_from(s, p, lo).reverse() =~= seq![lo as usize] + idx_from(s, p, lo + 1).reverse()); }
    }
}
proof fn lm_drop_ext(s: Seq<SupervisedChild>, q: Seq<usize>, r: Seq<usize>, n: int)
    requires forall|i: int| 0 <= i < n ==> q[i] == r[i] ensures drop_idx(s, q, n) == drop_idx(s, r, n) decreases n
{ if n > 0 { lm_drop_ext(s, q, r, n - 1); } }
/// removing them one after the other leaves the children that are kept; every index is in range when its turn comes
#[verifier::rlimit(60)]
#[verifier::spinoff_prover]
pub proof fn lm_drop(s: Seq<SupervisedChild>, p: spec_fn(SupervisedChild) -> bool, lo: int)
    requires 0 <= lo <= s.len(), s.len() <= usize::MAX
    ensures ({ let q = idx_from(s, p, lo); drop_idx(s, q, q.len() as int) =~= s.take(lo) + keepf(s.skip(lo), p) }), idx_from(s, p, lo).len() <= s.len() - lo,
        forall|j: int| 0 <= j < idx_from(s, p, lo).len() ==> lo <= #[trigger] idx_from(s, p, lo)[j] < drop_idx(s, idx_from(s, p, lo), j).len(),
    decreases s.len() - lo
{
    let q = idx_from(s, p, lo);
    if lo >= s.len() { assert(s.skip(lo) =~= Seq::empty()); assert(s.take(lo) =~= s); } else {
        lm_drop(s, p, lo + 1);
        let q1 = idx_from(s, p, lo + 1);
        assert(s.skip(lo)[0] == s[lo]);
        assert(s.skip(lo).skip(1) =~= s.skip(lo + 1));
        assert(s.take(lo + 1) =~= s.take(lo).push(s[lo]));
        assert(s.take(lo + 1).len() == lo + 1);
        if !p(s[lo]) {
            lm_drop_ext(s, q, q1, q1.len() as int);
            assert forall|j: int| 0 <= j < q.len() implies lo <= #[trigger] q[j] < drop_idx(s, q, j).len() by { lm_drop_ext(s, q, q1, j); if j < q1.len() { assert(q[j] == q1[j]); } }
        }
    }
}

pub broadcast proof fn lm_start_step(t0: Seq<Step>, t1: Seq<Step>, s: Seq<SupervisedChild>, s1: Seq<SupervisedChild>, lo: int, n: int, st: Step)
    requires starts_ok(t0, t1, s, s1, lo, n), n >= 0, lo >= 0, lo + n < s.len(), start_step(s[lo + n], st)
    ensures #![trigger starts_ok(t0, t1, s, s1, lo, n), t1.push(st)]
        start_ok(st->Start_1) ==> starts_ok(t0, t1.push(st), s, s1.update(lo + n, with_pid(s[lo + n], start_pid(st->Start_1))), lo, n + 1),
        !start_ok(st->Start_1) ==> starts_fail(t0, t1.push(st), s, s1, lo, n, st->Start_1->Err_0),
{
    reveal(starts_ok);
    let t2 = t1.push(st);
    assert(t2.drop_last() =~= t1);
    assert(t2.take(t0.len() as int) =~= t0);
    if start_ok(st->Start_1) {
        assert forall|i: int| 0 <= i < n + 1 implies start_step(s[lo + i], #[trigger] t2[t0.len() + i]) && start_ok(t2[t0.len() + i]->Start_1) by { if i < n { assert(t2[t0.len() + i] == t1[t0.len() + i]); } }
    }
}

pub broadcast proof fn lm_start_zero(t: Seq<Step>, s: Seq<SupervisedChild>, lo: int)
    ensures #[trigger] starts_ok(t, t, s, s, lo, 0)
{ reveal(starts_ok); }
pub broadcast proof fn lm_start_len(t0: Seq<Step>, t1: Seq<Step>, s: Seq<SupervisedChild>, s1: Seq<SupervisedChild>, lo: int, n: int)
    requires #[trigger] starts_ok(t0, t1, s, s1, lo, n), n >= 0, lo >= 0, lo + n <= s.len()
    ensures t1.len() == t0.len() + n, s1.len() == s.len(), same_specs(s, s1), forall|i: int| lo + n <= i < s.len() ==> s1[i] == s[i]
{ reveal(starts_ok); }
// ---------- stopping
pub open spec fn stop_of(c: SupervisedChild) -> Seq<Step> { match c.pid { Some(p) => seq![Step::Stop(p, method_of(c.spec))], None => Seq::empty() } }
/// the running children are stopped, last one first
pub open spec fn stops_down(s: Seq<SupervisedChild>, lo: int) -> Seq<Step> decreases s.len() - lo { if lo >= s.len() { Seq::empty() } else { stops_down(s, lo + 1) + stop_of(s[lo]) } }
pub open spec fn no_pid(c: SupervisedChild) -> SupervisedChild { SupervisedChild { pid: None, ..c } }
pub open spec fn no_pids(s: Seq<SupervisedChild>) -> Seq<SupervisedChild> { Seq::new(s.len(), |i: int| no_pid(s[i])) }
pub open spec fn all_stopped(t0: Seq<Step>, t1: Seq<Step>, s: Seq<SupervisedChild>, s1: Seq<SupervisedChild>) -> bool {
    t1 == t0 + stops_down(s, 0) && s1 == keepf(no_pids(s), |c: SupervisedChild| kept_stopped(c))
}

// ---------- the child table interface
pub open spec fn started_new(s: Seq<SupervisedChild>, s1: Seq<SupervisedChild>, t: Seq<Step>, t1: Seq<Step>, spec: ChildSpec, r: Result<Option<Pid>, SupervisorError>) -> bool {
    &&& has_id(s, spec.id) ==> s1 =~= s && t1 == t && exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).spec.id == spec.id && r == Err::<Option<Pid>, SupervisorError>(if s[k].pid is Some { SupervisorError::AlreadyStarted } else { SupervisorError::AlreadyPresent })
    &&& !has_id(s, spec.id) ==> t1 == t.push(t1.last()) && start_step(fresh_child(spec), t1.last()) && if start_ok(t1.last()->Start_1) {
            r == Ok::<Option<Pid>, SupervisorError>(start_pid(t1.last()->Start_1))
            && s1 =~= (if spec.restart is Temporary && start_pid(t1.last()->Start_1) is None { s } else { s.push(with_pid(fresh_child(spec), start_pid(t1.last()->Start_1))) })
        } else { r == Err::<Option<Pid>, SupervisorError>(SupervisorError::StartError(t1.last()->Start_1->Err_0)) && s1 =~= s.push(fresh_child(spec)) }
}
pub open spec fn terminated_id(s: Seq<SupervisedChild>, s1: Seq<SupervisedChild>, t: Seq<Step>, t1: Seq<Step>, id: String, r: Result<(), SupervisorError>) -> bool {
    &&& !has_id(s, id) ==> r == Err::<(), SupervisorError>(SupervisorError::NotFound) && s1 =~= s && t1 == t
    &&& has_id(s, id) ==> r is Ok && exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).spec.id == id && t1 =~= t + stop_of(s[k]) && s1 =~= (if s[k].spec.restart is Temporary { s.remove(k) } else { s.update(k, with_pid(s[k], None)) })
}
pub open spec fn deleted_id(s: Seq<SupervisedChild>, s1: Seq<SupervisedChild>, id: String, r: Result<(), SupervisorError>) -> bool {
    &&& !has_id(s, id) ==> r == Err::<(), SupervisorError>(SupervisorError::NotFound) && s1 =~= s
    &&& has_id(s, id) ==> exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).spec.id == id
          && r == (if s[k].restarting { Err::<(), SupervisorError>(SupervisorError::Restarting) } else if s[k].pid is Some { Err::<(), SupervisorError>(SupervisorError::Running) } else { Ok::<(), SupervisorError>(()) })
          && s1 =~= (if r is Ok { s.remove(k) } else { s })
}
pub open spec fn restarted_id(s: Seq<SupervisedChild>, s1: Seq<SupervisedChild>, t: Seq<Step>, t1: Seq<Step>, id: String, r: Result<Option<Pid>, SupervisorError>) -> bool {
    &&& !has_id(s, id) ==> r == Err::<Option<Pid>, SupervisorError>(SupervisorError::NotFound) && s1 =~= s && t1 == t
    &&& has_id(s, id) ==> exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).spec.id == id && (
          if s[k].restarting { r == Err::<Option<Pid>, SupervisorError>(SupervisorError::Restarting) && s1 =~= s && t1 == t }
          else if s[k].pid is Some { r == Err::<Option<Pid>, SupervisorError>(SupervisorError::Running) && s1 =~= s && t1 == t }
          else { t1 == t.push(t1.last()) && start_step(s[k], t1.last()) && if start_ok(t1.last()->Start_1) {
                r == Ok::<Option<Pid>, SupervisorError>(start_pid(t1.last()->Start_1)) && s1 =~= s.update(k, with_pid(s[k], start_pid(t1.last()->Start_1)))
              } else { r == Err::<Option<Pid>, SupervisorError>(SupervisorError::StartError(t1.last()->Start_1->Err_0)) && s1 =~= s } })
}
pub open spec fn info_of(c: SupervisedChild, i: SupervisorChildInfo) -> bool { i.id == c.spec.id && i.child == c.pid && i.child_type == c.spec.child_type && i.restarting == c.restarting }
pub open spec fn infos_of(s: Seq<SupervisedChild>, r: Seq<SupervisorChildInfo>) -> bool { r.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> info_of(s[i], #[trigger] r[i]) }
pub open spec fn count_up(s: Seq<SupervisedChild>, p: spec_fn(SupervisedChild) -> bool, n: int) -> int decreases n { if n <= 0 { 0 } else { count_up(s, p, n - 1) + (if p(s[n - 1]) { 1int } else { 0 }) } }
pub open spec fn counts_are(s: Seq<SupervisedChild>, c: SupervisorCounts) -> bool {
    c.specs == s.len() && c.active == count_up(s, |c: SupervisedChild| c.pid is Some, s.len() as int) && c.supervisors == count_up(s, |c: SupervisedChild| c.spec.child_type is Supervisor, s.len() as int) && c.workers == count_up(s, |c: SupervisedChild| c.spec.child_type is Worker, s.len() as int)
}
// ---------- restart policy
pub open spec fn is_shutdown(e: ExitReason) -> bool { e matches ExitReason::Custom(s) && s@ == "shutdown"@ }
pub open spec fn shut() -> Result<(), ExitReason> { Err(ExitReason::Custom(vstr("shutdown"@))) }
pub open spec fn must_restart(c: SupervisedChild, e: ExitReason) -> bool { c.spec.restart is Permanent || (c.spec.restart is Transient && !(e is Normal || is_shutdown(e))) }
pub open spec fn no_significant(s: Seq<SupervisedChild>) -> bool { forall|i: int| 0 <= i < s.len() ==> !((#[trigger] s[i]).pid is Some && s[i].spec.significant) }
pub open spec fn auto_shut(cfg: Supervisor, c: SupervisedChild, left: Seq<SupervisedChild>) -> bool {
    c.spec.significant && match cfg.auto_shutdown { AutoShutdown::Never => false, AutoShutdown::AnySignificant => true, AutoShutdown::AllSignificant => no_significant(left) }
}
// ---------- restart intensity
/// the restarts that happened at time lo or later
#[verifier::opaque]
pub open spec fn recent(s: Seq<Instant>, lo: int) -> Seq<Instant> { keepf(s, |x: Instant| x.t() >= lo) }
pub open spec fn same_table(a: Supervisor, b: Supervisor) -> bool { b == (Supervisor { restarts: b.restarts, ..a }) }
pub open spec fn same_setup(a: Supervisor, b: Supervisor) -> bool { b == (Supervisor { children: b.children, identifiers: b.identifiers, restarts: b.restarts, ..a }) }
pub open spec fn only_clock(w0: World, w1: World) -> bool { w1 == (World { clock: w1.clock, ..w0 }) && w1.clock@ >= w0.clock@ }
pub open spec fn counted(a: Supervisor, b: Supervisor, now: int, over: bool) -> bool {
    &&& b.restarts@.len() > 0 && b.restarts@.last().t() == now
    &&& b.restarts@ =~= recent(a.restarts@, now - a.max_duration.ns()).push(b.restarts@.last())
    &&& over == (b.restarts@.len() > a.max_restarts)
}
/// the remembered restarts are exactly those of the whole history that are younger than the window at the last count
pub open spec fn remembers(h: Seq<Instant>, s: Supervisor, last: int) -> bool { s.restarts@ == recent(h, last - s.max_duration.ns()) }
pub proof fn lm_keep_keep<T>(s: Seq<T>, p: spec_fn(T) -> bool, q: spec_fn(T) -> bool)
    requires forall|x: T| #[trigger] q(x) ==> p(x) ensures keepf(keepf(s, p), q) == keepf(s, q) decreases s.len()
{
    if s.len() > 0 {
        lm_keep_keep(s.skip(1), p, q);
        if p(s[0]) { let k = keepf(s, p); assert(k[0] == s[0]); assert(k.skip(1) =~= keepf(s.skip(1), p)); }
    }
}
pub proof fn lm_keep_push<T>(s: Seq<T>, x: T, p: spec_fn(T) -> bool)
    requires p(x) ensures keepf(s.push(x), p) =~= keepf(s, p).push(x) decreases s.len()
{
    let t = s.push(x);
    if s.len() == 0 { assert(t[0] == x); assert(t.skip(1) =~= Seq::empty()); assert(keepf(t.skip(1), p) =~= Seq::empty()); assert(keepf(s, p) =~= Seq::empty()); } else { lm_keep_push(s.skip(1), x, p); assert(t.skip(1) =~= s.skip(1).push(x)); assert(t[0] == s[0]); }
}
/// C13 over whole histories: counting one more restart at time now keeps exactly the restarts of the window, and
/// the supervisor gives up exactly when there are more than max_restarts of them
pub proof fn lm_window(h: Seq<Instant>, a: Supervisor, b: Supervisor, last: int, now: int, over: bool)
    requires remembers(h, a, last), last <= now, counted(a, b, now, over), b.max_duration == a.max_duration
    ensures remembers(h.push(b.restarts@.last()), b, now), over == (recent(h.push(b.restarts@.last()), now - a.max_duration.ns()).len() > a.max_restarts)
{
    reveal(recent);
    let x = b.restarts@.last();
    let d = a.max_duration.ns();
    lm_keep_keep(h, |i: Instant| i.t() >= last - d, |i: Instant| i.t() >= now - d);
    lm_keep_push(h, x, |i: Instant| i.t() >= now - d);
}
// ---------- restart strategies
/// what is left of child i after the siblings of idx were stopped: temporary ones are forgotten
pub open spec fn sib_one(c: SupervisedChild, me: bool) -> Seq<SupervisedChild> { if me { seq![c] } else if c.spec.restart is Temporary { Seq::empty() } else { seq![with_pid(c, None)] } }
pub open spec fn sib_kept(s: Seq<SupervisedChild>, lo: int, k: int, idx: int) -> Seq<SupervisedChild> decreases k { if k <= lo || k <= 0 { Seq::empty() } else { sib_kept(s, lo, k - 1, idx) + sib_one(s[k - 1], k - 1 == idx) } }
pub open spec fn sib_stops(s: Seq<SupervisedChild>, lo: int, k: int, idx: int) -> Seq<Step> decreases k { if k <= lo || k <= 0 { Seq::empty() } else { sib_stops(s, lo, k - 1, idx) + (if k - 1 == idx { Seq::empty() } else { stop_of(s[k - 1]) }) } }
pub open spec fn sib_left(s: Seq<SupervisedChild>, lo: int, idx: int) -> Seq<SupervisedChild> { s.take(lo) + sib_kept(s, lo, s.len() as int, idx) }
pub open spec fn lo_of(cfg: Supervisor, idx: int) -> int { if cfg.strategy is OneForAll { 0 } else { idx } }
/// the children after the siblings that have to go were stopped
pub open spec fn left_of(cfg: Supervisor, s: Seq<SupervisedChild>, idx: int) -> Seq<SupervisedChild> {
    let q = s.update(idx, no_pid(s[idx]));
    if cfg.strategy is OneForOne { q } else { sib_left(q, lo_of(cfg, idx), idx) }
}
pub open spec fn stops_of(cfg: Supervisor, s: Seq<SupervisedChild>, idx: int) -> Seq<Step> {
    if cfg.strategy is OneForOne { Seq::empty() } else { sib_stops(s.update(idx, no_pid(s[idx])), lo_of(cfg, idx), s.len() as int, idx) }
}
pub open spec fn hi_of(cfg: Supervisor, m: Seq<SupervisedChild>, idx: int) -> int { if cfg.strategy is OneForOne { idx + 1 } else { m.len() as int } }
/// the siblings were stopped, then the children lo..hi of what is left were started in order; if one failed it is
/// marked and the supervisor asks itself to try again
pub open spec fn restarted(cfg: Supervisor, s: Seq<SupervisedChild>, s1: Seq<SupervisedChild>, t: Seq<Step>, t1: Seq<Step>, idx: int) -> bool {
    let m = left_of(cfg, s, idx); let tm = if cfg.strategy is OneForOne { t } else { t + stops_of(cfg, s, idx) }; let lo = lo_of(cfg, idx); let hi = hi_of(cfg, m, idx);
    starts_ok(tm, t1, m, s1, lo, hi - lo) || start_gave_up(tm, t1, m, s1, lo, hi)
}
#[verifier::opaque]
pub open spec fn start_gave_up(tm: Seq<Step>, t1: Seq<Step>, m: Seq<SupervisedChild>, s1: Seq<SupervisedChild>, lo: int, hi: int) -> bool {
    exists|k: int, e: ExitReason, s2: Seq<SupervisedChild>, t2: Seq<Step>| #[trigger] starts_fail(tm, t2, m, s2, lo, k, e) && lo + k < hi
      && s1 =~= s2.update(lo + k, marked(s2[lo + k])) && t1 =~= t2.push(Step::Cast(vx_self(), SupervisorMessage::TryAgainRestartId(m[lo + k].spec.id)))
}
pub open spec fn marked(c: SupervisedChild) -> SupervisedChild { SupervisedChild { restarting: true, ..c } }
/// a restart attempt: it counts towards the intensity, and is only made within it
pub open spec fn attempted(a: Supervisor, b: Supervisor, w0: World, w1: World, idx: int, r: Result<(), ExitReason>) -> bool {
    &&& counted(a, b, w1.clock@, !(r is Ok)) && w1 == (World { clock: w1.clock, trace: w1.trace, ..w0 }) && w1.clock@ >= w0.clock@
    &&& if r is Ok { restarted(a, a.children@, b.children@, w0.trace@, w1.trace@, idx) } else { r == shut() && b.children@ =~= a.children@ && w1.trace@ == w0.trace@ }
}
pub open spec fn tried_again(a: Supervisor, b: Supervisor, w0: World, w1: World, idx: int, r: Result<(), ExitReason>) -> bool {
    if a.children@[idx].restarting { attempted(a, b, w0, w1, idx, r) } else { r == Ok::<(), ExitReason>(()) && w1 == w0 && b.children@ =~= a.children@ && b.restarts@ =~= a.restarts@ }
}
pub open spec fn has_pid(s: Seq<SupervisedChild>, p: Pid) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).pid == Some(p) }
pub open spec fn is_first(s: Seq<SupervisedChild>, p: Pid, k: int) -> bool { 0 <= k < s.len() && s[k].pid == Some(p) && forall|i: int| 0 <= i < k ==> (#[trigger] s[i]).pid != Some(p) }
pub open spec fn exited(a: Supervisor, b: Supervisor, w0: World, w1: World, p: Pid, e: ExitReason, r: Result<(), ExitReason>) -> bool {
    &&& !has_pid(a.children@, p) ==> r == Ok::<(), ExitReason>(()) && w1 == w0 && b.children@ =~= a.children@ && b.restarts@ =~= a.restarts@
    &&& has_pid(a.children@, p) ==> exists|k: int| #[trigger] is_first(a.children@, p, k) && exited_at(a, b, w0, w1, k, e, r)
}
pub open spec fn exited_at(a: Supervisor, b: Supervisor, w0: World, w1: World, k: int, e: ExitReason, r: Result<(), ExitReason>) -> bool {
    if must_restart(a.children@[k], e) { attempted(a, b, w0, w1, k, r) }
    else { w1 == w0 && b.restarts@ =~= a.restarts@ && b.children@ =~= a.children@.remove(k) && r == (if auto_shut(a, a.children@[k], a.children@.remove(k)) { shut() } else { Ok::<(), ExitReason>(()) }) }
}
/// while the siblings of idx are being stopped: the originals below k are done, tindex and index are their positions now
#[verifier::opaque]
pub open spec fn sibs_at(s: Seq<SupervisedChild>, c: Seq<SupervisedChild>, lo: int, k: int, idx: int, t: int, x: int) -> bool {
    &&& 0 <= lo <= k <= s.len() && lo <= idx < s.len()
    &&& c =~= s.take(lo) + sib_kept(s, lo, k, idx) + s.skip(k)
    &&& t == lo + sib_kept(s, lo, k, idx).len()
    &&& (k <= idx ==> x - t == idx - k) && (k > idx ==> lo <= x < t)
}
pub broadcast proof fn lm_sibs_zero(s: Seq<SupervisedChild>, lo: int, idx: int)
    requires 0 <= lo <= idx < s.len() ensures #[trigger] sibs_at(s, s, lo, lo, idx, lo, idx)
{ reveal(sibs_at); assert(s =~= s.take(lo) + Seq::empty() + s.skip(lo)); }
pub broadcast proof fn lm_sibs_facts(s: Seq<SupervisedChild>, c: Seq<SupervisedChild>, lo: int, k: int, idx: int, t: int, x: int)
    requires #[trigger] sibs_at(s, c, lo, k, idx, t, x)
    ensures c.len() == t + s.len() - k, t >= lo, 0 <= lo <= k <= s.len(), k == s.len() ==> c == sib_left(s, lo, idx), k < s.len() ==> c[t] == s[k] && (x == t <==> k == idx), lo <= x < c.len()
{
    reveal(sibs_at);
    if k == s.len() { assert(c =~= sib_left(s, lo, idx)); } else { assert(s.skip(k)[0] == s[k]); }
}
pub broadcast proof fn lm_sibs_next(s: Seq<SupervisedChild>, c: Seq<SupervisedChild>, lo: int, k: int, idx: int, t: int, x: int, c1: Seq<SupervisedChild>, k1: int, t1: int, x1: int)
    requires sibs_at(s, c, lo, k, idx, t, x), k < s.len(), k1 == k + 1,
        if k == idx { c1 == c && t1 == t + 1 && x1 == x }
        else if c[t].spec.restart is Temporary { c1 =~= c.update(t, with_pid(c[t], None)).remove(t) && t1 == t && x1 == (if t < x { x - 1 } else { x }) }
        else { c1 =~= c.update(t, with_pid(c[t], None)) && t1 == t + 1 && x1 == x }
    ensures #![trigger sibs_at(s, c, lo, k, idx, t, x), sibs_at(s, c1, lo, k1, idx, t1, x1)] sibs_at(s, c1, lo, k1, idx, t1, x1)
{
    reveal(sibs_at);
    let a = s.take(lo) + sib_kept(s, lo, k, idx);
    assert(c =~= a + s.skip(k));
    assert(a.len() == t);
    assert(c[t] == s.skip(k)[0]);
    assert(s.skip(k) =~= seq![s[k]] + s.skip(k + 1));
    let one = sib_one(s[k], k == idx);
    assert(sib_kept(s, lo, k + 1, idx) == sib_kept(s, lo, k, idx) + one);
    assert(s.take(lo) + sib_kept(s, lo, k + 1, idx) =~= a + one);
    assert(c1 =~= a + one + s.skip(k + 1));
}
// ---------- assembling the cases
pub broadcast axiom fn ax_vec_len<T>(v: Vec<T>) ensures #[trigger] v@.len() <= usize::MAX;
pub broadcast axiom fn ax_instant(i: Instant) ensures #[trigger] i.t() >= 0;
pub broadcast proof fn lm_recent(s: Seq<Instant>, lo: int, p: spec_fn(Instant) -> bool)
    requires forall|i: int| 0 <= i < s.len() ==> p(#[trigger] s[i]) == (s[i].t() >= lo)
    ensures #![trigger keepf(s, p), recent(s, lo)] keepf(s, p) == recent(s, lo) decreases s.len()
{
    reveal(recent);
    if s.len() > 0 { assert(p(s[0]) == (s[0].t() >= lo)); assert forall|i: int| 0 <= i < s.skip(1).len() implies p(#[trigger] s.skip(1)[i]) == (s.skip(1)[i].t() >= lo) by { assert(s.skip(1)[i] == s[i + 1]); } lm_recent(s.skip(1), lo, p); }
}
pub broadcast proof fn lm_recent_all(s: Seq<Instant>, lo: int)
    requires lo <= 0 ensures #[trigger] recent(s, lo) == s decreases s.len()
{
    reveal(recent); broadcast use ax_instant;
    if s.len() > 0 { lm_recent_all(s.skip(1), lo); assert(s =~= seq![s[0]] + s.skip(1)); }
}
pub broadcast proof fn lm_one_ok(t0: Seq<Step>, t1: Seq<Step>, s: Seq<SupervisedChild>, s1: Seq<SupervisedChild>, lo: int, n: int, st: Step)
    requires n == 1, 0 <= lo < s.len(), t1 == t0.push(st), start_step(s[lo], st), start_ok(st->Start_1), s1 =~= s.update(lo, with_pid(s[lo], start_pid(st->Start_1)))
    ensures #![trigger starts_ok(t0, t1, s, s1, lo, n), t0.push(st)] starts_ok(t0, t1, s, s1, lo, n)
{ lm_start_zero(t0, s, lo); lm_start_step(t0, t0, s, s, lo, 0, st); }
pub broadcast proof fn lm_one_fail(t0: Seq<Step>, t1: Seq<Step>, s: Seq<SupervisedChild>, s1: Seq<SupervisedChild>, lo: int, hi: int, st: Step)
    requires hi == lo + 1, 0 <= lo < s.len(), start_step(s[lo], st), !start_ok(st->Start_1), s1 =~= s.update(lo, marked(s[lo])), t1 =~= t0.push(st).push(Step::Cast(vx_self(), SupervisorMessage::TryAgainRestartId(s[lo].spec.id)))
    ensures #![trigger start_gave_up(t0, t1, s, s1, lo, hi), t0.push(st)] start_gave_up(t0, t1, s, s1, lo, hi)
{ lm_start_zero(t0, s, lo); lm_start_step(t0, t0, s, s, lo, 0, st); reveal(start_gave_up); assert(starts_fail(t0, t0.push(st), s, s, lo, 0, st->Start_1->Err_0)); }
pub broadcast proof fn lm_gave_up(t0: Seq<Step>, t1: Seq<Step>, s: Seq<SupervisedChild>, s1: Seq<SupervisedChild>, lo: int, hi: int, t2: Seq<Step>, s2: Seq<SupervisedChild>, k: int, e: ExitReason)
    requires starts_fail(t0, t2, s, s2, lo, k, e), lo + k < hi, s1 =~= s2.update(lo + k, marked(s2[lo + k])), t1 =~= t2.push(Step::Cast(vx_self(), SupervisorMessage::TryAgainRestartId(s[lo + k].spec.id)))
    ensures #![trigger start_gave_up(t0, t1, s, s1, lo, hi), starts_fail(t0, t2, s, s2, lo, k, e)] start_gave_up(t0, t1, s, s1, lo, hi)
{ reveal(start_gave_up); }
pub broadcast proof fn lm_update_same<T>(s: Seq<T>, i: int, x: T)
    requires 0 <= i < s.len(), s[i] == x ensures #[trigger] s.update(i, x) == s
{ assert(s.update(i, x) =~= s); }
pub open spec fn idle(a: Supervisor, b: Supervisor, w0: World, w1: World, r: Result<(), ExitReason>) -> bool { r == Ok::<(), ExitReason>(()) && w1 == w0 && b.children@ =~= a.children@ && b.restarts@ =~= a.restarts@ }
/// the reply to a client's request, and what it changed
pub open spec fn answered(s: Seq<SupervisedChild>, s1: Seq<SupervisedChild>, t: Seq<Step>, t1: Seq<Step>, m: SupervisorMessage, r: Result<Option<SupervisorMessage>, ExitReason>) -> bool {
    r matches Ok(Some(reply)) && match m {
        SupervisorMessage::CountChildren => s1 =~= s && t1 == t && reply is CountChildrenSuccess && counts_are(s, reply->CountChildrenSuccess_0),
        SupervisorMessage::WhichChildren => s1 =~= s && t1 == t && reply is WhichChildrenSuccess && infos_of(s, reply->WhichChildrenSuccess_0@),
        SupervisorMessage::StartChild(l) => (reply matches SupervisorMessage::StartChildSuccess(p) && started_new(s, s1, t, t1, l.0, Ok(p))) || (reply matches SupervisorMessage::StartChildError(e) && started_new(s, s1, t, t1, l.0, Err(e))),
        SupervisorMessage::TerminateChild(id) => (reply is TerminateChildSuccess && terminated_id(s, s1, t, t1, id, Ok(()))) || (reply matches SupervisorMessage::TerminateChildError(e) && terminated_id(s, s1, t, t1, id, Err(e))),
        SupervisorMessage::RestartChild(id) => (reply matches SupervisorMessage::RestartChildSuccess(p) && restarted_id(s, s1, t, t1, id, Ok(p))) || (reply matches SupervisorMessage::RestartChildError(e) && restarted_id(s, s1, t, t1, id, Err(e))),
        SupervisorMessage::DeleteChild(id) => t1 == t && ((reply is DeleteChildSuccess && deleted_id(s, s1, id, Ok(()))) || (reply matches SupervisorMessage::DeleteChildError(e) && deleted_id(s, s1, id, Err(e)))),
        _ => false,
    }
}
/// the one request that was made, without a timeout, and its result
pub open spec fn asked(w0: World, w1: World, d: Dest, m: SupervisorMessage) -> Result<SupervisorMessage, CallError> {
    if w1.trace@ == w0.trace@.push(Step::Call(d, m, None, w1.trace@.last()->Call_3)) { w1.trace@.last()->Call_3 } else { Ok(SupervisorMessage::CountChildren) }
}
