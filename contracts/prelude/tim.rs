// Timers: what a sending timer and its creator do, as a trace (C24)
//@wfn tokio::spawn Process::sleep Process::send Instant::now Reference::new vx_await
//@wmethod abort send
//@world aborted: Ghost<Set<int>>
//@world spawned: Ghost<Map<int, VFuture>>
//@world clock: Ghost<int>
//@world tev: Ghost<Seq<Tev>>
//@world next: Ghost<u64>
//@world signalled: Ghost<Map<int, Map<u64, (Instant, JoinHandle<()>)>>>
//@assume unit timer: Process::sleep (tokio::time::sleep) returns only after the duration has passed; an aborted task runs no further than its next await; a oneshot receiver waits for the send; tokio::spawn returns a handle of its own; Process::send and Reference::new are recorded as events (their contracts: unit procs); Instant::now never goes backwards
pub enum Tev { Waited(int), Slept(Duration), Sent(Dests, AnyBox, Map<u64, (Instant, JoinHandle<()>)>) }
pub uninterp spec fn into_dests<T>(t: T) -> Dests;
pub broadcast axiom fn ax_into_dests(d: Dests) ensures #[trigger] into_dests(d) == d;
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct JoinHandle<T> { t: core::marker::PhantomData<T> }
impl<T> JoinHandle<T> {
    pub uninterp spec fn hid(&self) -> int;
    #[verifier::external_body]
    pub fn abort(&self, w: &mut World) ensures *final(w) == (World { aborted: final(w).aborted, ..*old(w) }), final(w).aborted@ == old(w).aborted@.insert(self.hid()) { unimplemented!() }
}
#[verifier::external_body]
pub struct VFuture { x: u8 }
pub uninterp spec fn timer_fut<M>(ch: int, d: Duration, r: Reference, dest: Dests, m: M) -> VFuture;
#[verifier::external_body]
pub fn vx_timer<M>(registered_rx: OneRx, duration: Duration, reference: Reference, dest: Dests, message: M) -> (f: VFuture) ensures f == timer_fut(registered_rx.ch(), duration, reference, dest, message) { unimplemented!() }
pub mod tokio {
    use vstd::prelude::*; use crate::vx::*; use crate::*;
    #[verifier::external_body]
    pub fn spawn(f: VFuture, w: &mut World) -> (r: JoinHandle<()>)
        ensures *final(w) == (World { spawned: final(w).spawned, ..*old(w) }), !old(w).spawned@.contains_key(r.hid()), final(w).spawned@ == old(w).spawned@.insert(r.hid(), f) { unimplemented!() }
}
#[verifier::external_body]
pub struct OneTx { x: u8 }
#[verifier::external_body]
pub struct OneRx { x: u8 }
impl OneTx {
    pub uninterp spec fn ch(&self) -> int;
    /// remembers which timers were registered at this moment
    #[verifier::external_body]
    pub fn send(self, t: (), w: &mut World) -> (r: Result<(), ()>) ensures *final(w) == (World { signalled: final(w).signalled, ..*old(w) }), final(w).signalled@ == old(w).signalled@.insert(self.ch(), old(w).PROCESS_TIMERS@) { unimplemented!() }
}
impl OneRx { pub uninterp spec fn ch(&self) -> int; }
pub mod oneshot {
    use vstd::prelude::*; use crate::vx::*;
    #[verifier::external_body]
    pub fn channel<T>() -> (r: (OneTx, OneRx)) ensures r.0.ch() == r.1.ch() { unimplemented!() }
}
/// others run meanwhile: the timers may change
#[verifier::external_body]
pub fn vx_await(rx: OneRx, w: &mut World) -> (r: Result<(), ()>) ensures final(w).tev@ == old(w).tev@.push(Tev::Waited(rx.ch())) { unimplemented!() }
pub struct Process { pub x: u8 }
impl Process {
    #[verifier::external_body]
    pub fn sleep(d: Duration, w: &mut World) ensures final(w).tev@ == old(w).tev@.push(Tev::Slept(d)), final(w).clock@ >= old(w).clock@ + d.ns() { unimplemented!() }
    #[verifier::external_body]
    pub fn send<D, M>(d: D, m: M, w: &mut World) ensures *final(w) == (World { tev: final(w).tev, ..*old(w) }), final(w).tev@ == old(w).tev@.push(Tev::Sent(into_dests(d), anybox(m), old(w).PROCESS_TIMERS@)) { unimplemented!() }
}
impl Reference {
    #[verifier::external_body]
    pub fn new(w: &mut World) -> (r: Reference) ensures r == Reference::Local(nz(old(w).next@)), old(w).next@ != 0, *final(w) == (World { next: final(w).next, ..*old(w) }), final(w).next@ == old(w).next@ + 1 { unimplemented!() }
}
impl PartialEqSpecImpl for Instant { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Instant) -> bool { self.t() == o.t() } }
impl PartialEq for Instant { #[verifier::external_body] fn eq(&self, o: &Instant) -> bool { unimplemented!() } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Instant {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Instant) -> Option<core::cmp::Ordering> { Some(if self.t() < o.t() { core::cmp::Ordering::Less } else if self.t() > o.t() { core::cmp::Ordering::Greater } else { core::cmp::Ordering::Equal }) }
}
impl PartialOrd for Instant { #[verifier::external_body] fn partial_cmp(&self, o: &Instant) -> Option<core::cmp::Ordering> { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<Duration> for Instant { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, d: Duration) -> bool { true } open spec fn add_spec(self, d: Duration) -> Instant { arbitrary() } }
impl core::ops::Add<Duration> for Instant { type Output = Instant; #[verifier::external_body] fn add(self, d: Duration) -> (r: Instant) ensures r.t() == self.t() + d.ns() { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<Instant> for Instant { open spec fn obeys_sub_spec() -> bool { false } open spec fn sub_req(self, d: Instant) -> bool { true } open spec fn sub_spec(self, d: Instant) -> Duration { arbitrary() } }
impl core::ops::Sub<Instant> for Instant { type Output = Duration; #[verifier::external_body] fn sub(self, o: Instant) -> (r: Duration) ensures r.ns() == (if self.t() >= o.t() { self.t() - o.t() } else { 0 }) { unimplemented!() } }
impl Instant {
    #[verifier::external_body]
    pub fn saturating_duration_since(&self, o: Instant) -> (r: Duration) ensures r.ns() == (if self.t() >= o.t() { self.t() - o.t() } else { 0 }) { unimplemented!() }
    #[verifier::external_body]
    pub fn duration_since(&self, o: Instant) -> (r: Duration) ensures r.ns() == (if self.t() >= o.t() { self.t() - o.t() } else { 0 }) { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_duration_since(&self, o: Instant) -> (r: Option<Duration>) ensures r is Some == (self.t() >= o.t()), r is Some ==> r->0.ns() == self.t() - o.t() { unimplemented!() }
    #[verifier::external_body]
    pub fn now(w: &mut World) -> (r: Instant) ensures *final(w) == (World { clock: final(w).clock, ..*old(w) }), r.t() == final(w).clock@, final(w).clock@ >= old(w).clock@ { unimplemented!() }
}
/// every registered timer was created earlier, so a new reference never names an old timer
pub open spec fn timers_wf(m: Map<u64, (Instant, JoinHandle<()>)>, next: u64) -> bool { forall|i: u64| #[trigger] m.contains_key(i) ==> i < next }
/// the deadline of a timer that was set with this duration at or before now
pub open spec fn set_with(e: (Instant, JoinHandle<()>), d: Duration, now: int) -> bool { e.0.t() <= now + d.ns() }
/// C24: what read_timer says is never more than the duration the timer was created with
pub proof fn lm_remaining(e: (Instant, JoinHandle<()>), d: Duration, created: int, now: int, left: nat)
    requires set_with(e, d, created), now >= created, left == (if e.0.t() <= now { 0int } else { e.0.t() - now })
    ensures left <= d.ns()
{ }
pub broadcast group vx_axioms { vx_base_axioms, ax_into_dests }
