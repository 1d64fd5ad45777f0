// Tasks and semaphores (C25)
//@wfn vx_await spawn spawn_blocking tokio::task::spawn tokio::task::spawn_blocking
//@wmethod abort acquire acquire_many acquire_owned acquire_many_owned try_acquire try_acquire_owned
//@world aborted: Ghost<Set<int>>
//@world waited: Ghost<Seq<int>>
//@world spawned: Ghost<Map<int, VFut>>
//@world avail: Ghost<Map<int, int>>
//@assume unit task: awaiting a tokio JoinHandle gives the output of exactly that task, or an error when it panicked or was aborted; a tokio semaphore hands out permits only while it has them and takes them back when the permit is dropped
#[verifier::external_body]
pub struct VFut { x: u8 }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct JoinHandle<T> { t: core::marker::PhantomData<T> }
pub uninterp spec fn is_fut<F>(f: F) -> VFut;
#[verifier::external_body]
pub struct JoinError { x: u8 }
impl JoinError { pub uninterp spec fn text(&self) -> Seq<char>; #[verifier::external_body] pub fn vx_to_string(&self) -> (r: String) ensures r@ == self.text() { unimplemented!() } }
impl<T> JoinHandle<T> {
    pub uninterp spec fn hid(&self) -> int;
    /// how the task ends
    pub uninterp spec fn outcome(&self) -> Result<T, JoinError>;
    #[verifier::external_body]
    pub fn abort(&self, w: &mut World) ensures *final(w) == (World { aborted: final(w).aborted, ..*old(w) }), final(w).aborted@ == old(w).aborted@.insert(self.hid()) { unimplemented!() }
}
/// awaiting a task: others run meanwhile, only the record of what was waited for is kept
#[verifier::external_body]
pub fn vx_await<T>(h: JoinHandle<T>, w: &mut World) -> (r: Result<T, JoinError>) ensures *final(w) == (World { waited: final(w).waited, ..*old(w) }), final(w).waited@ == old(w).waited@.push(h.hid()), r == h.outcome() { unimplemented!() }
/// tokio::task::spawn and tokio::task::spawn_blocking
#[verifier::external_body]
pub fn spawn<F, T>(f: F, w: &mut World) -> (r: JoinHandle<T>)
    ensures *final(w) == (World { spawned: final(w).spawned, ..*old(w) }), !old(w).spawned@.contains_key(r.hid()), final(w).spawned@ == old(w).spawned@.insert(r.hid(), is_fut(f)) { unimplemented!() }
#[verifier::external_body]
pub fn spawn_blocking<F, T>(f: F, w: &mut World) -> (r: JoinHandle<T>)
    ensures *final(w) == (World { spawned: final(w).spawned, ..*old(w) }), !old(w).spawned@.contains_key(r.hid()), final(w).spawned@ == old(w).spawned@.insert(r.hid(), is_fut(f)) { unimplemented!() }
impl<T, const N: usize> VxIntoIter for [T; N] { type Item = T; open spec fn vseq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_into_iter(self) -> (r: VIter<T>) { unimplemented!() } }
pub open spec fn r_of<R>(e: TaskError) -> Result<R, TaskError> { Err(e) }
/// the result of task i, as the caller sees it
pub open spec fn task_result<R>(h: TaskHandle<R>, r: Result<R, TaskError>) -> bool { match h.handle.outcome() { Ok(v) => r == Ok::<R, TaskError>(v), Err(e) => r == Err::<R, TaskError>(TaskError(vstr(e.text()))) } }
pub open spec fn hids<R>(s: Seq<TaskHandle<R>>) -> Seq<int> { Seq::new(s.len(), |i: int| s[i].handle.hid()) }
// ---------- semaphores
#[verifier::external_body]
pub struct SemaphoreBase { x: u8 }
#[verifier::external_body]
pub struct SemaphoreBasePermit<'a> { x: &'a u8 }
#[verifier::external_body]
pub struct OwnedSemaphoreBasePermit { x: u8 }
#[verifier::external_body]
pub struct AcquireError { x: u8 }
impl core::fmt::Debug for AcquireError { #[verifier::external_body] fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
//@assume an Arc of a semaphore is the semaphore: its clones share it
/// k permits were taken (after waiting: others may have taken and returned permits meanwhile)
pub open spec fn took(o: World, n: World, s: int, k: int) -> bool { n == (World { avail: n.avail, ..o }) && n.avail@[s] >= 0 }
pub open spec fn tried(o: World, n: World, s: int, k: int, ok: bool) -> bool {
    n == (World { avail: n.avail, ..o }) && (ok <==> o.avail@[s] >= k) && n.avail@ == (if ok { o.avail@.insert(s, o.avail@[s] - k) } else { o.avail@ })
}
impl<'a> SemaphoreBasePermit<'a> { pub uninterp spec fn sid(&self) -> int; pub uninterp spec fn n(&self) -> int; }
impl OwnedSemaphoreBasePermit { pub uninterp spec fn sid(&self) -> int; pub uninterp spec fn n(&self) -> int; }
impl SemaphoreBase {
    pub uninterp spec fn sid(&self) -> int;
    pub uninterp spec fn total(&self) -> int;
    #[verifier::external_body]
    pub fn clone(&self) -> (r: SemaphoreBase) ensures r.sid() == self.sid(), r.total() == self.total() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_clone(&self) -> (r: SemaphoreBase) ensures r.sid() == self.sid(), r.total() == self.total() { unimplemented!() }
    #[verifier::external_body]
    pub fn acquire_owned(self, w: &mut World) -> (r: Result<OwnedSemaphoreBasePermit, AcquireError>) ensures took(*old(w), *final(w), self.sid(), 1), r is Ok, r->Ok_0.sid() == self.sid(), r->Ok_0.n() == 1 { unimplemented!() }
    #[verifier::external_body]
    pub fn acquire_many_owned(self, k: u32, w: &mut World) -> (r: Result<OwnedSemaphoreBasePermit, AcquireError>) ensures took(*old(w), *final(w), self.sid(), k as int), r is Ok, r->Ok_0.sid() == self.sid(), r->Ok_0.n() == k { unimplemented!() }
    #[verifier::external_body]
    pub fn try_acquire_owned(self, w: &mut World) -> (r: Result<OwnedSemaphoreBasePermit, AcquireError>) ensures tried(*old(w), *final(w), self.sid(), 1, r is Ok), r is Ok ==> r->Ok_0.sid() == self.sid() && r->Ok_0.n() == 1 { unimplemented!() }
    #[verifier::external_body]
    pub const fn const_new(n: usize) -> (r: SemaphoreBase) ensures r.total() == n { unimplemented!() }
    #[verifier::external_body]
    pub fn new(n: usize) -> (r: SemaphoreBase) ensures r.total() == n { unimplemented!() }
    #[verifier::external_body]
    pub fn acquire(&self, w: &mut World) -> (r: Result<SemaphoreBasePermit<'_>, AcquireError>) ensures took(*old(w), *final(w), self.sid(), 1), r is Ok, r->Ok_0.sid() == self.sid(), r->Ok_0.n() == 1 { unimplemented!() }
    #[verifier::external_body]
    pub fn acquire_many(&self, k: u32, w: &mut World) -> (r: Result<SemaphoreBasePermit<'_>, AcquireError>) ensures took(*old(w), *final(w), self.sid(), k as int), r is Ok, r->Ok_0.sid() == self.sid(), r->Ok_0.n() == k { unimplemented!() }
    #[verifier::external_body]
    pub fn try_acquire(&self, w: &mut World) -> (r: Result<SemaphoreBasePermit<'_>, AcquireError>) ensures tried(*old(w), *final(w), self.sid(), 1, r is Ok), r is Ok ==> r->Ok_0.sid() == self.sid() && r->Ok_0.n() == 1 { unimplemented!() }
}
// ---------- polling
//@trait Future
//@wmethod poll poll_unpin
//@assume unit task: a future is moved by its own poll only (pinning is memory safety); what a poll does, its panic included, is an arbitrary function of the polled future
pub enum Poll<T> { Ready(T), Pending }
#[verifier::external_body]
pub struct Context<'a> { x: &'a u8 }
/// what the next poll does: it is ready, pending, or panics with a payload
pub uninterp spec fn fut_step<F, T>(f: F) -> Result<Poll<T>, AnyBox>;
pub trait Future: Sized { type Output; fn poll(&mut self, cx: &mut Context<'_>, w: &mut World) -> (r: Result<Poll<Self::Output>, AnyBox>) ensures r == fut_step::<Self, Self::Output>(*old(self)), *final(w) == *old(w); }
/// std::panic::catch_unwind: the closure's panic as an error
pub fn vx_caught<T>(r: Result<T, AnyBox>) -> (o: Result<T, AnyBox>) ensures o == r { r }
impl core::fmt::Debug for AnyBox { #[verifier::external_body] fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
impl AnyBox { #[verifier::external_body] pub fn is<T>(&self) -> (r: bool) ensures r == is_any::<T>(*self) { unimplemented!() } }
pub broadcast axiom fn ax_payload(p: AnyBox) ensures !(#[trigger] is_any::<String>(p) && is_any::<&'static str>(p));
pub open spec fn panic_text(p: AnyBox) -> String {
    if is_any::<String>(p) { any_val::<String>(p) } else if is_any::<&'static str>(p) { vstr(any_val::<&'static str>(p)@) } else { vstr("Unknown error!"@) }
}
/// the outcome of one poll of a process' body: a panic is an error with its message
pub open spec fn caught<T>(s: Result<Poll<T>, AnyBox>) -> Poll<Result<T, String>> {
    match s { Ok(Poll::Ready(v)) => Poll::Ready(Ok(v)), Ok(Poll::Pending) => Poll::Pending, Err(p) => Poll::Ready(Err(panic_text(p))) }
}
/// what polling the handle of a task gives
pub uninterp spec fn handle_step<R>(h: JoinHandle<R>) -> Poll<Result<R, JoinError>>;
impl<T> JoinHandle<T> {
    #[verifier::external_body]
    pub fn poll_unpin(&mut self, cx: &mut Context<'_>, w: &mut World) -> (r: Poll<Result<T, JoinError>>) ensures r == handle_step::<T>(*old(self)), final(self).hid() == old(self).hid(), final(self).outcome() == old(self).outcome(), *final(w) == *old(w) { unimplemented!() }
}
/// the result of the task is passed on as it is, an error as its text
pub open spec fn polled<R>(h: JoinHandle<R>, r: Poll<Result<R, TaskError>>) -> bool {
    match handle_step::<R>(h) { Poll::Ready(Ok(v)) => r == Poll::<Result<R, TaskError>>::Ready(Ok(v)), Poll::Ready(Err(e)) => r == Poll::<Result<R, TaskError>>::Ready(Err(TaskError(vstr(e.text())))), Poll::Pending => r is Pending }
}
pub broadcast group vx_axioms { vx_base_axioms, ax_payload }
