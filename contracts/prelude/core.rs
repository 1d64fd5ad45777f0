// Models of the library types the extracted code uses. Everything `external_body` here is an assumption
// (listed in DESIGN.md, "Assumed library contracts").
//@wmethod send abort recv_async drain
//@wfn tokio::spawn flume::unbounded
//@world mail: Ghost<Map<int, Seq<ProcessItem>>>
//@world open: Ghost<Set<int>>
//@world aborted: Ghost<Set<int>>
//@world wire: Ghost<Seq<(Frame, u64)>>
//@world fresh: Ghost<Set<int>>
//@world taken: Ghost<Seq<ProcessItem>>

// ---------- channels: flume::Sender / Receiver of ProcessItem
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Sender<T> { t: core::marker::PhantomData<T> }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Receiver<T> { t: core::marker::PhantomData<T> }
pub struct SendError { pub x: u8 }
impl core::fmt::Debug for SendError { #[verifier::external_body] fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
impl<T> Sender<T> { pub uninterp spec fn chan(&self) -> int; }
impl<T> Receiver<T> { pub uninterp spec fn chan(&self) -> int; }
impl<T> Clone for Sender<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub open spec fn mail_push(m: Map<int, Seq<ProcessItem>>, c: int, x: ProcessItem) -> Map<int, Seq<ProcessItem>> { m.insert(c, m[c].push(x)) }
impl Sender<ProcessItem> {
    #[verifier::external_body]
    pub fn send(&self, x: ProcessItem, w: &mut World) -> (r: Result<(), SendError>)
        ensures *final(w) == (World { mail: final(w).mail, ..*old(w) }),
            final(w).mail@ == (if old(w).open@.contains(self.chan()) { mail_push(old(w).mail@, self.chan(), x) } else { old(w).mail@ }),
            r is Ok <==> old(w).open@.contains(self.chan())
    { unimplemented!() }
}
impl<T> Sender<T> {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body]
    pub fn same_channel(&self, o: &Sender<T>) -> (r: bool) ensures r == (self.chan() == o.chan()) { unimplemented!() }
}

impl Receiver<ProcessItem> {
    /// other processes run while this one waits: only the own process' state is known to be unchanged; what is already queued is taken first
    #[verifier::external_body]
    pub fn recv_async(&self, w: &mut World) -> (r: Result<ProcessItem, SendError>)
        ensures final(w).PROCESS == old(w).PROCESS, r matches Ok(x) ==> final(w).taken@ == old(w).taken@.push(x) && (old(w).mail@[self.chan()].len() > 0 ==> x == old(w).mail@[self.chan()][0])
    { unimplemented!() }
    #[verifier::external_body]
    pub fn drain(&self, w: &mut World) -> (r: VIter<ProcessItem>)
        ensures *final(w) == (World { mail: final(w).mail, taken: final(w).taken, ..*old(w) }), r.pos() == 0, r.seq() == old(w).mail@[self.chan()],
            final(w).mail@ == old(w).mail@.insert(self.chan(), Seq::empty()), final(w).taken@ == old(w).taken@ + r.seq()
    { unimplemented!() }
}
impl<T> Clone for Receiver<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
// ---------- JoinHandle
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct JoinHandle<T> { t: core::marker::PhantomData<T> }
impl<T> JoinHandle<T> {
    pub uninterp spec fn hid(&self) -> int;
    #[verifier::external_body]
    pub fn abort(&self, w: &mut World) ensures *final(w) == (World { aborted: final(w).aborted, ..*old(w) }), final(w).aborted@ == old(w).aborted@.insert(self.hid()) { unimplemented!() }
}

// ---------- tasks and channels
//@assume tokio::spawn returns a handle of its own for the new task; flume::unbounded returns a fresh open channel; flume's send appends to the channel exactly when it is open; JoinHandle::abort marks exactly that task
pub struct VFuture { pub x: u8 }
#[verifier::external_body]
pub fn vx_future() -> (r: VFuture) { unimplemented!() }
#[verifier::external_body]
pub fn vx_scope(p: Process) -> (r: VFuture) { unimplemented!() }
pub mod tokio {
    use vstd::prelude::*; use crate::vx::*; use crate::*;
    #[verifier::external_body]
    pub fn spawn(f: VFuture, w: &mut World) -> (r: JoinHandle<()>)
        ensures *final(w) == (World { fresh: final(w).fresh, ..*old(w) }), !old(w).fresh@.contains(r.hid()), final(w).fresh@ == old(w).fresh@.insert(r.hid()) { unimplemented!() }
}
pub mod flume {
    use vstd::prelude::*; use crate::vx::*; use crate::*;
    #[verifier::external_body]
    pub fn unbounded(w: &mut World) -> (r: (Sender<ProcessItem>, Receiver<ProcessItem>))
        ensures *final(w) == (World { open: final(w).open, mail: final(w).mail, ..*old(w) }), r.0.chan() == r.1.chan(), !old(w).open@.contains(r.0.chan()),
            final(w).open@ == old(w).open@.insert(r.0.chan()), final(w).mail@ == old(w).mail@.insert(r.0.chan(), Seq::empty()) { unimplemented!() }
}
pub mod oneshot {
    use vstd::prelude::*; use crate::vx::*;
    pub struct OneTx { pub x: u8 }
    pub struct OneRx { pub x: u8 }
    impl OneTx {
        #[verifier::external_body]
        pub fn send(self, t: (), w: &mut World) -> (r: Result<(), ()>)
            // the newborn runs from here on: it is registered
            requires old(w).PROCESS_REGISTRY@.contains_key((old(w).process__ID@ - 1) as u64)
            ensures *final(w) == *old(w) { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn channel<T>() -> (r: (OneTx, OneRx)) { unimplemented!() }
}

pub broadcast group vx_axioms { vx_base_axioms, lm_pidid }
