// The writing side of a connection (C21): frames leave in the order they were handed over
//@world due: Ghost<Seq<Frame>>
//@world open: Ghost<bool>
//@wmethod send send_all
//@wfn vx_timed_out Process::receive
//@assume unit sender: SplitSink::send writes one frame and send_all writes every frame of its stream in order; a failed write ends the process
#[verifier::external_body]
pub struct Writer { x: u8 }
#[verifier::external_body]
pub struct Reader { x: u8 }
#[verifier::external_body]
pub struct NodeRemoteConnectorMessage { x: u8 }
/// the frames a message hands over, in order
pub open spec fn frames_of(m: NodeRemoteSenderMessage) -> Seq<Frame> { match m { NodeRemoteSenderMessage::SendFrame(f) => seq![f.0], NodeRemoteSenderMessage::SendFrames(v) => v.0@ } }
impl Writer {
    /// only the frame that is due next is written
    #[verifier::external_body]
    pub fn send(&mut self, f: Frame, w: &mut World) -> (r: Result<(), IoError>)
        requires old(w).due@.len() > 0, f == old(w).due@[0]
        ensures *final(w) == (World { due: final(w).due, ..*old(w) }), final(w).due@ == old(w).due@.skip(1) { unimplemented!() }
    #[verifier::external_body]
    pub fn send_all(&mut self, s: &mut VIter<Result<Frame, IoError>>, w: &mut World) -> (r: Result<(), IoError>)
        requires all_ok(old(s).vseq(), old(w).due@)
        ensures *final(w) == (World { due: final(w).due, ..*old(w) }), final(w).due@ == Seq::<Frame>::empty() { unimplemented!() }
}
pub open spec fn all_ok(s: Seq<Result<Frame, IoError>>, d: Seq<Frame>) -> bool { s.len() == d.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == Ok::<Frame, IoError>(d[i]) }
pub mod stream {
    use vstd::prelude::*; use super::*;
    pub fn iter<T>(x: VIter<T>) -> (r: VIter<T>) ensures r == x { x }
}
pub struct Process { pub x: u8 }
impl Process {
    /// the next message; what was handed over before is written
    #[verifier::external_body]
    pub fn receive<T: 'static>(w: &mut World) -> (r: Message<T>)
        requires old(w).due@.len() == 0
        ensures *final(w) == (World { due: final(w).due, ..*old(w) }), final(w).due@ == handed(anybox(r)) { unimplemented!() }
}
pub open spec fn handed(a: AnyBox) -> Seq<Frame> { if !is_any::<Message<NodeRemoteSenderMessage>>(a) { arbitrary() } else { match any_val::<Message<NodeRemoteSenderMessage>>(a) { Message::User(m) => frames_of(m), _ => Seq::empty() } } }
/// nothing to write for the whole duration: a ping is due
#[verifier::external_body]
pub fn vx_timed_out(d: Duration, w: &mut World) -> (r: bool)
    requires old(w).due@.len() == 0
    ensures *final(w) == (World { due: final(w).due, ..*old(w) }), final(w).due@ == (if r { seq![Frame::Ping] } else { Seq::<Frame>::empty() }) { unimplemented!() }
pub broadcast group vx_axioms { vx_base_axioms }
impl VIter<Frame> {
    /// each element wrapped in Ok, in order
    #[verifier::external_body]
    pub fn vx_map_ok(self) -> (r: VIter<Result<Frame, IoError>>) requires self.pos() == 0
        ensures r.pos() == 0, r.seq().len() == self.seq().len(), forall|i: int| 0 <= i < r.seq().len() ==> #[trigger] r.seq()[i] == Ok::<Frame, IoError>(self.seq()[i]) { unimplemented!() }
}
impl<T> core::ops::Deref for Local<T> { type Target = T; fn deref(&self) -> (r: &T) ensures *r == self.0 { &self.0 } }
