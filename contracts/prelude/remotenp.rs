// The socket side of a connection, frames that keep to the protocol only (C22)
//@wmethod next
//@assume unit remotenp: frames arrive in time and without i/o errors, and keep to the protocol (no second hello, no zero id, complete monitor frames)
impl core::fmt::Debug for IoError { #[verifier::external_body] fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
impl core::fmt::Debug for crate::timeout::Timeout { #[verifier::external_body] fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
#[verifier::external_body]
pub struct Reader { x: u8 }
pub open spec fn all_wf(w: World) -> bool { nodes_wf(w) && sp_wf(w) && ids_wf(w) && names_nz(w) }
impl Reader {
    /// the next frame of the connection; everything else may have changed meanwhile
    #[verifier::external_body]
    pub fn next(&mut self, w: &mut World) -> (r: Option<Result<Frame, IoError>>)
        requires all_wf(*old(w)),
        ensures all_wf(*final(w)), r is Some && r->0 is Ok && valid_frame(r->0->Ok_0)
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_timed_out(d: Duration) -> (r: bool) ensures !r { unimplemented!() }

pub open spec fn valid_frame(f: Frame) -> bool {
    match f {
        Frame::Hello(_) => false,
        Frame::Monitor(m) => m.reference_id != 0 && (m.process_id matches Some(i) ==> i != 0) && (m.from_id matches Some(i) ==> i != 0) && if m.install { m.from_id is Some && (m.process_id is Some || m.process_name is Some) } else { m.process_id is Some },
        Frame::MonitorDown(d) => forall|j: int| 0 <= j < d.monitors@.len() ==> #[trigger] d.monitors@[j] != 0,
        Frame::MonitorUpdate(u) => u.process_id != 0 && u.from_id != 0 && u.reference_id != 0,
        Frame::Link(l) => l.process_id != 0 && l.from_id != 0,
        Frame::LinkDown(d) => d.from_id != 0 && forall|j: int| 0 <= j < d.links@.len() ==> #[trigger] d.links@[j] != 0,
        Frame::Exit(e) => e.process_id != 0 && e.from_id != 0,
        _ => true,
    }
}
