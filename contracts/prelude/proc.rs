// Spec vocabulary: processes, signals.
pub open spec fn chan_of(w: World, id: u64) -> int { w.PROCESS_REGISTRY@[id].sender.chan() }
/// every registered process has an open channel and a task handle of its own
pub open spec fn reg_wf(w: World) -> bool { rwf(w.PROCESS_REGISTRY@, w.open@) }
pub open spec fn rwf(r: Map<u64, ProcessRegistration>, open: Set<int>) -> bool {
    &&& forall|a: u64| #[trigger] r.contains_key(a) ==> a != 0 && open.contains(r[a].sender.chan())
    &&& forall|a: u64, b: u64| #[trigger] r.contains_key(a) && #[trigger] r.contains_key(b) && a != b
        ==> r[a].sender.chan() != r[b].sender.chan() && r[a].handle.hid() != r[b].handle.hid()
}
pub enum Act { Die, Deliver, Ignore }
/// what an exit signal sent with Process::exit does (C01)
pub open spec fn exit_act(trap: bool, own: bool, reason: ExitReason) -> Act {
    match reason {
        ExitReason::Kill => Act::Die,
        ExitReason::Normal | ExitReason::Ignore => if own { Act::Die } else if trap { Act::Deliver } else { Act::Ignore },
        ExitReason::Custom(_) => if own || !trap { Act::Die } else { Act::Deliver },
    }
}
/// what a link signal does (C02)
pub open spec fn link_act(trap: bool, reason: ExitReason) -> Act {
    if trap { Act::Deliver } else if reason is Normal { Act::Ignore } else { Act::Die }
}
pub open spec fn with_reason(r: ProcessRegistration, reason: ExitReason) -> ProcessRegistration { ProcessRegistration { exit_reason: Some(reason), ..r } }
pub open spec fn exit_item(from: Pid, reason: ExitReason) -> ProcessItem { ProcessItem::SystemMessage(SystemMessage::Exit(from, reason)) }
/// only these parts of the world differ
pub open spec fn only_signal(w0: World, w1: World) -> bool { w1 == (World { PROCESS_REGISTRY: w1.PROCESS_REGISTRY, mail: w1.mail, aborted: w1.aborted, ..w0 }) }
/// w1 is w0 after `act` was applied to the process `id`; a process that is already exiting ignores it
pub open spec fn signalled(w0: World, w1: World, id: u64, act: Act, from: Pid, reason: ExitReason) -> bool {
    &&& only_signal(w0, w1)
    &&& sig_parts(w0, w1, id, act, from, reason)
}
pub open spec fn sig_parts(w0: World, w1: World, id: u64, act: Act, from: Pid, reason: ExitReason) -> bool {
    if !w0.PROCESS_REGISTRY@.contains_key(id) || w0.PROCESS_REGISTRY@[id].exit_reason is Some { w1.PROCESS_REGISTRY@ =~= w0.PROCESS_REGISTRY@ && w1.mail == w0.mail && w1.aborted == w0.aborted } else { match act {
            Act::Die => w1.PROCESS_REGISTRY@ =~= w0.PROCESS_REGISTRY@.insert(id, with_reason(w0.PROCESS_REGISTRY@[id], reason)) && w1.mail == w0.mail
                && w1.aborted@ =~= w0.aborted@.insert(w0.PROCESS_REGISTRY@[id].handle.hid()),
            Act::Deliver => w1.PROCESS_REGISTRY@ =~= w0.PROCESS_REGISTRY@ && w1.aborted == w0.aborted && w1.mail@ =~= mail_push(w0.mail@, chan_of(w0, id), exit_item(from, reason)),
            Act::Ignore => w1.PROCESS_REGISTRY@ =~= w0.PROCESS_REGISTRY@ && w1.mail == w0.mail && w1.aborted == w0.aborted,
        } }
}
/// a link signal as delivered by process_exit_signal_linked (C02)
pub open spec fn link_signal(w0: World, w1: World, id: u64, from: Pid, reason: ExitReason) -> bool {
    sig_parts(w0, w1, id, link_act(trapf(w0.PROCESS_REGISTRY@[id].flags), reason), from, reason)
}
pub open spec fn names_nz(w: World) -> bool { forall|n: String| #[trigger] w.PROCESS_NAMES@.contains_key(n) ==> w.PROCESS_NAMES@[n] != 0 }
/// names and registrations agree (C06)
pub open spec fn names_wf(w: World) -> bool { nmwf(w.PROCESS_NAMES@, w.PROCESS_REGISTRY@) }
pub open spec fn nmwf(m: Map<String, u64>, r: Map<u64, ProcessRegistration>) -> bool {
    &&& forall|n: String| #[trigger] m.contains_key(n) ==> m[n] != 0 && r.contains_key(m[n]) && r[m[n]].name == Some(n)
    &&& forall|id: u64| #[trigger] r.contains_key(id) && r[id].name is Some ==> m.contains_key(r[id].name->0) && m[r[id].name->0] == id
}
pub proof fn lm_names_register(w0: World, w1: World, n: String, id: u64)
    ensures names_wf(w0) && id != 0 && !w0.PROCESS_NAMES@.contains_key(n) && w0.PROCESS_REGISTRY@.contains_key(id) && w0.PROCESS_REGISTRY@[id].name is None
        && w1.PROCESS_NAMES@ =~= w0.PROCESS_NAMES@.insert(n, id)
        && w1.PROCESS_REGISTRY@ =~= w0.PROCESS_REGISTRY@.insert(id, ProcessRegistration { name: Some(n), ..w0.PROCESS_REGISTRY@[id] })
        ==> names_wf(w1)
{
  if names_wf(w0) && id != 0 && !w0.PROCESS_NAMES@.contains_key(n) && w0.PROCESS_REGISTRY@.contains_key(id) && w0.PROCESS_REGISTRY@[id].name is None
        && w1.PROCESS_NAMES@ =~= w0.PROCESS_NAMES@.insert(n, id)
        && w1.PROCESS_REGISTRY@ =~= w0.PROCESS_REGISTRY@.insert(id, ProcessRegistration { name: Some(n), ..w0.PROCESS_REGISTRY@[id] })
  {
    assert forall|m: String| #[trigger] w1.PROCESS_NAMES@.contains_key(m) implies w1.PROCESS_NAMES@[m] != 0 && w1.PROCESS_REGISTRY@.contains_key(w1.PROCESS_NAMES@[m]) && w1.PROCESS_REGISTRY@[w1.PROCESS_NAMES@[m]].name == Some(m) by {
        if m != n { assert(w0.PROCESS_NAMES@.contains_key(m)); }
    }
    assert forall|i: u64| #[trigger] w1.PROCESS_REGISTRY@.contains_key(i) && w1.PROCESS_REGISTRY@[i].name is Some implies w1.PROCESS_NAMES@.contains_key(w1.PROCESS_REGISTRY@[i].name->0) && w1.PROCESS_NAMES@[w1.PROCESS_REGISTRY@[i].name->0] == i by {
        if i != id { assert(w0.PROCESS_REGISTRY@.contains_key(i)); }
    }
  }
}
pub open spec fn register_ok(w: World, pid: Pid, name: String) -> bool {
    &&& pid is Local
    &&& if w.PROCESS_NAMES@.contains_key(name) { w.PROCESS_NAMES@[name] == pidid(pid) } else { w.PROCESS_REGISTRY@.contains_key(pidid(pid)) && w.PROCESS_REGISTRY@[pidid(pid)].name is None }
}

impl<T: Into<String>> From<T> for ArgumentError { #[verifier::external_body] fn from(value: T) -> Self { unimplemented!() } }

/// invariant of the process table between operations: ids in use were handed out before
pub open spec fn sp_wf(w: World) -> bool { reg_wf(w) && spw(w.PROCESS_REGISTRY@, w.process__ID@, w.fresh@) }
pub open spec fn spw(r: Map<u64, ProcessRegistration>, next: u64, fresh: Set<int>) -> bool { next != 0 && forall|a: u64| #[trigger] r.contains_key(a) ==> a < next && fresh.contains(r[a].handle.hid()) }
/// everything that existed in the process layer is untouched (new processes may have been added)
pub open spec fn reg_grows(w0: World, w1: World) -> bool { rgr(w0.PROCESS_REGISTRY@, w1.PROCESS_REGISTRY@, w0.process__ID@) && mgr(w0.open@, w1.open@, w0.mail@, w1.mail@) && w0.process__ID@ <= w1.process__ID@ }
pub open spec fn rgr(r0: Map<u64, ProcessRegistration>, r1: Map<u64, ProcessRegistration>, id: u64) -> bool {
    &&& forall|a: u64| #[trigger] r0.contains_key(a) ==> r1.contains_key(a) && r1[a] == r0[a]
    &&& forall|a: u64| #[trigger] r1.contains_key(a) && !r0.contains_key(a) ==> a >= id
}
pub open spec fn mgr(o0: Set<int>, o1: Set<int>, m0: Map<int, Seq<ProcessItem>>, m1: Map<int, Seq<ProcessItem>>) -> bool { forall|c: int| #[trigger] o0.contains(c) ==> o1.contains(c) && m1[c] == m0[c] }
/// w1 is w0 with one new process, which is not linked to or known by anybody
pub open spec fn spawned(w0: World, w1: World, id: u64) -> bool {
    &&& id == w0.process__ID@ && w1.process__ID@ == id + 1
    &&& w1.PROCESS_REGISTRY@ =~= w0.PROCESS_REGISTRY@.insert(id, w1.PROCESS_REGISTRY@[id])
    &&& w1.PROCESS_REGISTRY@[id].name is None && w1.PROCESS_REGISTRY@[id].exit_reason is None && !trapf(w1.PROCESS_REGISTRY@[id].flags)
    &&& !w0.open@.contains(chan_of(w1, id)) && w1.open@ == w0.open@.insert(chan_of(w1, id)) && w1.mail@ == w0.mail@.insert(chan_of(w1, id), Seq::empty())
}
/// the id counters never hand out 0 (C26)
pub open spec fn ids_wf(w: World) -> bool { w.reference__REF@ != 0 && w.process__ID@ != 0 && w.NODE_ID@ != 0 }

// ---------- the task of a process (C27)
//@wfn vx_await AsyncCatchUnwind::new
//@world after: Ghost<Map<u64, ProcessRegistration>>
//@assume the task of a process waits until the sender is used (spawn_internal is verified to use it only after the registration); nothing but the process' own end, which this task performs, takes the registration away
/// waiting to be let go; others run meanwhile
#[verifier::external_body]
pub fn vx_await(rx: oneshot::OneRx, w: &mut World) -> (r: Result<(), ()>)
    ensures final(w).PROCESS.pid == old(w).PROCESS.pid, reg_wf(*final(w)), final(w).PROCESS_REGISTRY@.contains_key(pidid(final(w).PROCESS.pid)) { unimplemented!() }
/// how a body ends: it returns, or panics with a message
pub uninterp spec fn body_end<F>(f: F) -> Result<(), String>;
#[verifier::external_body]
#[verifier::accept_recursive_types(F)]
pub struct AsyncCatchUnwind<F> { f: core::marker::PhantomData<F> }
impl<F> AsyncCatchUnwind<F> {
    /// the whole run of a process' body, which needs the process to be registered
    #[verifier::external_body]
    pub fn new(f: F, w: &mut World) -> (r: Result<(), String>)
        requires reg_wf(*old(w)), old(w).PROCESS_REGISTRY@.contains_key(pidid(old(w).PROCESS.pid)),
        ensures r == body_end(f), final(w).PROCESS.pid == old(w).PROCESS.pid, reg_wf(*final(w)), final(w).PROCESS_REGISTRY@.contains_key(pidid(final(w).PROCESS.pid)), final(w).after@ == final(w).PROCESS_REGISTRY@ { unimplemented!() }
}
/// a panic becomes the exit reason, a return changes nothing
pub open spec fn body_done(r: Map<u64, ProcessRegistration>, me: u64, e: Result<(), String>) -> Map<u64, ProcessRegistration> {
    match e { Ok(_) => r, Err(m) => r.insert(me, with_reason(r[me], ExitReason::Custom(m))) }
}
