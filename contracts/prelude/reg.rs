// Registry: models and vocabulary (C17)
//@trait VxStr
//@world trace: Ghost<Seq<Step>>
//@world known: Ghost<Set<Pid>>
//@world last: Ghost<Map<String, DashMap<RegistryKey, Pid>>>
//@wfn vx_dyn_call Process::unlink Process::exit Process::monitor Process::set_flags shutdown_timeout shutdown_infinity Registry::call Registry::cast GenServer::start GenServer::start_link
//@assume unit reg: a registry's start routine returns a process that was not registered before; while it runs, other tasks may only take entries out of the tables (Registry::remove by local name); Process::{unlink, exit, monitor}, GenServer::{call, cast, start, start_link} and shutdown_{timeout, infinity} are recorded in an event trace (their own contracts: C03-C05, C10, C11, C16)
pub broadcast group vx_axioms { vx_base_axioms, ax_into_dest, ax_into_dest_cow, ax_into_dest_str }
pub trait VxStr: Sized { spec fn text(&self) -> Seq<char>; fn vx_str<'a>(&'a self) -> (r: &'a str) ensures r@ == self.text(); fn vx_string(self) -> (r: String) ensures r@ == self.text(); }
impl VxStr for String { open spec fn text(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_str<'a>(&'a self) -> (r: &'a str) { unimplemented!() } #[verifier::external_body] fn vx_string(self) -> (r: String) { unimplemented!() } }
impl<'b> VxStr for &'b String { open spec fn text(&self) -> Seq<char> { (**self)@ } #[verifier::external_body] fn vx_str<'a>(&'a self) -> (r: &'a str) { unimplemented!() } #[verifier::external_body] fn vx_string(self) -> (r: String) { unimplemented!() } }
impl<'b> VxStr for &'b CowStr { open spec fn text(&self) -> Seq<char> { (**self)@ } #[verifier::external_body] fn vx_str<'a>(&'a self) -> (r: &'a str) { unimplemented!() } #[verifier::external_body] fn vx_string(self) -> (r: String) { unimplemented!() } }
impl<'b> VxStr for &'b str { open spec fn text(&self) -> Seq<char> { (**self)@ } #[verifier::external_body] fn vx_str<'a>(&'a self) -> (r: &'a str) { unimplemented!() } #[verifier::external_body] fn vx_string(self) -> (r: String) { unimplemented!() } }
/// what the registry did, in order
pub enum Step {
    /// the start routine was run with this key and returned this
    Start(DynFn, RegistryKey, Result<Pid, ExitReason>),
    Unlink(Pid),
    Exit(Pid, ExitReason),
    Monitor(Pid, Reference),
    /// asked it to shut down and waited for it to be down, killing it when the time is over (None: no limit)
    Wait(Pid, Reference, Option<Duration>),
    Cast(Dest, RegistryMessage),
    Call(Dest, RegistryMessage, Option<Duration>, Result<RegistryMessage, CallError>),
    Flags(ProcessFlags),
    Server(Registry, GenServerOptions, bool, Result<Pid, ExitReason>),
}
#[verifier::external_body]
pub struct DynFn { x: u8 }
/// only the trace grew, by this
pub open spec fn only_step(o: World, n: World, s: Step) -> bool { n == (World { trace: n.trace, ..o }) && n.trace@ == o.trace@.push(s) }
pub open spec fn tabs(w: World) -> Map<String, DashMap<RegistryKey, Pid>> { w.REGISTRY@ }
/// the table of the registry with this name
pub open spec fn tab_in(m: Map<String, DashMap<RegistryKey, Pid>>, n: Seq<char>) -> Map<RegistryKey, Pid> { if m.contains_key(vstr(n)) { m[vstr(n)]@ } else { Map::empty() } }
pub open spec fn tab(w: World, n: Seq<char>) -> Map<RegistryKey, Pid> { tab_in(w.REGISTRY@, n) }
pub open spec fn at(m: Map<RegistryKey, Pid>, k: RegistryKey) -> Option<Pid> { if m.contains_key(k) { Some(m[k]) } else { None } }
/// the same tables except for the one of this name
pub open spec fn others_same(a: Map<String, DashMap<RegistryKey, Pid>>, b: Map<String, DashMap<RegistryKey, Pid>>, n: Seq<char>) -> bool { forall|s: String| s@ != n ==> #[trigger] a.contains_key(s) == b.contains_key(s) && (b.contains_key(s) ==> a[s]@ == b[s]@) }
pub open spec fn only_tab(o: World, n: World, name: Seq<char>) -> bool { n == (World { REGISTRY: n.REGISTRY, ..o }) && others_same(o.REGISTRY@, n.REGISTRY@, name) }
pub open spec fn shrunk(a: Map<String, DashMap<RegistryKey, Pid>>, b: Map<String, DashMap<RegistryKey, Pid>>) -> bool {
    a.dom() == b.dom() && forall|s: String, k: RegistryKey| a.contains_key(s) && #[trigger] b[s]@.contains_key(k) ==> a[s]@.contains_key(k) && b[s]@[k] == a[s]@[k]
}
#[verifier::external_body]
pub fn vx_dyn_call(f: &DynFn, a: (RegistryKey,), w: &mut World) -> (r: Result<Pid, ExitReason>)
    ensures *final(w) == (World { trace: final(w).trace, REGISTRY: final(w).REGISTRY, known: final(w).known, last: final(w).last, ..*old(w) }),
        final(w).trace@ == old(w).trace@.push(Step::Start(*f, a.0, r)), shrunk(old(w).REGISTRY@, final(w).REGISTRY@), final(w).last@ == final(w).REGISTRY@,
        r matches Ok(p) ==> !old(w).known@.contains(p) && final(w).known@ == old(w).known@.insert(p), r is Err ==> final(w).known@ == old(w).known@ { unimplemented!() }
/// the reference a monitor gets at this point of a run
pub uninterp spec fn mref(t: Seq<Step>) -> Reference;
pub struct Process { pub x: u8 }
impl Process {
    #[verifier::external_body]
    pub fn unlink(p: Pid, w: &mut World) ensures only_step(*old(w), *final(w), Step::Unlink(p)) { unimplemented!() }
    #[verifier::external_body]
    pub fn exit(p: Pid, e: ExitReason, w: &mut World) ensures only_step(*old(w), *final(w), Step::Exit(p, e)) { unimplemented!() }
    #[verifier::external_body]
    pub fn monitor(p: Pid, w: &mut World) -> (r: Reference) ensures r == mref(old(w).trace@), only_step(*old(w), *final(w), Step::Monitor(p, r)) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_flags(f: ProcessFlags, w: &mut World) ensures only_step(*old(w), *final(w), Step::Flags(f)) { unimplemented!() }
}
#[verifier::external_body]
pub fn shutdown_timeout(p: Pid, m: Reference, d: Duration, w: &mut World) -> (r: Result<(), ExitReason>) ensures only_step(*old(w), *final(w), Step::Wait(p, m, Some(d))) { unimplemented!() }
#[verifier::external_body]
pub fn shutdown_infinity(p: Pid, m: Reference, w: &mut World) -> (r: Result<(), ExitReason>) ensures only_step(*old(w), *final(w), Step::Wait(p, m, None)) { unimplemented!() }
pub struct GenServer { pub x: u8 }
impl GenServer {
    #[verifier::external_body]
    pub fn start(s: Registry, o: GenServerOptions, w: &mut World) -> (r: Result<Pid, ExitReason>) ensures only_step(*old(w), *final(w), Step::Server(s, o, false, r)) { unimplemented!() }
    #[verifier::external_body]
    pub fn start_link(s: Registry, o: GenServerOptions, w: &mut World) -> (r: Result<Pid, ExitReason>) ensures only_step(*old(w), *final(w), Step::Server(s, o, true, r)) { unimplemented!() }
}
pub uninterp spec fn into_dest<T>(t: T) -> Dest;
pub broadcast axiom fn ax_into_dest(d: Dest) ensures #[trigger] into_dest(d) == d;
pub broadcast axiom fn ax_into_dest_cow(d: CowStr) ensures #[trigger] into_dest(d) == Dest::Named(d, Node::Local);
pub broadcast axiom fn ax_into_dest_str(d: String) ensures #[trigger] into_dest(d) == Dest::Named(CowStr::Owned(d), Node::Local);
impl Registry {
    #[verifier::external_body]
    pub fn cast<D>(p: D, m: RegistryMessage, w: &mut World) ensures only_step(*old(w), *final(w), Step::Cast(into_dest(p), m)) { unimplemented!() }
    /// others run meanwhile: the tables may change
    #[verifier::external_body]
    pub fn call<T>(s: T, m: RegistryMessage, t: Option<Duration>, w: &mut World) -> (r: Result<RegistryMessage, CallError>)
        ensures *final(w) == (World { trace: final(w).trace, REGISTRY: final(w).REGISTRY, ..*old(w) }), final(w).trace@ == old(w).trace@.push(Step::Call(into_dest(s), m, t, r)) { unimplemented!() }
}
// ---------- the registry's invariant
/// every entry of the table is one of the registry's processes, under its key; every registered process was known
pub open spec fn reg_ok(t: Map<RegistryKey, Pid>, l: Map<Pid, RegistryKey>, known: Set<Pid>) -> bool {
    &&& forall|k: RegistryKey| #[trigger] t.contains_key(k) ==> l.contains_key(t[k]) && l[t[k]] == k
    &&& forall|p: Pid| #[trigger] l.contains_key(p) ==> known.contains(p)
}
pub open spec fn reg_wf(s: Registry, w: World) -> bool { reg_ok(tab(w, s.name@), s.lookup@, w.known@) }
pub open spec fn same_reg(a: Registry, b: Registry) -> bool { b == (Registry { lookup: b.lookup, ..a }) }
pub open spec fn quiet(a: Registry, b: Registry, o: World, n: World) -> bool { a.lookup@ =~= b.lookup@ && n == o }
/// the table without the entries of this process
pub open spec fn without(t: Map<RegistryKey, Pid>, p: Pid) -> Map<RegistryKey, Pid> { Map::new(t.dom().filter(|k: RegistryKey| t[k] != p), |k: RegistryKey| t[k]) }
/// a start was asked for this key
pub open spec fn started_key(a: Registry, b: Registry, o: World, n: World, key: RegistryKey, r: Result<Pid, RegistryError>) -> bool {
    let t = tab(o, a.name@);
    if t.contains_key(key) { quiet(a, b, o, n) && r == Err::<Pid, RegistryError>(RegistryError::AlreadyStarted(t[key])) }
    else if a.start is None { quiet(a, b, o, n) && r == Err::<Pid, RegistryError>(RegistryError::StartNotSupported) }
    else { ran_start(a, b, o, n, key, r) }
}
pub open spec fn ran_start(a: Registry, b: Registry, o: World, n: World, key: RegistryKey, r: Result<Pid, RegistryError>) -> bool {
    &&& n == (World { trace: n.trace, REGISTRY: n.REGISTRY, known: n.known, last: n.last, ..o }) && shrunk(o.REGISTRY@, n.last@)
    &&& n.trace@.len() == o.trace@.len() + 1 && n.trace@.last() is Start && n.trace@ == o.trace@.push(Step::Start(a.start->0, key, n.trace@.last()->Start_2))
    &&& match n.trace@.last()->Start_2 {
        Ok(p) => r == Ok::<Pid, RegistryError>(p) && b.lookup@ == a.lookup@.insert(p, key) && tab(n, a.name@) == tab_in(n.last@, a.name@).insert(key, p) && others_same(n.last@, n.REGISTRY@, a.name@),
        Err(e) => r == Err::<Pid, RegistryError>(RegistryError::StartError(e)) && b.lookup@ =~= a.lookup@ && n.REGISTRY@ == n.last@,
    }
}
pub open spec fn found_or_started(a: Registry, b: Registry, o: World, n: World, key: RegistryKey, r: Result<Pid, RegistryError>) -> bool {
    if tab(o, a.name@).contains_key(key) { quiet(a, b, o, n) && r == Ok::<Pid, RegistryError>(tab(o, a.name@)[key]) } else { started_key(a, b, o, n, key, r) }
}
pub open spec fn shut() -> ExitReason { ExitReason::Custom(vstr("shutdown"@)) }
/// the key is taken out of the table and its process out of the registry
pub open spec fn dropped_key(a: Registry, b: Registry, o: World, n: World, key: RegistryKey, t: Seq<Step>) -> bool {
    &&& n == (World { trace: n.trace, REGISTRY: n.REGISTRY, ..o }) && others_same(o.REGISTRY@, n.REGISTRY@, a.name@) && n.trace@ =~= o.trace@ + t
    &&& tab(n, a.name@) == tab(o, a.name@).remove(key) && b.lookup@ == a.lookup@.remove(tab(o, a.name@)[key])
}
pub open spec fn stopped_key(a: Registry, b: Registry, o: World, n: World, key: RegistryKey, r: Result<(), RegistryError>) -> bool {
    let t = tab(o, a.name@);
    if !t.contains_key(key) { quiet(a, b, o, n) && r == Err::<(), RegistryError>(RegistryError::NotFound) }
    else { r is Ok && dropped_key(a, b, o, n, key, seq![Step::Unlink(t[key]), Step::Exit(t[key], shut())]) }
}
pub open spec fn removed_key(a: Registry, b: Registry, o: World, n: World, key: RegistryKey, r: Option<Pid>) -> bool {
    let t = tab(o, a.name@);
    if !t.contains_key(key) { a.lookup@ =~= b.lookup@ && n == (World { REGISTRY: n.REGISTRY, ..o }) && others_same(o.REGISTRY@, n.REGISTRY@, a.name@) && tab(n, a.name@) =~= t && r is None }
    else { r == Some(t[key]) && dropped_key(a, b, o, n, key, seq![Step::Unlink(t[key])]) }
}
/// its process is gone: no entry of it remains and no other entry changed
pub open spec fn gone(a: Registry, b: Registry, o: World, n: World, p: Pid) -> bool {
    b.lookup@ =~= a.lookup@.remove(p) && only_tab(o, n, a.name@) && tab(n, a.name@) =~= without(tab(o, a.name@), p)
}
pub open spec fn answered(a: Registry, b: Registry, o: World, n: World, m: RegistryMessage, r: Result<Option<RegistryMessage>, ExitReason>) -> bool {
    &&& r is Ok && r->Ok_0 is Some
    &&& match (m, r->Ok_0->0) {
        (RegistryMessage::Lookup(k), RegistryMessage::LookupSuccess(x)) => quiet(a, b, o, n) && x == at(tab(o, a.name@), k),
        (RegistryMessage::LookupOrStart(k), RegistryMessage::LookupOrStartSuccess(p)) => found_or_started(a, b, o, n, k, Ok(p)),
        (RegistryMessage::LookupOrStart(k), RegistryMessage::LookupOrStartError(e)) => found_or_started(a, b, o, n, k, Err(e)),
        (RegistryMessage::Start(k), RegistryMessage::StartSuccess(p)) => started_key(a, b, o, n, k, Ok(p)),
        (RegistryMessage::Start(k), RegistryMessage::StartError(e)) => started_key(a, b, o, n, k, Err(e)),
        (RegistryMessage::Stop(k), RegistryMessage::StopSuccess) => stopped_key(a, b, o, n, k, Ok(())),
        (RegistryMessage::Stop(k), RegistryMessage::StopError(e)) => stopped_key(a, b, o, n, k, Err(e)),
        (RegistryMessage::Count, RegistryMessage::CountSuccess(c)) => quiet(a, b, o, n) && c == tab(o, a.name@).dom().len(),
        (RegistryMessage::List, RegistryMessage::ListSuccess(l)) => quiet(a, b, o, n) && lists_map(l@, tab(o, a.name@)),
        (RegistryMessage::Remove(k), RegistryMessage::RemoveSuccess(x)) => removed_key(a, b, o, n, k, x),
        _ => false,
    }
}
// ---------- termination
pub open spec fn entry_of(t: Map<RegistryKey, Pid>, x: (Pid, RegistryKey)) -> bool { t.contains_key(x.1) && t[x.1] == x.0 }
/// asking the first n processes to shut down (the removed ones are only unlinked)
pub open spec fn ask_steps(t0: Seq<Step>, q: Seq<(Pid, RegistryKey)>, t: Map<RegistryKey, Pid>, n: int) -> Seq<Step> decreases n {
    if n <= 0 { t0 } else { let s = ask_steps(t0, q, t, n - 1); if entry_of(t, q[n - 1]) { s.push(Step::Monitor(q[n - 1].0, mref(s))).push(Step::Exit(q[n - 1].0, shut())) } else { s.push(Step::Unlink(q[n - 1].0)) } }
}
pub open spec fn asked_of(t0: Seq<Step>, q: Seq<(Pid, RegistryKey)>, t: Map<RegistryKey, Pid>, n: int) -> Seq<(Pid, Reference)> decreases n {
    if n <= 0 { Seq::empty() } else { let s = ask_steps(t0, q, t, n - 1); let m = asked_of(t0, q, t, n - 1); if entry_of(t, q[n - 1]) { m.push((q[n - 1].0, mref(s))) } else { m } }
}
pub open spec fn limit(how: Shutdown) -> Option<Duration> { match how { Shutdown::Duration(d) => Some(d), _ => None } }
pub open spec fn wait_steps(m: Seq<(Pid, Reference)>, how: Shutdown, n: int) -> Seq<Step> { Seq::new(n as nat, |i: int| Step::Wait(m[i].0, m[i].1, limit(how))) }
/// every registered process was shut down with the configured method, the removed ones unlinked, and nothing is registered any more
pub open spec fn all_shut(a: Registry, b: Registry, o: World, n: World) -> bool {
    let q = map_order(a.lookup@); let t = tab(o, a.name@); let k = q.len() as int; let m = asked_of(o.trace@, q, t, k);
    n == (World { trace: n.trace, REGISTRY: n.REGISTRY, ..o }) && n.trace@ =~= ask_steps(o.trace@, q, t, k) + wait_steps(m, a.shutdown, m.len() as int)
    && n.REGISTRY@ =~= o.REGISTRY@.remove(vstr(a.name@)) && b.lookup@ =~= Map::empty()
}
pub open spec fn terminated(a: Registry, b: Registry, o: World, n: World) -> bool {
    if a.shutdown is BrutalKill || !o.REGISTRY@.contains_key(vstr(a.name@)) { a.lookup@ =~= b.lookup@ && n == (World { REGISTRY: n.REGISTRY, ..o }) && n.REGISTRY@ =~= o.REGISTRY@ } else { all_shut(a, b, o, n) }
}
/// what dropping a registry does to the first n of its processes (no table: it was dropped in the middle of its termination)
pub open spec fn drop_steps(t0: Seq<Step>, q: Seq<(Pid, RegistryKey)>, t: Option<Map<RegistryKey, Pid>>, n: int) -> Seq<Step> decreases n {
    if n <= 0 { t0 } else { let s = drop_steps(t0, q, t, n - 1).push(Step::Unlink(q[n - 1].0)); if t is None || entry_of(t->0, q[n - 1]) { s.push(Step::Exit(q[n - 1].0, ExitReason::Kill)) } else { s } }
}
pub open spec fn table_of(w: World, n: Seq<char>) -> Option<Map<RegistryKey, Pid>> { if w.REGISTRY@.contains_key(vstr(n)) { Some(w.REGISTRY@[vstr(n)]@) } else { None } }
// ---------- clients
pub open spec fn local_name(d: Dest) -> Option<Seq<char>> { match d { Dest::Named(n, Node::Local) => Some(n@), _ => None } }
/// one call was made, with this result
pub open spec fn called(o: World, n: World, d: Dest, m: RegistryMessage, t: Option<Duration>, x: Result<RegistryMessage, CallError>) -> bool { n == (World { trace: n.trace, REGISTRY: n.REGISTRY, ..o }) && n.trace@ == o.trace@.push(Step::Call(d, m, t, x)) }
pub open spec fn call_res(n: World) -> Result<RegistryMessage, CallError> { n.trace@.last()->Call_3 }
/// the registry was called and this is the result
pub open spec fn asked(o: World, n: World, d: Dest, m: RegistryMessage, t: Option<Duration>) -> bool { n.trace@.len() > 0 && n.trace@.last() is Call && called(o, n, d, m, t, call_res(n)) }
pub open spec fn same_unit(a: Result<(), RegistryError>, b: Result<(), RegistryError>) -> bool { match (a, b) { (Ok(_), Ok(_)) => true, (Err(e), Err(d)) => e == d, _ => false } }
