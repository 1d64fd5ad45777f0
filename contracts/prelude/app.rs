// An application as a state machine over what its process and its caller do (C31)
//@trait Application
//@world ap: Ghost<APh>
//@world caller: Ghost<CPh>
//@world cfg: Ghost<Option<(bool, Duration)>>
//@world me: Ghost<Pid>
//@future signal_handler
//@wfn _::config Process::current Process::exit Process::receive Process::spawn Process::spawn_link Process::set_flags Process::send_after unix::signal tokio::signal::ctrl_c vx_panic_at vx_await
//@wmethod start send recv ctrl_c
//@assume unit app: a process receives every exit of a linked process once (C01, C02), `start` links the process it returns, and a timer's message arrives after its time and not before (C24); Runtime::block_on drives its future to the end
//@assume unit app: tokio::signal's streams yield only when the signal has arrived; tokio::sync::oneshot's receiver gets what the sender sent, or an error when the sender is dropped, and a sender whose receiver waits can send
/// the process of the application
pub enum APh {
    Begin, Ready,
    /// start is done; signals are to be listened for, if so configured
    Arm(Pid),
    /// waiting, with the process of the signal handler
    Up(Pid, Option<Pid>),
    /// the time for the shutdown is over: kill
    Kill(Pid, Option<Pid>),
    /// a shutdown signal has come: the exit signal is to be sent, the timer is to be started
    Stop(Pid, Option<Pid>, bool, bool),
    /// the process has ended, or was not started: report
    Over(ExitReason), Done,
    /// the handler of signals: none yet, one has come
    Listen, Signal,
}
/// the caller of run and test
pub enum CPh { Begin, Config(bool, Duration), Waiting(int), Heard(Option<ExitReason>) }
pub open spec fn now(o: World, n: World, p: APh) -> bool { n == (World { ap: n.ap, ..o }) && n.ap@ == p }
pub open spec fn then(o: World, n: World, p: CPh) -> bool { n == (World { caller: n.caller, ..o }) && n.caller@ == p }
/// nothing is left to be done before the next message
pub open spec fn idle(p: APh, c: Option<(bool, Duration)>) -> Option<(Pid, Option<Pid>)> {
    match p {
        APh::Arm(p) => if c matches Some((true, _)) { None } else { Some((p, None)) },
        APh::Up(p, s) => Some((p, s)),
        APh::Stop(p, s, a, b) => if !a && !b { Some((p, s)) } else { None },
        _ => None,
    }
}
pub open spec fn after<T>(m: Message<T>, u: (Pid, Option<Pid>), c: Option<(bool, Duration)>) -> APh {
    match m {
        Message::User(_) => if c is Some { APh::Kill(u.0, u.1) } else { APh::Up(u.0, u.1) },
        Message::System(SystemMessage::Exit(p, e)) => if p == u.0 { APh::Over(e) } else if Some(p) == u.1 { APh::Stop(u.0, u.1, true, true) } else { APh::Up(u.0, u.1) },
        _ => APh::Up(u.0, u.1),
    }
}
pub open spec fn shutdown_reason() -> ExitReason { ExitReason::Custom(vstr("shutdown"@)) }
pub open spec fn clean(e: ExitReason) -> bool { e is Normal || e == shutdown_reason() }
pub open spec fn may_exit(w: World, p: Pid, e: ExitReason) -> bool {
    match w.ap@ { APh::Kill(q, _) => p == q && e is Kill, APh::Stop(q, _, a, _) => a && p == q && e == shutdown_reason(), APh::Signal => p == w.me@, _ => false }
}
pub open spec fn exited(p: APh) -> APh { match p { APh::Kill(q, s) => APh::Up(q, s), APh::Stop(q, s, _, b) => APh::Stop(q, s, false, b), _ => APh::Done } }
pub open spec fn may_spawn(w: World, t: Task) -> bool { match t { Task::Run(_, c, ch) => w.caller@ == (CPh::Config(c.0, c.1)), Task::Test(_, ch) => w.caller@ is Begin, _ => false } }
pub open spec fn chan(t: Task) -> int { match t { Task::Run(_, _, ch) => ch, Task::Test(_, ch) => ch, _ => 0 } }
pub open spec fn timer_due(w: World, d: Duration) -> bool { w.ap@ is Stop && w.ap@->Stop_3 && (w.cfg@ matches Some((_, t)) && t == d) }
pub open spec fn timed(p: APh) -> APh { match p { APh::Stop(q, s, a, _) => APh::Stop(q, s, a, false), _ => p } }
pub uninterp spec fn any<T>(x: T) -> int;
pub uninterp spec fn into_pid<T>(x: T) -> Pid;
pub broadcast axiom fn ax_into_pid(p: Pid) ensures #[trigger] into_pid(p) == p;
pub enum Task { Run(int, (bool, Duration), int), Test(int, int), Signals }
#[verifier::external_body]
pub struct Fut { x: u8 }
impl View for Fut { type V = Task; uninterp spec fn view(&self) -> Task; }
#[verifier::external_body]
pub fn vx_app_run<T>(app: T, config: ApplicationConfig, tx: OneTx<()>) -> (r: Fut) ensures r@ == Task::Run(any(app), (config.graceful_shutdown, config.graceful_shutdown_timeout), tx.ch()) { unimplemented!() }
#[verifier::external_body]
pub fn vx_app_test<T>(app: T, tx: OneTx<Option<ExitReason>>) -> (r: Fut) ensures r@ == Task::Test(any(app), tx.ch()) { unimplemented!() }
#[verifier::external_body]
pub fn vx_fut_signal_handler() -> (r: Fut) ensures r@ is Signals { unimplemented!() }
pub struct Process { pub x: u8 }
impl Process {
    #[verifier::external_body]
    pub fn current(w: &mut World) -> (r: Pid) ensures *final(w) == *old(w), r == old(w).me@ { unimplemented!() }
    #[verifier::external_body]
    pub fn set_flags(f: ProcessFlags, w: &mut World) requires old(w).ap@ is Begin, f == ProcessFlags::TRAP_EXIT ensures now(*old(w), *final(w), APh::Ready) { unimplemented!() }
    #[verifier::external_body]
    pub fn spawn(f: Fut, w: &mut World) -> (r: Pid) requires may_spawn(*old(w), f@) ensures then(*old(w), *final(w), CPh::Waiting(chan(f@))) { unimplemented!() }
    #[verifier::external_body]
    pub fn spawn_link(f: Fut, w: &mut World) -> (r: Pid) requires f@ is Signals, old(w).ap@ is Arm, old(w).cfg@ matches Some((true, _)) ensures now(*old(w), *final(w), APh::Up(old(w).ap@->Arm_0, Some(r))) { unimplemented!() }
    #[verifier::external_body]
    pub fn receive<T: 'static>(w: &mut World) -> (r: Message<T>) requires idle(old(w).ap@, old(w).cfg@) is Some ensures now(*old(w), *final(w), after(r, idle(old(w).ap@, old(w).cfg@)->0, old(w).cfg@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn exit(p: Pid, e: ExitReason, w: &mut World) requires may_exit(*old(w), p, e) ensures now(*old(w), *final(w), exited(old(w).ap@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn send_after<D>(d: D, m: ApplicationMessage, t: Duration, w: &mut World) -> (r: Reference) requires into_pid(d) == old(w).me@, timer_due(*old(w), t) ensures now(*old(w), *final(w), timed(old(w).ap@)) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct OneTx<T> { t: core::marker::PhantomData<T> }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct OneRx<T> { t: core::marker::PhantomData<T> }
impl<T> OneTx<T> { pub uninterp spec fn ch(&self) -> int; }
impl<T> OneRx<T> { pub uninterp spec fn ch(&self) -> int; }
pub type RunTx = OneTx<()>;
pub struct SentBack { pub x: u8 }
impl core::fmt::Debug for SentBack { #[verifier::external_body] fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
impl core::fmt::Debug for IoError { #[verifier::external_body] fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
pub struct RecvError { pub x: u8 }
pub trait Report: Sized { spec fn tells(self, e: ExitReason) -> bool; }
impl Report for () { open spec fn tells(self, e: ExitReason) -> bool { true } }
impl Report for Option<ExitReason> { open spec fn tells(self, e: ExitReason) -> bool { self == Some(e) } }
pub open spec fn report_due<T: Report>(p: APh, v: T) -> bool { p matches APh::Over(e) && v.tells(e) }
impl<T: Report> OneTx<T> {
    #[verifier::external_body]
    pub fn send(self, v: T, w: &mut World) -> (r: Result<(), SentBack>) requires report_due(old(w).ap@, v) ensures r is Ok, now(*old(w), *final(w), APh::Done) { unimplemented!() }
}
pub open spec fn heard<T: Report>(o: World, n: World, r: Result<T, RecvError>) -> bool {
    match r { Ok(v) => n.caller@ is Heard && n.caller@->Heard_0 is Some && v.tells(n.caller@->Heard_0->0), Err(_) => n.caller@ == CPh::Heard(None) }
}
#[verifier::external_body]
pub fn vx_await<T: Report>(rx: OneRx<T>, w: &mut World) -> (r: Result<T, RecvError>) requires old(w).caller@ == CPh::Waiting(rx.ch()) ensures *final(w) == (World { caller: final(w).caller, ..*old(w) }), heard(*old(w), *final(w), r) { unimplemented!() }
pub mod oneshot { use super::*; #[verifier::external_body] pub fn channel<T>() -> (r: (OneTx<T>, OneRx<T>)) ensures r.0.ch() == r.1.ch() { unimplemented!() } }
pub struct Runtime { pub x: u8 }
impl Runtime {
    #[verifier::external_body]
    pub fn new() -> (r: Result<Runtime, IoError>) ensures r is Ok { unimplemented!() }
    /// the future's body stands in its place
    #[verifier::external_body]
    pub fn block_on<T>(&self, v: T) -> (r: T) ensures r == v { unimplemented!() }
}
pub struct Builder { pub x: u8 }
impl Builder {
    #[verifier::external_body]
    pub fn new_current_thread() -> Builder { unimplemented!() }
    #[verifier::external_body]
    pub fn enable_all(self) -> Builder { unimplemented!() }
    #[verifier::external_body]
    pub fn build(self) -> (r: Result<Runtime, IoError>) ensures r is Ok { unimplemented!() }
}
pub struct Hook { pub x: u8 }
#[verifier::external_body]
pub fn vx_set_hook(h: Hook) { unimplemented!() }
/// the caller of test panics exactly when the application has not ended cleanly
pub open spec fn unclean(c: CPh) -> bool { match c { CPh::Heard(Some(e)) => !clean(e), CPh::Heard(None) => true, _ => false } }
#[verifier::external_body]
pub fn vx_panic_at(w: &mut World) -> ! requires unclean(old(w).caller@) ensures false { unimplemented!() }
pub mod unix {
    use super::*;
    #[derive(Copy, Clone)]
    pub struct SignalKind { pub x: u8 }
    impl SignalKind { #[verifier::external_body] pub fn terminate() -> SignalKind { unimplemented!() } }
    #[verifier::external_body]
    pub struct Signal { x: u8 }
    impl Signal { #[verifier::external_body] pub fn recv(&mut self, w: &mut World) -> (r: Option<()>) requires old(w).ap@ is Listen ensures now(*old(w), *final(w), APh::Signal) { unimplemented!() } }
    #[verifier::external_body]
    pub fn signal(k: SignalKind, w: &mut World) -> (r: Result<Signal, IoError>) ensures *final(w) == *old(w), r is Ok { unimplemented!() }
}
#[verifier::external_body] pub fn ctrl_c(w: &mut World) -> (r: Result<(), IoError>) requires old(w).ap@ is Listen ensures now(*old(w), *final(w), APh::Signal) { unimplemented!() }
/// which branch of a select! wins
#[verifier::external_body]
pub fn vx_pick() -> bool { unimplemented!() }
pub open spec fn started(p: Result<Pid, ExitReason>) -> APh { match p { Ok(p) => APh::Arm(p), Err(e) => APh::Over(e) } }
pub trait Application: Sized {
    fn config(w: &mut World) -> (r: ApplicationConfig) requires old(w).caller@ is Begin ensures then(*old(w), *final(w), CPh::Config(r.graceful_shutdown, r.graceful_shutdown_timeout));
    fn start(&self, w: &mut World) -> (r: Result<Pid, ExitReason>) requires old(w).ap@ is Ready ensures now(*old(w), *final(w), started(r));
}
pub broadcast group vx_axioms { vx_base_axioms, ax_into_pid }
