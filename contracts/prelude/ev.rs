// Spec vocabulary: what a process does, as a trace of events (C10, C11, C16). Process functions record one event each
// (their own contracts: units procs), the mailbox is kept as the list of messages in it.
//@trait GenServer
//@world ev: Ghost<Seq<Ev>>
//@world mail: Ghost<Seq<Mail>>
//@world me: Ghost<Pid>
//@wfn Process::current Process::exit Process::monitor Process::monitor_alias Process::demonitor Process::unlink Process::send Process::send_after Process::register Process::receive Process::spawn Process::spawn_link vx_timed_out vx_mail_begin vx_mail_look vx_mail_keep vx_await T::reply oneshot::channel
//@wmethod vx_select init terminate handle_cast handle_call handle_info send
//@hofn select
//@assume unit gen: Process::{exit, monitor, monitor_alias, demonitor, unlink, send, send_after, register, spawn, spawn_link} are recorded as events of a trace (their contracts are proved in unit procs); while a process waits its mailbox changes arbitrarily; a select returns a message its filter accepts; `remove` shows the filter every message of the mailbox in order (proved for ProcessReceiver in unit procs)
//@assume unit gen: Process::timeout drives a future to its end unless the duration has passed before; a GenServer implementation does not override the provided methods start, call, cast, reply and stop; its callbacks are arbitrary code, one event each
//@assume tokio::sync::oneshot: the receiver gets what the sender sent, or an error when the sender is dropped
pub enum Mail { Sys(SystemMessage), Usr(AnyBox) }
pub open spec fn mailof<T>(m: Message<T>) -> Mail { match m { Message::User(t) => Mail::Usr(anybox(t)), Message::System(s) => Mail::Sys(s) } }
pub open spec fn look<T>(x: Mail) -> Option<Message<T>> { match x { Mail::Sys(s) => Some(Message::System(s)), Mail::Usr(a) => if is_any::<T>(a) { Some(Message::User(any_val::<T>(a))) } else { None } } }
pub open spec fn mref<T: 'static>(m: Message<T>) -> Message<&'static T> { match m { Message::User(u) => Message::User(&u), Message::System(s) => Message::System(s) } }
pub enum Ev {
    Exit(Pid, ExitReason),
    Monitor(Dest, Option<bool>, Reference),
    Demonitor(Reference),
    Unlink(Pid),
    Send(Dests, AnyBox),
    SendAfter(Dests, AnyBox, Duration, Reference),
    Register(Pid, String, bool),
    Got(Mail),
    Limit(Duration, bool),
    Sweep(Seq<Mail>),
    Spawn(bool, Fut, Pid),
    Notify(int, Result<(), ExitReason>),
    Answer(int, Option<Result<(), ExitReason>>),
    Init(Result<(), ExitReason>),
    Terminate(ExitReason),
    HandleCast(AnyBox, Result<(), ExitReason>),
    HandleCall(AnyBox, CallFrom, Result<Option<AnyBox>, ExitReason>),
    HandleInfo(Mail, Result<(), ExitReason>),
    Reply(CallFrom, AnyBox),
}
pub open spec fn did(o: World, n: World, e: Ev) -> bool { n == (World { ev: n.ev, mail: n.mail, ..o }) && n.ev@ == o.ev@.push(e) }
/// one event, and the mailbox is as it was
pub open spec fn only_did(o: World, n: World, e: Ev) -> bool { n == (World { ev: n.ev, ..o }) && n.ev@ == o.ev@.push(e) }
pub open spec fn new_ev(o: World, n: World) -> Seq<Ev> { n.ev@.skip(o.ev@.len() as int) }
pub open spec fn evs(o: World, n: World, s: Seq<Ev>) -> bool { n == (World { ev: n.ev, mail: n.mail, ..o }) && n.ev@ =~= o.ev@ + s }
pub open spec fn only_ev_mail(o: World, n: World) -> bool { n == (World { ev: n.ev, mail: n.mail, ..o }) }
pub uninterp spec fn into_dests<T>(t: T) -> Dests;
pub uninterp spec fn into_dest<T>(t: T) -> Dest;
pub broadcast axiom fn ax_into_dest(d: Dest) ensures #[trigger] into_dest(d) == d;
pub broadcast axiom fn ax_into_dest_pid(p: Pid) ensures #[trigger] into_dest(p) == Dest::Pid(p);
pub broadcast axiom fn ax_into_dests_all(d: Dests) ensures #[trigger] into_dests(d) == d;
pub broadcast axiom fn ax_into_dests_dest(d: Dest) ensures #[trigger] into_dests(d) == Dests::Dest(d);
pub broadcast axiom fn ax_into_dests_pid(p: Pid) ensures #[trigger] into_dests(p) == Dests::Dest(Dest::Pid(p));
pub broadcast axiom fn ax_into_dests_ref(p: Reference) ensures #[trigger] into_dests(p) == Dests::Dest(Dest::Alias(p));
pub struct Fut { pub x: u8 }
pub struct ArgErr { pub x: u8 }
pub struct RecvErr { pub x: u8 }
pub struct SendErr { pub x: u8 }
impl core::fmt::Debug for SendErr { #[verifier::external_body] fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct ProcessReceiver<T> { t: core::marker::PhantomData<T> }
impl<T: 'static> ProcessReceiver<T> {
    #[verifier::external_body]
    pub fn for_message<N>(self) -> (r: ProcessReceiver<N>) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_select<F: Fn(&Message<&T>) -> bool>(self, f: F, w: &mut World) -> (r: Message<T>)
        requires forall|m: &Message<&'static T>| #[trigger] call_requires(f, (m,)),
        ensures did(*old(w), *final(w), Ev::Got(mailof(r))), call_ensures(f, (&mref(r),), true) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_mail_begin<T>(r: &ProcessReceiver<T>, w: &mut World) -> (i: VIter<Mail>)
    ensures did(*old(w), *final(w), Ev::Sweep(old(w).mail@)), final(w).mail@ == Seq::<Mail>::empty(), i.pos() == 0, i.seq() == old(w).mail@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_mail_look<T: 'static>(r: &ProcessReceiver<T>, m: &Mail, w: &mut World) -> (o: Option<Message<&'static T>>)
    ensures *final(w) == *old(w), match look::<T>(*m) { Some(x) => o == Some(mref(x)), None => o is None } { unimplemented!() }
#[verifier::external_body]
pub fn vx_mail_keep(m: Mail, w: &mut World) ensures *final(w) == (World { mail: final(w).mail, ..*old(w) }), final(w).mail@ == old(w).mail@.push(m) { unimplemented!() }
/// whether the duration has passed before the future was done
#[verifier::external_body]
pub fn vx_timed_out(d: Duration, w: &mut World) -> (r: bool) ensures did(*old(w), *final(w), Ev::Limit(d, r)) { unimplemented!() }
pub struct Process { pub x: u8 }
impl Process {
    #[verifier::external_body]
    pub fn current(w: &mut World) -> (r: Pid) ensures *final(w) == *old(w), r == old(w).me@ { unimplemented!() }
    #[verifier::external_body]
    pub fn receiver() -> (r: ProcessReceiver<()>) { unimplemented!() }
    #[verifier::external_body]
    pub fn receive<T: 'static>(w: &mut World) -> (r: Message<T>) ensures did(*old(w), *final(w), Ev::Got(mailof(r))) { unimplemented!() }
    #[verifier::external_body]
    pub fn exit(p: Pid, e: ExitReason, w: &mut World) ensures did(*old(w), *final(w), Ev::Exit(p, e)) { unimplemented!() }
    #[verifier::external_body]
    pub fn monitor<T>(d: T, w: &mut World) -> (r: Reference) ensures did(*old(w), *final(w), Ev::Monitor(into_dest(d), None, r)) { unimplemented!() }
    #[verifier::external_body]
    pub fn monitor_alias<T>(d: T, reply: bool, w: &mut World) -> (r: Reference) ensures did(*old(w), *final(w), Ev::Monitor(into_dest(d), Some(reply), r)) { unimplemented!() }
    #[verifier::external_body]
    pub fn demonitor(r: Reference, w: &mut World) ensures did(*old(w), *final(w), Ev::Demonitor(r)) { unimplemented!() }
    #[verifier::external_body]
    pub fn unlink(p: Pid, w: &mut World) ensures only_did(*old(w), *final(w), Ev::Unlink(p)) { unimplemented!() }
    #[verifier::external_body]
    pub fn send<D, M>(d: D, m: M, w: &mut World) ensures did(*old(w), *final(w), Ev::Send(into_dests(d), anybox(m))) { unimplemented!() }
    #[verifier::external_body]
    pub fn send_after<D, M>(d: D, m: M, t: Duration, w: &mut World) -> (r: Reference) ensures did(*old(w), *final(w), Ev::SendAfter(into_dests(d), anybox(m), t, r)) { unimplemented!() }
    #[verifier::external_body]
    pub fn register(p: Pid, n: String, w: &mut World) -> (r: Result<(), ArgErr>) ensures did(*old(w), *final(w), Ev::Register(p, n, r is Ok)) { unimplemented!() }
    #[verifier::external_body]
    pub fn spawn(f: Fut, w: &mut World) -> (r: Pid) ensures did(*old(w), *final(w), Ev::Spawn(false, f, r)) { unimplemented!() }
    #[verifier::external_body]
    pub fn spawn_link(f: Fut, w: &mut World) -> (r: Pid) ensures did(*old(w), *final(w), Ev::Spawn(true, f, r)) { unimplemented!() }
}
// ---------- the oneshot channel of a starting server
#[verifier::external_body]
pub struct InitTx { x: u8 }
#[verifier::external_body]
pub struct InitRx { x: u8 }
impl InitTx {
    pub uninterp spec fn ch(&self) -> int;
    #[verifier::external_body]
    pub fn send(self, r: Result<(), ExitReason>, w: &mut World) -> (x: Result<(), Result<(), ExitReason>>) ensures did(*old(w), *final(w), Ev::Notify(self.ch(), r)) { unimplemented!() }
}
impl InitRx { pub uninterp spec fn ch(&self) -> int; }
pub mod oneshot {
    use super::*;
    #[verifier::external_body]
    pub fn channel<T>(w: &mut World) -> (r: (InitTx, InitRx)) ensures *final(w) == *old(w), r.0.ch() == r.1.ch() { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_await(rx: InitRx, w: &mut World) -> (r: Result<Result<(), ExitReason>, RecvErr>)
    ensures did(*old(w), *final(w), Ev::Answer(rx.ch(), match r { Ok(x) => Some(x), Err(_) => None })) { unimplemented!() }
pub uninterp spec fn server_fut<T>(g: T, o: GenServerOptions, parent: Option<Pid>, ch: int) -> Fut;
#[verifier::external_body]
pub fn vx_server<T: GenServer>(gen_server: T, options: GenServerOptions, parent: Option<Pid>, tx: InitTx) -> (r: Fut) ensures r == server_fut(gen_server, options, parent, tx.ch()) { unimplemented!() }
// ---------- the callbacks of a server
pub open spec fn any_opt<M>(r: Result<Option<M>, ExitReason>) -> Result<Option<AnyBox>, ExitReason> { match r { Ok(Some(m)) => Ok(Some(anybox(m))), Ok(None) => Ok(None), Err(e) => Err(e) } }
pub trait GenServer: Sized {
    type Message: 'static;
    fn init(&mut self, w: &mut World) -> (r: Result<(), ExitReason>) ensures did(*old(w), *final(w), Ev::Init(r));
    fn terminate(&mut self, e: ExitReason, w: &mut World) ensures did(*old(w), *final(w), Ev::Terminate(e));
    fn handle_cast(&mut self, m: Self::Message, w: &mut World) -> (r: Result<(), ExitReason>) ensures did(*old(w), *final(w), Ev::HandleCast(anybox(m), r));
    fn handle_info(&mut self, m: Message<Self::Message>, w: &mut World) -> (r: Result<(), ExitReason>) ensures did(*old(w), *final(w), Ev::HandleInfo(mailof(m), r));
    fn handle_call(&mut self, m: Self::Message, f: CallFrom, w: &mut World) -> (r: Result<Option<Self::Message>, ExitReason>) ensures did(*old(w), *final(w), Ev::HandleCall(anybox(m), f, any_opt(r)));
    fn reply(f: CallFrom, m: Self::Message, w: &mut World) ensures did(*old(w), *final(w), Ev::Reply(f, anybox(m)));
}
// ---------- calls
pub open spec fn answers<M>(m: Message<GenServerMessage<M>>, tag: Reference) -> bool {
    match m { Message::User(GenServerMessage::CallReply(t, _)) => t == tag, Message::System(SystemMessage::ProcessDown(_, t, _)) => t == tag, _ => false }
}
pub open spec fn is_reply<M>(x: Mail, tag: Reference) -> bool { match look::<GenServerMessage<M>>(x) { Some(Message::User(GenServerMessage::CallReply(t, _))) => t == tag, _ => false } }
pub open spec fn is_down(x: Mail, tag: Reference) -> bool { match x { Mail::Sys(SystemMessage::ProcessDown(_, t, _)) => t == tag, _ => false } }
pub open spec fn no_reply<M>(q: Seq<Mail>, tag: Reference) -> bool { forall|i: int| 0 <= i < q.len() ==> !is_reply::<M>(#[trigger] q[i], tag) }
pub open spec fn unreply<M>(q: Seq<Mail>, tag: Reference) -> Seq<Mail> decreases q.len() { if q.len() == 0 { q } else if is_reply::<M>(q.last(), tag) { unreply::<M>(q.drop_last(), tag) } else { unreply::<M>(q.drop_last(), tag).push(q.last()) } }
pub open spec fn down_reason(x: Mail) -> ExitReason { match x { Mail::Sys(SystemMessage::ProcessDown(_, _, e)) => e, _ => arbitrary() } }
pub open spec fn reply_val<M>(x: Mail) -> M { match look::<GenServerMessage<M>>(x) { Some(Message::User(GenServerMessage::CallReply(_, v))) => v, _ => arbitrary() } }
// ---------- shutdown
pub open spec fn is_exit_of(x: Mail, p: Pid) -> bool { match x { Mail::Sys(SystemMessage::Exit(q, _)) => q == p, _ => false } }
/// the mailbox without the exit messages of p
pub open spec fn flushed(q: Seq<Mail>, p: Pid) -> Seq<Mail> decreases q.len() { if q.len() == 0 { q } else if is_exit_of(q.last(), p) { flushed(q.drop_last(), p) } else { flushed(q.drop_last(), p).push(q.last()) } }
pub open spec fn no_exit_of(q: Seq<Mail>, p: Pid) -> bool { forall|i: int| 0 <= i < q.len() ==> !is_exit_of(#[trigger] q[i], p) }
/// the mailbox was swept and only the exit messages of p are gone
pub open spec fn flush_ok(e: Ev, p: Pid, q: Seq<Mail>) -> bool { e matches Ev::Sweep(b) && q =~= flushed(b, p) && no_exit_of(q, p) }
pub open spec fn sweep_ok<M>(e: Ev, tag: Reference, q: Seq<Mail>) -> bool { e matches Ev::Sweep(b) && q =~= unreply::<M>(b, tag) && no_reply::<M>(q, tag) }
pub open spec fn got_down(e: Ev, tag: Reference) -> bool { e matches Ev::Got(x) && is_down(x, tag) }
pub open spec fn custom(s: Seq<char>) -> ExitReason { ExitReason::Custom(vstr(s)) }
/// kill it, wait for it to be down, unlink
pub open spec fn killed(s: Seq<Ev>, p: Pid, m: Reference, q: Seq<Mail>) -> bool { s.len() == 4 && s[0] == Ev::Exit(p, ExitReason::Kill) && got_down(s[1], m) && s[2] == Ev::Unlink(p) && flush_ok(s[3], p, q) }
/// ask it to shut down, wait for it to be down, unlink
pub open spec fn asked(s: Seq<Ev>, p: Pid, m: Reference, q: Seq<Mail>) -> bool { s.len() == 4 && s[0] == Ev::Exit(p, custom("shutdown"@)) && got_down(s[1], m) && s[2] == Ev::Unlink(p) && flush_ok(s[3], p, q) }
/// ask it to shut down; kill it only when the time is over before it is down
pub open spec fn asked_timeout(s: Seq<Ev>, p: Pid, m: Reference, d: Duration, q: Seq<Mail>) -> bool {
    &&& s.len() >= 4 && s[0] == Ev::Exit(p, custom("shutdown"@))
    &&& (s[1] == Ev::Limit(d, false) && s.len() == 5 && got_down(s[2], m) && s[3] == Ev::Unlink(p) && flush_ok(s[4], p, q)) || (s[1] == Ev::Limit(d, true) && killed(s.skip(2), p, m, q))
}
pub open spec fn shut_by(s: Seq<Ev>, p: Pid, m: Reference, how: Shutdown, q: Seq<Mail>) -> bool {
    match how { Shutdown::BrutalKill => killed(s, p, m, q), Shutdown::Duration(d) => asked_timeout(s, p, m, d, q), Shutdown::Infinity => asked(s, p, m, q) }
}
// ---------- the life of a server as a state machine over its events
pub struct Cfg { pub name: Option<String>, pub timeout: Option<Duration>, pub parent: Pid, pub me: Pid, pub ch: int }
pub enum Ph<M> { Begin, Named, Refused, Timing, Inited(Result<(), ExitReason>), TimedOut, Idle, Cast(M), Call(CallFrom, M), Info(Mail), Answer(CallFrom, AnyBox), Stop(ExitReason), MustExit(ExitReason), Dead, Bad }
pub open spec fn after_handler<M>(r: Result<(), ExitReason>) -> Ph<M> { match r { Ok(_) => Ph::Idle, Err(e) => Ph::Stop(e) } }
pub open spec fn on_message<M>(c: Cfg, x: Mail) -> Ph<M> {
    match look::<GenServerMessage<M>>(x) {
        Some(Message::User(GenServerMessage::Cast(m))) => Ph::Cast(m),
        Some(Message::User(GenServerMessage::Call(f, m))) => Ph::Call(f, m),
        Some(Message::User(GenServerMessage::CallReply(_, m))) => Ph::Info(Mail::Usr(anybox(m))),
        Some(Message::User(GenServerMessage::Stop(e))) => Ph::Stop(e),
        Some(Message::System(SystemMessage::Exit(p, e))) => if p == c.parent { Ph::Stop(e) } else { Ph::Info(x) },
        Some(Message::System(s)) => Ph::Info(x),
        None => Ph::Bad,
    }
}
pub open spec fn same_result(a: Result<(), ExitReason>, b: Result<(), ExitReason>) -> bool { match (a, b) { (Ok(_), Ok(_)) => true, (Err(e), Err(d)) => e == d, _ => false } }
pub open spec fn ph_step<M>(c: Cfg, p: Ph<M>, e: Ev) -> Ph<M> {
    match (p, e) {
        (Ph::Begin, Ev::Register(q, n, ok)) => if q == c.me && c.name == Some(n) { if ok { Ph::Named } else { Ph::Refused } } else { Ph::Bad },
        (Ph::Refused, Ev::Notify(ch, r)) => if ch == c.ch && r == Err::<(), ExitReason>(custom("already_started"@)) { Ph::Dead } else { Ph::Bad },
        (Ph::Named, Ev::Limit(d, over)) => if c.timeout == Some(d) { if over { Ph::TimedOut } else { Ph::Timing } } else { Ph::Bad },
        (Ph::Named, Ev::Init(r)) => if c.timeout is None { Ph::Inited(r) } else { Ph::Bad },
        (Ph::Timing, Ev::Init(r)) => Ph::Inited(r),
        (Ph::TimedOut, Ev::Notify(ch, r)) => if ch == c.ch && r == Err::<(), ExitReason>(custom("timeout"@)) { Ph::MustExit(custom("timeout"@)) } else { Ph::Bad },
        (Ph::Inited(x), Ev::Notify(ch, r)) => if ch == c.ch && same_result(r, x) { match x { Ok(_) => Ph::Idle, Err(e) => Ph::MustExit(e) } } else { Ph::Bad },
        (Ph::Idle, Ev::Got(x)) => on_message::<M>(c, x),
        (Ph::Cast(m), Ev::HandleCast(a, r)) => if a == anybox(m) { after_handler(r) } else { Ph::Bad },
        (Ph::Info(x), Ev::HandleInfo(y, r)) => if x == y { after_handler(r) } else { Ph::Bad },
        (Ph::Call(f, m), Ev::HandleCall(a, g, r)) => if a == anybox(m) && f == g { match r { Ok(Some(v)) => Ph::Answer(f, v), Ok(None) => Ph::Idle, Err(e) => Ph::Stop(e) } } else { Ph::Bad },
        (Ph::Answer(f, v), Ev::Reply(g, u)) => if f == g && v == u { Ph::Idle } else { Ph::Bad },
        (Ph::Stop(e), Ev::Terminate(d)) => if e == d { Ph::MustExit(e) } else { Ph::Bad },
        (Ph::MustExit(e), Ev::Exit(p, d)) => if p == c.me && d == e { Ph::Dead } else { Ph::Bad },
        _ => Ph::Bad,
    }
}
pub open spec fn ph_first<M>(c: Cfg) -> Ph<M> { if c.name is Some { Ph::Begin } else { Ph::Named } }
pub open spec fn ph_run<M>(c: Cfg, base: int, s: Seq<Ev>) -> Ph<M> decreases s.len() { if s.len() <= base || base < 0 { ph_first::<M>(c) } else { ph_step::<M>(c, ph_run::<M>(c, base, s.drop_last()), s.last()) } }
pub broadcast proof fn lm_ph_push<M>(c: Cfg, base: int, s: Seq<Ev>, e: Ev)
    ensures #![trigger ph_run::<M>(c, base, s.push(e))] 0 <= base <= s.len() ==> ph_run::<M>(c, base, s.push(e)) == ph_step::<M>(c, ph_run::<M>(c, base, s), e)
{ assert(s.push(e).drop_last() =~= s); }
pub broadcast proof fn lm_ph_first<M>(c: Cfg, s: Seq<Ev>) ensures #[trigger] ph_run::<M>(c, s.len() as int, s) == ph_first::<M>(c) { }
pub broadcast group vx_axioms { vx_base_axioms, ax_into_dest, ax_into_dest_pid, ax_into_dests_all, ax_into_dests_dest, ax_into_dests_pid, ax_into_dests_ref, lm_ph_push }
pub open spec fn only_new(o: World, n: World, e: Ev) -> bool { only_ev_mail(o, n) && n.ev@ == o.ev@.push(e) }
pub open spec fn answers_ref<M: 'static>(m: Message<&GenServerMessage<M>>, tag: Reference) -> bool {
    match m { Message::User(g) => match *g { GenServerMessage::CallReply(t, _) => t == tag, _ => false }, Message::System(s) => is_down(Mail::Sys(s), tag) }
}
pub open spec fn life(o: GenServerOptions, parent: Option<Pid>, ch: int, me: Pid) -> Cfg { Cfg { name: o.name, timeout: o.timeout, parent: match parent { Some(p) => p, None => me }, me, ch } }
/// the server task was spawned with these arguments and the caller returns what it answered
pub open spec fn started<T>(o: World, n: World, g: T, opt: GenServerOptions, link: bool, r: Result<Pid, ExitReason>) -> bool {
    let s = new_ev(o, n);
    &&& evs(o, n, s) && s.len() == 2 && s[0] is Spawn && s[1] is Answer
    &&& s[0]->Spawn_0 == link && s[0]->Spawn_1 == server_fut(g, opt, if link { Some(o.me@) } else { None }, s[1]->Answer_0)
    &&& match s[1]->Answer_1 { Some(Ok(_)) => r == Ok::<Pid, ExitReason>(s[0]->Spawn_2), Some(Err(e)) => r == Err::<Pid, ExitReason>(e), None => r == Err::<Pid, ExitReason>(custom("unknown"@)) }
}
pub open spec fn waited_stop(s: Seq<Ev>, over: bool, tag: Reference, want: ExitReason, r: Result<(), ExitReason>) -> bool {
    if over { s.len() == 1 && s[0] == Ev::Demonitor(tag) && r == Err::<(), ExitReason>(custom("timeout"@)) }
    else { s.len() == 1 && got_down(s[0], tag) && r == (if down_reason(s[0]->Got_0) == want { Ok::<(), ExitReason>(()) } else { Err::<(), ExitReason>(down_reason(s[0]->Got_0)) }) }
}
pub open spec fn call_answer<M>(s: Seq<Ev>, x: Mail, tag: Reference, r: Result<M, CallError>, mail: Seq<Mail>) -> bool {
    if is_reply::<M>(x, tag) { s.len() == 1 && s[0] == Ev::Demonitor(tag) && r == Ok::<M, CallError>(reply_val::<M>(x)) }
    else { is_down(x, tag) && s.len() == 1 && r == Err::<M, CallError>(CallError::ServerDown(down_reason(x))) && sweep_ok::<M>(s[0], tag, mail) }
}
