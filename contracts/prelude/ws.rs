// A websocket handler's connection as a state machine over what the routine does (C30)
//@trait WebsocketHandler
//@world ph: Ghost<WPh>
//@world me: Ghost<Pid>
//@world sv: Ghost<SPh>
//@world trap: Ghost<bool>
//@world timed: Ghost<Option<Duration>>
//@world cfg: Ghost<WebsocketServerConfig>
//@future start_websocket_handler server_accept server_process
//@wfn _::accept Process::current Process::exit Process::receive Process::spawn Process::spawn_link Process::set_flags TcpListener::bind vx_request vx_answer vx_handshake vx_timed_out
//@wmethod accept websocket_init websocket_handle websocket_info terminate next feed flush send close
//@assume unit ws: tokio-tungstenite's stream yields each frame of the client once and in order and ends only after a close or an error, writes what it is given in order, and like Process::receive loses nothing when its future is dropped before it is ready; tokio::select! runs one branch whose future is ready; SinkExt::send_all is pull, feed, stop at the first error, flush
//@assume unit ws: accept_hdr_async_with_config asks its callback once per request it has read and succeeds only with a response the callback has returned; Process::timeout drives a future to its end unless the duration has passed before
//@assume unit ws: a self exit ends the process no later than its routine returns (C01); a handler's callbacks are arbitrary code, one event each
pub struct Bytes { pub x: Seq<u8> }
impl Clone for Bytes { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body]
pub struct Utf8Bytes { x: u8 }
pub uninterp spec fn utf8(s: String) -> Utf8Bytes;
impl FromSpecImpl<String> for Utf8Bytes { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(s: String) -> Utf8Bytes { utf8(s) } }
impl From<String> for Utf8Bytes { #[verifier::external_body] fn from(s: String) -> (r: Utf8Bytes) { unimplemented!() } }
#[verifier::external_body]
#[derive(Copy, Clone)]
pub struct CloseCode { x: u8 }
pub struct CloseFrame { pub code: CloseCode, pub reason: Utf8Bytes }
pub enum WebsocketMessage { Text(Utf8Bytes), Binary(Bytes), Ping(Bytes), Pong(Bytes), Close(Option<CloseFrame>), Frame(u8) }
impl WebsocketMessage {
    pub fn is_close(&self) -> (r: bool) ensures r == (self is Close) { matches!(self, WebsocketMessage::Close(_)) }
    pub fn is_ping(&self) -> (r: bool) ensures r == (self is Ping) { matches!(self, WebsocketMessage::Ping(_)) }
    pub fn is_pong(&self) -> (r: bool) ensures r == (self is Pong) { matches!(self, WebsocketMessage::Pong(_)) }
}
pub struct ProtocolError { pub x: u8 }
pub enum Error { ConnectionClosed, AlreadyClosed, Io(IoError), Tls(u8), Capacity(u8), Protocol(ProtocolError), WriteBufferFull(u8), Utf8, AttackAttempt, Url(u8), Http(u8), HttpFormat(u8) }
pub struct SmallVec { pub x: u8 }
impl SmallVec { #[verifier::external_body] pub fn new<T>() -> (r: Vec<T>) ensures r@ == Seq::<T>::empty() { unimplemented!() } }
pub open spec fn custom(s: Seq<char>) -> ExitReason { ExitReason::Custom(vstr(s)) }
pub open spec fn reason_of(e: Error) -> ExitReason {
    match e {
        Error::AlreadyClosed => custom("connection_closed"@),
        Error::ConnectionClosed => custom("connection_closed"@),
        Error::Io(_) => custom("io_error"@),
        Error::Tls(_) => custom("tls_error"@),
        Error::Utf8 => custom("utf8_error"@),
        Error::AttackAttempt => custom("attack_attempt"@),
        _ => custom("unknown"@),
    }
}
// ---------- the connection
pub type Answer = Result<Option<WebsocketCommands>, ExitReason>;
pub enum WPh {
    /// websocket_init is due
    Begin,
    Idle,
    /// this message of a process is to be handled
    Info(AnyBox),
    /// this ping is to be answered, then handled
    Ping(Bytes),
    Handle(WebsocketMessage),
    /// these commands are still to be applied; whether the client has closed; whether something waits to be flushed
    Cmds(Seq<WebsocketCommand>, bool, bool),
    Closing(CloseCode, String),
    /// the connection has ended with this reason: terminate, then exit
    Term(ExitReason),
    Exit(ExitReason),
    Dead,
}
pub open spec fn over(closed: bool) -> WPh { if closed { WPh::Term(custom("connection_closed"@)) } else { WPh::Idle } }
pub open spec fn answered(r: Answer, closed: bool) -> WPh { match r { Err(e) => WPh::Term(e), Ok(None) => over(closed), Ok(Some(c)) => WPh::Cmds(c.buffer@, closed, false) } }
pub open spec fn sent(r: Result<(), Error>, p: WPh) -> WPh { match r { Ok(_) => p, Err(e) => WPh::Term(reason_of(e)) } }
pub open spec fn got(r: Option<Result<WebsocketMessage, Error>>) -> WPh {
    match r { Some(Ok(WebsocketMessage::Ping(d))) => WPh::Ping(d), Some(Ok(m)) => WPh::Handle(m), Some(Err(e)) => WPh::Term(reason_of(e)), None => WPh::Term(custom("connection_closed"@)) }
}
pub open spec fn is_send(c: WebsocketCommand, m: WebsocketMessage) -> bool { c == WebsocketCommand::Send(m) }
pub open spec fn next_is_send(p: WPh, m: WebsocketMessage) -> bool { match p { WPh::Cmds(s, _, _) => s.len() > 0 && is_send(s[0], m), _ => false } }
/// the commands before the first close have been fed
pub open spec fn all_fed(p: WPh) -> bool { match p { WPh::Cmds(s, _, _) => s.len() == 0 || s[0] is Close, _ => false } }
pub open spec fn flushed(p: WPh) -> WPh { match p { WPh::Cmds(s, c, _) => WPh::Cmds(s, c, false), _ => p } }
pub open spec fn fed(p: WPh) -> WPh { match p { WPh::Cmds(s, c, _) => WPh::Cmds(s.skip(1), c, true), _ => p } }
/// what is due once the commands before the first close have been written
pub open spec fn due(p: WPh) -> WPh { match p { WPh::Cmds(s, c, dirty) => if s.len() == 0 { if dirty { p } else { over(c) } } else { match s[0] { WebsocketCommand::Close(code, why) => WPh::Closing(code, why), _ => p } }, _ => p } }
pub open spec fn pings(p: WPh, m: WebsocketMessage) -> bool { p matches WPh::Ping(d) && m == WebsocketMessage::Pong(d) }
pub open spec fn sending(p: WPh) -> WPh { match p { WPh::Ping(d) => WPh::Handle(WebsocketMessage::Ping(d)), _ => flushed(fed(p)) } }
pub open spec fn now(o: World, n: World, p: WPh) -> bool { n == (World { ph: n.ph, ..o }) && n.ph@ == p }
pub open spec fn closes(p: WPh, f: Option<CloseFrame>) -> bool { due(p) matches WPh::Closing(code, why) && f == Some(CloseFrame { code, reason: utf8(why) }) }
#[verifier::external_body]
#[verifier::reject_recursive_types(S)]
pub struct WebSocketStream<S> { s: core::marker::PhantomData<S> }
impl<S> WebSocketStream<S> {
    #[verifier::external_body]
    pub fn next(&mut self, w: &mut World) -> (r: Option<Result<WebsocketMessage, Error>>)
        requires due(old(w).ph@) is Idle
        ensures r is Some, now(*old(w), *final(w), got(r)) { unimplemented!() }
    /// the next command's message
    #[verifier::external_body]
    pub fn feed(&mut self, m: WebsocketMessage, w: &mut World) -> (r: Result<(), Error>)
        requires next_is_send(old(w).ph@, m)
        ensures now(*old(w), *final(w), sent(r, fed(old(w).ph@))) { unimplemented!() }
    #[verifier::external_body]
    pub fn flush(&mut self, w: &mut World) -> (r: Result<(), Error>)
        requires all_fed(old(w).ph@)
        ensures now(*old(w), *final(w), sent(r, flushed(old(w).ph@))) { unimplemented!() }
    /// the answer of a ping, or the next command's message at once
    #[verifier::external_body]
    pub fn send(&mut self, m: WebsocketMessage, w: &mut World) -> (r: Result<(), Error>)
        requires pings(old(w).ph@, m) || next_is_send(old(w).ph@, m)
        ensures now(*old(w), *final(w), sent(r, sending(old(w).ph@))) { unimplemented!() }
    #[verifier::external_body]
    pub fn close(&mut self, f: Option<CloseFrame>, w: &mut World) -> (r: Result<(), Error>)
        requires closes(old(w).ph@, f)
        ensures now(*old(w), *final(w), sent(r, WPh::Term(ExitReason::Normal))) { unimplemented!() }
}
pub struct Process { pub x: u8 }
impl Process {
    #[verifier::external_body]
    pub fn current(w: &mut World) -> (r: Pid) ensures *final(w) == *old(w), r == old(w).me@ { unimplemented!() }
    #[verifier::external_body]
    pub fn exit(p: Pid, e: ExitReason, w: &mut World)
        requires may_exit(*old(w), p, e)
        ensures exited(*old(w), *final(w), p) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_flags(f: ProcessFlags, w: &mut World) ensures *final(w) == (World { trap: final(w).trap, ..*old(w) }), final(w).trap@ == (f == ProcessFlags::TRAP_EXIT) { unimplemented!() }
    #[verifier::external_body]
    pub fn spawn(f: Fut, w: &mut World) -> (r: Pid) requires spawns(*old(w), f@) ensures next(*old(w), *final(w), SPh::Served) { unimplemented!() }
    #[verifier::external_body]
    pub fn spawn_link(f: Fut, w: &mut World) -> (r: Pid) requires spawns_linked(*old(w), f@) ensures next(*old(w), *final(w), SPh::Up(r, f@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn receive<T: 'static>(w: &mut World) -> (r: Message<T>)
        requires due(old(w).ph@) is Idle
        ensures now(*old(w), *final(w), WPh::Info(anybox(r))) { unimplemented!() }
}
#[derive(Copy, Clone)]
pub struct WebSocketConfig { pub max_message_size: Option<usize>, pub max_frame_size: Option<usize> }
pub uninterp spec fn default_message_size() -> Option<usize>;
pub uninterp spec fn default_frame_size() -> Option<usize>;
impl WebSocketConfig { #[verifier::external_body] pub fn default() -> (r: Self) ensures r.max_message_size == default_message_size(), r.max_frame_size == default_frame_size() { unimplemented!() }
    pub fn max_message_size(self, n: Option<usize>) -> (r: Self) ensures r == (WebSocketConfig { max_message_size: n, ..self }) { WebSocketConfig { max_message_size: n, ..self } }
    pub fn max_frame_size(self, n: Option<usize>) -> (r: Self) ensures r == (WebSocketConfig { max_frame_size: n, ..self }) { WebSocketConfig { max_frame_size: n, ..self } }
}
// ---------- the server
/// values of any type, for comparison only
pub uninterp spec fn any<T>(x: T) -> int;
pub enum Task { Handler(int, int), Accept(int, SocketAddr, WebsocketServerConfig), Server(int, WebsocketServerConfig) }
pub enum SPh {
    Init, Bound(int, SocketAddr), Failed(ErrorKind), Up(Pid, Task),
    /// waiting for connections; this one is to be served
    Listening, Conn(int, SocketAddr), Served,
    /// a connection's handshake: nothing read, request read, accepted with this handler, refused, done
    Fresh(int, SocketAddr, WebsocketServerConfig), Asked(int, SocketAddr, Request, Response), Taken(int, int, Response), Refused(int), Open(int, int), Over,
}
pub open spec fn spawns(w: World, t: Task) -> bool { match t { Task::Handler(h, s) => w.sv@ == SPh::Open(h, s), Task::Accept(s, a, c) => w.sv@ == SPh::Conn(s, a) && c == w.cfg@, _ => false } }
pub open spec fn spawns_linked(w: World, t: Task) -> bool { match t { Task::Server(l, c) => w.sv@ == SPh::Bound(l, c.address), _ => false } }
pub open spec fn may_exit(w: World, p: Pid, e: ExitReason) -> bool { if w.sv@ is Up { w.sv@->Up_0 == p && e is Kill } else { p == w.me@ && w.ph@ == WPh::Exit(e) } }
pub open spec fn exited(o: World, n: World, p: Pid) -> bool { if o.sv@ is Up { next(o, n, SPh::Over) } else { now(o, n, WPh::Dead) } }
pub open spec fn next(o: World, n: World, p: SPh) -> bool { n == (World { sv: n.sv, ..o }) && n.sv@ == p }
pub enum ErrorKind { AddrInUse, AddrNotAvailable, WouldBlock, Other }
impl IoError { pub uninterp spec fn k(&self) -> ErrorKind; #[verifier::external_body] pub fn kind(&self) -> (r: ErrorKind) ensures r == self.k() { unimplemented!() } }
pub open spec fn bind_failure(k: ErrorKind) -> ExitReason { match k { ErrorKind::AddrInUse => custom("address_in_use"@), ErrorKind::AddrNotAvailable => custom("address_not_available"@), ErrorKind::WouldBlock => custom("would_block"@), _ => custom("unknown"@) } }
#[verifier::external_body]
pub struct TcpListener { x: u8 }
#[verifier::external_body]
pub struct TcpStream { x: u8 }
impl TcpListener {
    #[verifier::external_body]
    pub fn bind(a: SocketAddr, w: &mut World) -> (r: Result<TcpListener, IoError>)
        requires old(w).sv@ is Init
        ensures next(*old(w), *final(w), match r { Ok(l) => SPh::Bound(any(l), a), Err(e) => SPh::Failed(e.k()) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn accept(&self, w: &mut World) -> (r: Result<(TcpStream, SocketAddr), IoError>)
        requires listening(old(w).sv@)
        ensures next(*old(w), *final(w), match r { Ok((s, a)) => SPh::Conn(any(s), a), Err(_) => SPh::Listening }) { unimplemented!() }
}
pub open spec fn listening(p: SPh) -> bool { p is Listening || p is Served }
#[verifier::external_body]
pub struct Fut { x: u8 }
impl View for Fut { type V = Task; uninterp spec fn view(&self) -> Task; }
#[verifier::external_body]
pub fn vx_fut_start_websocket_handler<T, S>(handler: T, stream: WebSocketStream<S>) -> (r: Fut) ensures r@ == Task::Handler(any(handler), stream.id()) { unimplemented!() }
#[verifier::external_body]
pub fn vx_fut_server_accept<S>(stream: S, address: SocketAddr, config: WebsocketServerConfig) -> (r: Fut) ensures r@ == Task::Accept(any(stream), address, config) { unimplemented!() }
#[verifier::external_body]
pub fn vx_fut_server_process(server: TcpListener, config: WebsocketServerConfig) -> (r: Fut) ensures r@ == Task::Server(any(server), config) { unimplemented!() }
#[verifier::external_body]
pub struct Request { x: u8 }
#[verifier::external_body]
pub struct Response { x: u8 }
pub type WebsocketRequest = Request;
pub type WebsocketResponse = Response;
#[verifier::external_body]
pub struct ErrorResponse { x: u8 }
impl ErrorResponse { #[verifier::external_body] pub fn new(s: Option<String>) -> Self { unimplemented!() } }
/// a handshake in progress on this stream
#[verifier::external_body]
#[verifier::reject_recursive_types(S)]
pub struct Hs<S> { s: core::marker::PhantomData<S> }
impl<S> Hs<S> { pub uninterp spec fn id(&self) -> int; }
impl<S> WebSocketStream<S> { pub uninterp spec fn id(&self) -> int; }
pub open spec fn limits(c: Option<WebSocketConfig>, k: WebsocketServerConfig) -> bool { c matches Some(c) && c.max_message_size == k.max_message_size && c.max_frame_size == k.max_frame_size }
pub open spec fn fresh(w: World, s: int, c: Option<WebSocketConfig>) -> bool { w.sv@ matches SPh::Fresh(t, a, k) && t == s && limits(c, k) && w.timed@ == k.handshake_timeout }
pub open spec fn asked(p: SPh, q: Request, a: Response) -> SPh { match p { SPh::Fresh(s, x, _) => SPh::Asked(s, x, q, a), _ => p } }
#[verifier::external_body]
pub fn vx_handshake<S>(s: S, c: Option<WebSocketConfig>, w: &mut World) -> (r: Hs<S>) requires fresh(*old(w), any(s), c) ensures *final(w) == *old(w), r.id() == any(s) { unimplemented!() }
#[verifier::external_body]
pub fn vx_request<S>(h: &Hs<S>, w: &mut World) -> (r: Result<(Request, Response), Error>)
    requires old(w).sv@ is Fresh
    ensures match r { Ok((q, a)) => next(*old(w), *final(w), asked(old(w).sv@, q, a)), Err(_) => next(*old(w), *final(w), SPh::Over) } { unimplemented!() }
pub open spec fn answers(p: SPh, s: int, r: Result<Response, ErrorResponse>) -> bool { match r { Ok(a) => p matches SPh::Taken(t, _, b) && t == s && a == b, Err(_) => p == SPh::Refused(s) } }
pub open spec fn opened(p: SPh, s: int) -> SPh { match p { SPh::Taken(_, h, _) => SPh::Open(h, s), _ => SPh::Over } }
#[verifier::external_body]
pub fn vx_answer<S>(h: Hs<S>, r: Result<Response, ErrorResponse>, w: &mut World) -> (x: Result<WebSocketStream<S>, Error>)
    requires answers(old(w).sv@, h.id(), r)
    ensures match x { Ok(s) => r is Ok && next(*old(w), *final(w), opened(old(w).sv@, s.id())), Err(_) => next(*old(w), *final(w), SPh::Over) } { unimplemented!() }
/// what a handler's accept has decided
pub open spec fn decided(p: SPh, r: Result<(Response, int), ExitReason>) -> SPh { match p { SPh::Asked(s, _, _, _) => match r { Ok((a, h)) => SPh::Taken(s, h, a), Err(_) => SPh::Refused(s) }, _ => p } }
pub open spec fn asks(p: SPh, address: SocketAddr, q: Request, a: Response) -> bool { p matches SPh::Asked(_, x, q1, a1) && x == address && q1 == q && a1 == a }
pub open spec fn verdict<T>(r: Result<(Response, T), ExitReason>) -> Result<(Response, int), ExitReason> { match r { Ok((a, h)) => Ok((a, any(h))), Err(e) => Err(e) } }
/// whether the duration has passed before the future was done
#[verifier::external_body]
pub fn vx_timed_out(d: Duration, w: &mut World) -> (r: bool) requires old(w).timed@ is None ensures r ==> next(*old(w), *final(w), SPh::Over), !r ==> *final(w) == (World { timed: final(w).timed, ..*old(w) }) && final(w).timed@ == Some(d) { unimplemented!() }
/// which branch of a select! wins
#[verifier::external_body]
pub fn vx_pick() -> bool { unimplemented!() }
pub trait WebsocketHandler: Sized {
    type Message: 'static;
    fn accept(address: SocketAddr, request: &Request, response: Response, w: &mut World) -> (r: Result<(Response, Self), ExitReason>) requires asks(old(w).sv@, address, *request, response) ensures next(*old(w), *final(w), decided(old(w).sv@, verdict(r)));
    fn websocket_init(&mut self, w: &mut World) -> (r: Answer) requires old(w).ph@ is Begin ensures now(*old(w), *final(w), answered(r, false));
    fn websocket_handle(&mut self, m: WebsocketMessage, w: &mut World) -> (r: Answer) requires old(w).ph@ == WPh::Handle(m) ensures now(*old(w), *final(w), answered(r, m is Close));
    fn websocket_info(&mut self, m: Message<Self::Message>, w: &mut World) -> (r: Answer) requires old(w).ph@ == WPh::Info(anybox(m)) ensures now(*old(w), *final(w), answered(r, false));
    fn terminate(&mut self, e: ExitReason, w: &mut World) requires due(old(w).ph@) == WPh::Term(e) ensures now(*old(w), *final(w), WPh::Exit(e));
}
pub broadcast group vx_axioms { vx_base_axioms }
