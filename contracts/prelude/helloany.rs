// A peer that may do anything: late, silent, wrong (C20)
pub open spec fn wants(o: Option<(String, SocketAddr)>, a: SocketAddr) -> bool { o matches Some(p) && p.1 == a }
pub open spec fn accept_may(r: bool) -> bool { true }
impl Writer {
    /// the first frame that is written is the own hello
    #[verifier::external_body]
    pub fn send(&mut self, f: Frame, w: &mut World) -> (r: Result<(), IoError>)
        requires old(self).id() == old(w).conn@, old(w).said@.len() == 0, own_hello(*old(w), f), hello_ok(old(w).NODE_COOKIE, f->Hello_0)
        ensures final(self).id() == old(self).id(), *final(w) == (World { said: final(w).said, NODE_COOKIE: final(w).NODE_COOKIE, ..*old(w) }), final(w).said@ == old(w).said@.push(f) { unimplemented!() }
}
impl Reader {
    #[verifier::external_body]
    pub fn next(&mut self, w: &mut World) -> (r: Option<Result<Frame, IoError>>)
        requires old(self).id() == old(w).conn@
        ensures final(self).id() == old(self).id(), *final(w) == (World { got: final(w).got, NODE_COOKIE: final(w).NODE_COOKIE, ..*old(w) }), final(w).got@ == (match r { Some(Ok(f)) => old(w).got@.push(f), _ => old(w).got@ }) { unimplemented!() }
}
impl TcpStream {
    #[verifier::external_body]
    pub fn connect(a: SocketAddr, w: &mut World) -> (r: Result<TcpStream, IoError>)
        requires wants(old(w).want@, a)
        ensures waited(*old(w), *final(w), Ev::Connect(a)), r matches Ok(s) ==> s.id() == old(w).conn@ { unimplemented!() }
}
impl TcpListener {
    #[verifier::external_body]
    pub fn bind(a: SocketAddr, w: &mut World) -> (r: Result<TcpListener, IoError>) ensures waited(*old(w), *final(w), Ev::Bound(a)) { unimplemented!() }
    /// the next connection; the one before was given to its accepter
    #[verifier::external_body]
    pub fn accept(&self, w: &mut World) -> (r: Result<(TcpStream, SocketAddr), IoError>)
        requires old(w).ev@.len() > 0, !(old(w).ev@.last() is Socket)
        ensures match r { Ok(p) => waited(*old(w), *final(w), Ev::Socket(p.0.id())), Err(_) => *final(w) == (World { NODE_COOKIE: final(w).NODE_COOKIE, ..*old(w) }) } { unimplemented!() }
}
impl Process {
    #[verifier::external_body]
    pub fn receive<T: 'static>(w: &mut World) -> (r: Message<T>) ensures waited(*old(w), *final(w), Ev::Received(anybox(r))), own_msg(anybox(r), final(w).own@) { unimplemented!() }
}
#[verifier::external_body]
pub fn node_local_process(w: &mut World) -> (r: Option<Pid>) ensures *final(w) == *old(w) { unimplemented!() }
#[verifier::external_body]
pub fn vx_timed_out(d: Duration, w: &mut World) -> (r: bool) ensures *final(w) == (World { NODE_COOKIE: final(w).NODE_COOKIE, ..*old(w) }), !r ==> *final(w) == *old(w) { unimplemented!() }
