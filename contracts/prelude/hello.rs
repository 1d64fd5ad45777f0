// The handshake of a connection (C20): what this side reads, what it writes and what it does, in order.
// Every function with an effect states when the handshake allows it, so paths that end in a panic are covered too.
//@world got: Ghost<Seq<Frame>>
//@world said: Ghost<Seq<Frame>>
//@world ev: Ghost<Seq<Ev>>
//@world me: Ghost<Pid>
//@world conn: Ghost<int>
//@world own: Ghost<(String, SocketAddr)>
//@world want: Ghost<Option<(String, SocketAddr)>>
//@future node_remote_supervisor node_remote_accepter node_remote_sender node_remote_receiver node_local_listener
//@wmethod next accept send
//@wfn vx_timed_out Process::current Process::link Process::send Process::receive Process::spawn Process::spawn_link Process::set_flags TcpStream::connect TcpListener::bind node_accept node_register node_register_workers node_local_process node_send_frame node_remote_supervisor_down node_forward_send
//@assume units hello, hellonp: the socket functions of tokio and the framing of tokio-util (its codec: unit codec); other tasks may change the cookie whenever this one waits; Process and node_registry functions are recorded as events (their contracts: units procs and node)
//@assume units hello, hellonp: hmac and sha2 compute a function of the key and of the concatenated data (uninterpreted); str::as_bytes is an injective encoding whose only zero byte stands for the character zero, the text of an address has no zero byte
pub enum Ev {
    Flags(ProcessFlags),
    Link(Pid),
    Sent(Dest, AnyBox),
    Received(AnyBox),
    Connect(SocketAddr),
    Bound(SocketAddr),
    Socket(int),
    Accept(Node, Pid, bool),
    Spawn(bool, Task, Pid),
    Workers(Node, Pid, Pid),
}
pub enum Task {
    Accepter(int, NodeLocalSupervisor),
    Supervisor(int, int, String, SocketAddr, NodeLocalSupervisor),
    Sender(int, NodeRemoteSupervisor),
    Receiver(int, NodeRemoteSupervisor),
    Listener(NodeLocalSupervisor),
}
pub open spec fn did(o: World, n: World, e: Ev) -> bool { n == (World { ev: n.ev, ..o }) && n.ev@ == o.ev@.push(e) }
/// the same, and the cookie may have changed meanwhile
pub open spec fn waited(o: World, n: World, e: Ev) -> bool { n == (World { ev: n.ev, NODE_COOKIE: n.NODE_COOKIE, ..o }) && n.ev@ == o.ev@.push(e) }
pub uninterp spec fn into_dest<T>(t: T) -> Dest;
pub broadcast axiom fn ax_into_dest_pid(p: Pid) ensures #[trigger] into_dest(p) == Dest::Pid(p);

// ---------- codes
pub uninterp spec fn mac(key: Seq<u8>, data: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
pub open spec fn addr_text(a: SocketAddr) -> Seq<char> { a.shown() }
pub axiom fn ax_utf8(a: Seq<char>, b: Seq<char>) requires utf8(a) == utf8(b) ensures a == b;
pub axiom fn ax_addr_text(a: SocketAddr) ensures !utf8(addr_text(a)).contains(0u8);
pub open spec fn key_of(cookie: Option<String>) -> Seq<u8> { match cookie { Some(c) => utf8(c@), None => seq![0u8] } }
/// what a code signs
pub open spec fn signed(name: String, addr: SocketAddr) -> Seq<u8> { utf8(name@) + seq![0u8] + utf8(addr_text(addr)) }
pub open spec fn code(cookie: Option<String>, name: String, addr: SocketAddr) -> Seq<u8> { mac(key_of(cookie), signed(name, addr)) }
pub open spec fn hello_ok(cookie: Option<String>, h: Hello) -> bool { h.challenge@ == code(cookie, h.name, h.broadcast_address) }
/// a code signs exactly one name and one address: what is signed determines both
pub proof fn lm_signed(n1: String, a1: SocketAddr, n2: String, a2: SocketAddr)
    requires signed(n1, a1) == signed(n2, a2)
    ensures n1@ == n2@, addr_text(a1) == addr_text(a2)
{
    let (x1, t1, x2, t2) = (utf8(n1@), utf8(addr_text(a1)), utf8(n2@), utf8(addr_text(a2)));
    ax_addr_text(a1); ax_addr_text(a2);
    let s = signed(n1, a1);
    assert(s.len() == x1.len() + 1 + t1.len() && s.len() == x2.len() + 1 + t2.len());
    assert(s[x1.len() as int] == 0u8 && s[x2.len() as int] == 0u8);
    if x1.len() < x2.len() { assert(t1[x2.len() - x1.len() - 1] == 0u8); }
    if x2.len() < x1.len() { assert(signed(n2, a2)[x1.len() as int] == t2[x1.len() - x2.len() - 1]); assert(t2[x1.len() - x2.len() - 1] == 0u8); }
    assert(x1 =~= x2) by { assert(s.take(x1.len() as int) =~= x1); assert(signed(n2, a2).take(x2.len() as int) =~= x2); }
    assert(t1 =~= t2) by { assert(s.skip(x1.len() as int + 1) =~= t1); assert(signed(n2, a2).skip(x2.len() as int + 1) =~= t2); }
    ax_utf8(n1@, n2@); ax_utf8(addr_text(a1), addr_text(a2));
}
#[verifier::external_body]
pub struct HmacSha256 { x: u8 }
pub struct MacError { pub x: u8 }
impl core::fmt::Debug for MacError { #[verifier::external_body] fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
impl HmacSha256 {
    pub uninterp spec fn key(&self) -> Seq<u8>;
    pub uninterp spec fn data(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new_from_slice(k: &[u8]) -> (r: Result<HmacSha256, MacError>) ensures r is Ok, r->Ok_0.key() == k@, r->Ok_0.data() == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn update(&mut self, d: &[u8]) ensures final(self).key() == old(self).key(), final(self).data() == old(self).data() + d@ { unimplemented!() }
    #[verifier::external_body]
    pub fn finalize(self) -> (r: MacOut) ensures r@ == mac(self.key(), self.data()) { unimplemented!() }
    #[verifier::external_body]
    pub fn verify_slice(self, d: &[u8]) -> (r: Result<(), MacError>) ensures r is Ok <==> d@ == mac(self.key(), self.data()) { unimplemented!() }
}
#[verifier::external_body]
pub struct MacOut { x: u8 }
impl View for MacOut { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl MacOut {
    #[verifier::external_body]
    pub fn into_bytes(self) -> (r: MacOut) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn to_vec(&self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn as_slice<'a>(&'a self) -> (r: &'a [u8]) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
}
pub trait VxSub { spec fn bytes(&self) -> Seq<u8>; fn vx_sub<'a>(&'a self, a: usize, b: usize) -> (r: &'a [u8]) requires a <= b <= self.bytes().len() ensures r@ == self.bytes().subrange(a as int, b as int), a == 0 && b == self.bytes().len() ==> r@ == self.bytes(); }
impl VxSub for [u8] { open spec fn bytes(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn vx_sub<'a>(&'a self, a: usize, b: usize) -> (r: &'a [u8]) { unimplemented!() } }
impl VxSub for Vec<u8> { open spec fn bytes(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn vx_sub<'a>(&'a self, a: usize, b: usize) -> (r: &'a [u8]) { unimplemented!() } }
impl VxSub for MacOut { open spec fn bytes(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn vx_sub<'a>(&'a self, a: usize, b: usize) -> (r: &'a [u8]) { unimplemented!() } }
pub broadcast axiom fn ax_bytes1() ensures #[trigger] <&[u8] as PartialEqSpec<Vec<u8>>>::obeys_eq_spec();
pub broadcast axiom fn ax_bytes2(a: &[u8], b: Vec<u8>) ensures #![trigger PartialEqSpec::<Vec<u8>>::eq_spec(&a, &b)] PartialEqSpec::<Vec<u8>>::eq_spec(&a, &b) == (a@ == b@);
pub broadcast axiom fn ax_bytes3() ensures #[trigger] <[u8] as PartialEqSpec<[u8]>>::obeys_eq_spec();
pub broadcast axiom fn ax_bytes4(a: &[u8], b: &[u8]) ensures #![trigger PartialEqSpec::<[u8]>::eq_spec(a, b)] PartialEqSpec::<[u8]>::eq_spec(a, b) == (a@ == b@);
pub assume_specification[ String::as_bytes ](s: &String) -> (r: &[u8]) ensures r@ == utf8(s@);

// ---------- sockets
#[verifier::external_body]
pub struct TcpStream { x: u8 }
#[verifier::external_body]
pub struct TcpListener { x: u8 }
#[verifier::external_body]
pub struct Framed { x: u8 }
#[verifier::external_body]
pub struct Writer { x: u8 }
#[verifier::external_body]
pub struct Reader { x: u8 }
impl TcpStream { pub uninterp spec fn id(&self) -> int; #[verifier::external_body] pub fn set_nodelay(&self, b: bool) -> (r: Result<(), IoError>) { unimplemented!() } }
impl Framed {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn new(s: TcpStream, c: Codec) -> (r: Framed) ensures r.id() == s.id() { unimplemented!() }
    #[verifier::external_body]
    pub fn split(self) -> (r: (Writer, Reader)) ensures r.0.id() == self.id(), r.1.id() == self.id() { unimplemented!() }
}
impl Writer { pub uninterp spec fn id(&self) -> int; }
impl Reader { pub uninterp spec fn id(&self) -> int; }
impl<T> core::ops::Deref for Local<T> { type Target = T; fn deref(&self) -> (r: &T) ensures *r == self.0 { &self.0 } }
#[verifier::external_body]
pub fn vx_fut_node_remote_supervisor(writer: Writer, reader: Reader, hello: Hello, supervisor: NodeLocalSupervisor) -> (r: Fut) ensures r@ == Task::Supervisor(writer.id(), reader.id(), hello.name, hello.broadcast_address, supervisor) { unimplemented!() }
#[verifier::external_body]
pub fn vx_fut_node_remote_accepter(socket: TcpStream, supervisor: NodeLocalSupervisor) -> (r: Fut) ensures r@ == Task::Accepter(socket.id(), supervisor) { unimplemented!() }
#[verifier::external_body]
pub fn vx_fut_node_remote_sender(writer: Writer, supervisor: NodeRemoteSupervisor) -> (r: Fut) ensures r@ == Task::Sender(writer.id(), supervisor) { unimplemented!() }
#[verifier::external_body]
pub fn vx_fut_node_remote_receiver(reader: Reader, supervisor: NodeRemoteSupervisor) -> (r: Fut) ensures r@ == Task::Receiver(reader.id(), supervisor) { unimplemented!() }
#[verifier::external_body]
pub fn vx_fut_node_local_listener(supervisor: NodeLocalSupervisor) -> (r: Fut) ensures r@ == Task::Listener(supervisor) { unimplemented!() }
#[verifier::external_body]
pub struct Fut { x: u8 }
impl View for Fut { type V = Task; uninterp spec fn view(&self) -> Task; }

// ---------- what the handshake allows
/// this side has read exactly one frame, a hello that authenticates this name and address under the cookie (and the node asked for, if one was)
pub open spec fn admitted(w: World, name: String, addr: SocketAddr) -> bool { the_hello(w.got@, w.want@, name, addr) && hello_ok(w.NODE_COOKIE, w.got@[0]->Hello_0) }
pub open spec fn the_hello(got: Seq<Frame>, want: Option<(String, SocketAddr)>, name: String, addr: SocketAddr) -> bool {
    got.len() == 1 && got[0] is Hello && got[0]->Hello_0.name == name && got[0]->Hello_0.broadcast_address == addr && (want is Some ==> want == Some((name, addr)))
}
pub open spec fn hello_node(w: World) -> Node { Node::Remote(w.got@[0]->Hello_0.name, w.got@[0]->Hello_0.broadcast_address) }
pub open spec fn own_hello(w: World, f: Frame) -> bool { f is Hello && f->Hello_0.name == w.own@.0 && f->Hello_0.broadcast_address == w.own@.1 }
/// the node of the hello was accepted with this process as its supervisor
pub open spec fn accepted(s: Seq<Ev>, me: Pid, node: Node) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == Ev::Accept(node, me, true) }
pub open spec fn spawned(s: Seq<Ev>, t: Task, p: Pid) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == Ev::Spawn(true, t, p) }
pub open spec fn may_spawn(w: World, link: bool, t: Task) -> bool {
    match t {
        Task::Accepter(c, ls) => w.ev@.len() > 0 && w.ev@.last() == Ev::Socket(c) && ls.name == w.own@.0 && ls.options.broadcast_address == w.own@.1,
        Task::Supervisor(a, b, name, addr, ls) => a == w.conn@ && b == w.conn@ && admitted(w, name, addr),
        Task::Sender(c, s) => link && c == w.conn@ && serving(w, s),
        Task::Receiver(c, s) => link && c == w.conn@ && serving(w, s),
        Task::Listener(ls) => link && ls.name == w.own@.0 && ls.options.broadcast_address == w.own@.1,
    }
}
pub open spec fn serving(w: World, s: NodeRemoteSupervisor) -> bool { w.got@.len() == 1 && w.got@[0] is Hello && s.node == hello_node(w) && s.process == w.me@ && accepted(w.ev@, w.me@, hello_node(w)) }
/// before the peer is admitted only the own supervisor is talked to
pub open spec fn admitted_ev(w: World) -> bool { w.got@.len() == 1 && w.got@[0] is Hello && accepted(w.ev@, w.me@, hello_node(w)) }
pub struct Process { pub x: u8 }
impl Process {
    #[verifier::external_body]
    pub fn current(w: &mut World) -> (r: Pid) ensures *final(w) == *old(w), r == old(w).me@ { unimplemented!() }
    #[verifier::external_body]
    pub fn set_flags(f: ProcessFlags, w: &mut World) ensures did(*old(w), *final(w), Ev::Flags(f)) { unimplemented!() }
    #[verifier::external_body]
    pub fn link(p: Pid, w: &mut World) ensures did(*old(w), *final(w), Ev::Link(p)) { unimplemented!() }
    #[verifier::external_body]
    pub fn send<D, M>(d: D, m: M, w: &mut World) requires old(w).got@.len() == 0 || admitted_ev(*old(w)) ensures did(*old(w), *final(w), Ev::Sent(into_dest(d), anybox(m))) { unimplemented!() }
    #[verifier::external_body]
    pub fn spawn(f: Fut, w: &mut World) -> (r: Pid) requires may_spawn(*old(w), false, f@) ensures did(*old(w), *final(w), Ev::Spawn(false, f@, r)) { unimplemented!() }
    #[verifier::external_body]
    pub fn spawn_link(f: Fut, w: &mut World) -> (r: Pid) requires may_spawn(*old(w), true, f@) ensures did(*old(w), *final(w), Ev::Spawn(true, f@, r)) { unimplemented!() }
}
#[verifier::external_body]
pub fn node_accept(node: Node, supervisor: Pid, w: &mut World) -> (r: bool)
    requires old(w).got@.len() == 1, old(w).got@[0] is Hello, node == hello_node(*old(w)), supervisor == old(w).me@
    ensures did(*old(w), *final(w), Ev::Accept(node, supervisor, r)), accept_may(r) { unimplemented!() }
#[verifier::external_body]
pub fn node_register_workers(node: Node, sender: Pid, receiver: Pid, w: &mut World)
    requires admitted_ev(*old(w)), node == hello_node(*old(w))
    ensures did(*old(w), *final(w), Ev::Workers(node, sender, receiver)) { unimplemented!() }
#[verifier::external_body]
pub fn node_register(node: Node, connect: bool, w: &mut World) -> (r: u64) requires admitted_ev(*old(w)), node == hello_node(*old(w)) ensures *final(w) == *old(w) { unimplemented!() }
#[verifier::external_body]
pub fn node_send_frame(f: Frame, n: u64, w: &mut World) requires admitted_ev(*old(w)) ensures *final(w) == *old(w) { unimplemented!() }
#[verifier::external_body]
pub fn node_forward_send(f: Send, w: &mut World) requires false ensures *final(w) == *old(w) { unimplemented!() }
#[verifier::external_body]
pub fn node_remote_supervisor_down(node: Node, p: Pid, w: &mut World) requires false ensures *final(w) == *old(w) { unimplemented!() }

/// the own supervisor describes itself in its answer
pub open spec fn own_msg(a: AnyBox, own: (String, SocketAddr)) -> bool {
    is_any::<Message<NodeRemoteConnectorMessage>>(a) ==> match any_val::<Message<NodeRemoteConnectorMessage>>(a) { Message::User(NodeRemoteConnectorMessage::LocalNodeSupervisor(l)) => l.0.name == own.0 && l.0.options.broadcast_address == own.1, _ => true }
}
/// the node is accepted, then both workers run on this connection and are registered, in this order
pub open spec fn sup_ready(s0: Seq<Ev>, s: Seq<Ev>, w: World, ls: NodeLocalSupervisor, sender: Pid, receiver: Pid) -> bool {
    let n = s0.len() as int;
    let sup = NodeRemoteSupervisor { node: hello_node(w), process: w.me@, local_supervisor: ls };
    &&& s.len() >= n + 5 && s.take(n) =~= s0
    &&& s[n] == Ev::Link(ls.process) && s[n + 1] == Ev::Accept(hello_node(w), w.me@, true)
    &&& s[n + 2] == Ev::Spawn(true, Task::Sender(w.conn@, sup), sender) && s[n + 3] == Ev::Spawn(true, Task::Receiver(w.conn@, sup), receiver)
    &&& s[n + 4] == Ev::Workers(hello_node(w), sender, receiver)
}
pub open spec fn is_pong(e: Ev, sender: Pid) -> bool {
    e matches Ev::Sent(d, a) && d == Dest::Pid(sender) && is_any::<NodeRemoteSenderMessage>(a) && match any_val::<NodeRemoteSenderMessage>(a) { NodeRemoteSenderMessage::SendFrame(f) => f.0 is Pong, _ => false }
}
/// every message after that is a ping of the receiver, answered by a pong to the sender
pub open spec fn pongs(s: Seq<Ev>, n: int, sender: Pid) -> bool {
    (s.len() - n) % 2 == 0 && forall|i: int| n <= i < s.len() ==> if (i - n) % 2 == 0 { (#[trigger] s[i]) is Received } else { is_pong(s[i], sender) }
}
pub broadcast proof fn lm_accepted(s: Seq<Ev>, e: Ev, me: Pid, node: Node)
    ensures #![trigger accepted(s.push(e), me, node)] accepted(s.push(e), me, node) == (accepted(s, me, node) || e == Ev::Accept(node, me, true))
{
    let t = s.push(e);
    if accepted(s, me, node) { let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == Ev::Accept(node, me, true); assert(t[i] == s[i]); }
    if e == Ev::Accept(node, me, true) { assert(t[s.len() as int] == e); }
    if accepted(t, me, node) && e != Ev::Accept(node, me, true) { let i = choose|i: int| 0 <= i < t.len() && #[trigger] t[i] == Ev::Accept(node, me, true); assert(s[i] == t[i]); }
}
pub broadcast proof fn lm_from_empty(x: Seq<u8>) ensures #[trigger] (Seq::<u8>::empty() + x) == x { assert((Seq::<u8>::empty() + x) =~= x); }
pub broadcast proof fn lm_zero(x: [u8; 1]) ensures #[trigger] x@ == seq![x[0]] { assert(x@ =~= seq![x[0]]); }
/// the local supervisor: what it received and what it answered; it does not outlive its listener
pub open spec fn ls_msg(e: Ev) -> Option<Message<NodeLocalSupervisorMessage>> { match e { Ev::Received(a) => if is_any::<Message<NodeLocalSupervisorMessage>>(a) { Some(any_val::<Message<NodeLocalSupervisorMessage>>(a)) } else { None }, _ => None } }
pub open spec fn ls_request(e: Ev) -> Option<Pid> { match ls_msg(e) { Some(Message::User(NodeLocalSupervisorMessage::RequestLocalSupervisor(p))) => Some(p), _ => None } }
pub open spec fn ls_exit_of(e: Ev, p: Pid) -> bool { match ls_msg(e) { Some(Message::System(SystemMessage::Exit(q, _))) => q == p, _ => false } }
pub open spec fn ls_answer(e: Ev, p: Pid, ls: NodeLocalSupervisor) -> bool {
    e matches Ev::Sent(d, a) && d == Dest::Pid(p) && is_any::<NodeRemoteConnectorMessage>(a) && match any_val::<NodeRemoteConnectorMessage>(a) { NodeRemoteConnectorMessage::LocalNodeSupervisor(l) => l.0 == ls }
}
pub open spec fn ls_fine(s: Seq<Ev>, n: int, ls: NodeLocalSupervisor, listener: Pid) -> bool {
    &&& s.len() >= n + 2 && s[n] == Ev::Flags(ProcessFlags::TRAP_EXIT) && s[n + 1] == Ev::Spawn(true, Task::Listener(ls), listener)
    &&& forall|i: int| n + 2 <= i < s.len() ==> ls_event(s, i, ls, listener)
}
pub open spec fn ls_event(s: Seq<Ev>, i: int, ls: NodeLocalSupervisor, listener: Pid) -> bool {
    &&& !ls_exit_of(s[i], listener)
    &&& ls_request(s[i]) matches Some(p) ==> (i + 1 < s.len() && ls_answer(s[i + 1], p, ls))
    &&& !(s[i] is Received) ==> (ls_request(s[i - 1]) matches Some(p) && ls_answer(s[i], p, ls))
}
pub broadcast group vx_axioms { vx_base_axioms, ax_into_dest_pid, lm_accepted, lm_from_empty, lm_zero, ax_bytes1, ax_bytes2, ax_bytes3, ax_bytes4 }
pub fn forget<T>(t: T) { }

impl Clone for NodeLocalSupervisor { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for NodeRemoteSupervisor { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
