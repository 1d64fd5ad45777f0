// Identities on the wire (C23)
//@assume unit ident: the serde derives of PidWire, ReferenceWire and NodeWire and the message pack codec are inverse to each other (sampled by the stand-in)
pub enum Wire { Pid(PidWire), Ref(ReferenceWire), Node(NodeWire), Other }
pub struct SerErr { pub x: u8 }
pub struct DeErr { pub x: u8 }
#[verifier::external_body]
pub struct Ser { x: u8 }
#[verifier::external_body]
pub struct De { x: u8 }
#[verifier::external_body]
pub struct Out { x: u8 }
impl View for Out { type V = Wire; uninterp spec fn view(&self) -> Wire; }
/// what the serialized value decodes to
impl View for De { type V = Wire; uninterp spec fn view(&self) -> Wire; }
impl PidWire {
    #[verifier::external_body]
    pub fn serialize(&self, s: Ser, w: &mut World) -> (r: Result<Out, SerErr>) ensures *final(w) == *old(w), r matches Ok(o) ==> o@ == Wire::Pid(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn deserialize(d: De) -> (r: Result<PidWire, DeErr>) ensures match r { Ok(x) => d@ == Wire::Pid(x), Err(_) => !(d@ is Pid) } { unimplemented!() }
}
impl ReferenceWire {
    #[verifier::external_body]
    pub fn serialize(&self, s: Ser, w: &mut World) -> (r: Result<Out, SerErr>) ensures *final(w) == *old(w), r matches Ok(o) ==> o@ == Wire::Ref(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn deserialize(d: De) -> (r: Result<ReferenceWire, DeErr>) ensures match r { Ok(x) => d@ == Wire::Ref(x), Err(_) => !(d@ is Ref) } { unimplemented!() }
}
impl NodeWire {
    #[verifier::external_body]
    pub fn serialize(&self, s: Ser, w: &mut World) -> (r: Result<Out, SerErr>) ensures *final(w) == *old(w), r matches Ok(o) ==> o@ == Wire::Node(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn deserialize(d: De) -> (r: Result<NodeWire, DeErr>) ensures match r { Ok(x) => d@ == Wire::Node(x), Err(_) => !(d@ is Node) } { unimplemented!() }
}
/// the node and the id on that node a pid denotes
pub open spec fn means(w: World, p: Pid) -> Option<(NonZeroU64, Node)> {
    match p { Pid::Local(i) => at_node(w, i, 0), Pid::Remote(i, n) => at_node(w, i, n) }
}
pub open spec fn means_ref(w: World, p: Reference) -> Option<(NonZeroU64, Node)> {
    match p { Reference::Local(i) => at_node(w, i, 0), Reference::Remote(i, n) => at_node(w, i, n) }
}
pub open spec fn node_in(x: Option<(NonZeroU64, Node)>) -> Node { match x { Some(t) => t.1, None => Node::Local } }
pub open spec fn at_node(w: World, i: NonZeroU64, n: u64) -> Option<(NonZeroU64, Node)> { if known(w, n) { Some((i, node_at(w, n))) } else { None } }
pub open spec fn means_node(w: World, n: Node) -> Node { match n { Node::Local => node_at(w, 0), n => n } }
pub open spec fn pid_nz(p: Pid) -> NonZeroU64 { match p { Pid::Local(i) => i, Pid::Remote(i, _) => i } }
pub open spec fn ref_nz(p: Reference) -> NonZeroU64 { match p { Reference::Local(i) => i, Reference::Remote(i, _) => i } }
pub open spec fn pid_wire(w: World, p: Pid) -> PidWire { match means(w, p) { Some((i, Node::Remote(n, a))) => PidWire::WithNode(i, n, a), _ => PidWire::NodeUnavailable(pid_nz(p)) } }
pub open spec fn ref_wire(w: World, p: Reference) -> ReferenceWire { match means_ref(w, p) { Some((i, Node::Remote(n, a))) => ReferenceWire::WithNode(i, n, a), _ => ReferenceWire::NodeUnavailable(ref_nz(p)) } }
/// only the tables of nodes changed, and only by one more known node: nothing that already had a meaning has another now
pub open spec fn keeps_meanings(w0: World, w1: World) -> bool {
    &&& w1 == (World { NODE_MAP: w1.NODE_MAP, NODE_REGISTRATIONS: w1.NODE_REGISTRATIONS, NODE_ID: w1.NODE_ID, ..w0 })
    &&& forall|i: u64| #[trigger] known(w0, i) ==> known(w1, i) && w1.NODE_REGISTRATIONS@[i] == w0.NODE_REGISTRATIONS@[i]
}
/// the decoded pid denotes what the wire says, as this node's own exactly for this node's name and address
pub open spec fn pid_read(w: World, x: PidWire, p: Pid) -> bool {
    match x {
        PidWire::WithNode(i, n, a) => if known(w, 0) { means(w, p) == Some((i, Node::Remote(n, a))) && (p is Local <==> node_at(w, 0) == Node::Remote(n, a)) } else { p == Pid::Remote(i, u64::MAX) },
        PidWire::NodeUnavailable(i) => p == Pid::Remote(i, u64::MAX),
    }
}
pub open spec fn ref_read(w: World, x: ReferenceWire, p: Reference) -> bool {
    match x {
        ReferenceWire::WithNode(i, n, a) => if known(w, 0) { means_ref(w, p) == Some((i, Node::Remote(n, a))) && (p is Local <==> node_at(w, 0) == Node::Remote(n, a)) } else { p == Reference::Remote(i, u64::MAX) },
        ReferenceWire::NodeUnavailable(i) => p == Reference::Remote(i, u64::MAX),
    }
}
pub open spec fn node_wire(w: World, n: Node, x: NodeWire) -> bool {
    match n {
        Node::Local => if known(w, 0) { Node::Remote(x.name, x.address->0) == node_at(w, 0) && x.address is Some } else { x.address is None },
        Node::Remote(m, a) => x.name == m && x.address == Some(a),
    }
}
pub open spec fn node_read(w: World, x: NodeWire, n: Node) -> bool {
    if known(w, 0) { x.address is Some ==> means_node(w, n) == Node::Remote(x.name, x.address->0) && (n is Local <==> node_at(w, 0) == Node::Remote(x.name, x.address->0)) } else { n is Local }
}
// ---------- what follows for values that travel
/// no remote entry stands for this node itself
pub open spec fn own_once(w: World) -> bool { known(w, 0) ==> !w.NODE_MAP@.contains_key(node_at(w, 0)) }
/// distinct pids of a node denote distinct processes
pub proof fn lm_pid_distinct(w: World, p: Pid, q: Pid)
    requires nodes_wf(w), own_once(w), means(w, p) is Some, means(w, p) == means(w, q), p matches Pid::Remote(_, n) ==> n != 0, q matches Pid::Remote(_, n) ==> n != 0
    ensures p == q
{ }
pub proof fn lm_ref_distinct(w: World, p: Reference, q: Reference)
    requires nodes_wf(w), own_once(w), means_ref(w, p) is Some, means_ref(w, p) == means_ref(w, q), p matches Reference::Remote(_, n) ==> n != 0, q matches Reference::Remote(_, n) ==> n != 0
    ensures p == q
{ }
/// one hop: what a pid denotes on the sender is what the decoded one denotes on the receiver
pub proof fn lm_pid_hop(a: World, p: Pid, b: World, q: Pid)
    requires means(a, p) is Some, node_at(a, 0) is Remote, known(b, 0), pid_read(b, pid_wire(a, p), q)
    ensures means(b, q) == means(a, p), q is Local <==> node_in(means(a, p)) == node_at(b, 0)
{ }
pub proof fn lm_ref_hop(a: World, p: Reference, b: World, q: Reference)
    requires means_ref(a, p) is Some, known(b, 0), ref_read(b, ref_wire(a, p), q)
    ensures means_ref(b, q) == means_ref(a, p), q is Local <==> node_in(means_ref(a, p)) == node_at(b, 0)
{ }
pub proof fn lm_node_hop(a: World, n: Node, b: World, m: Node, x: NodeWire)
    requires known(a, 0), known(b, 0), node_wire(a, n, x), node_read(b, x, m)
    ensures means_node(b, m) == means_node(a, n), m is Local <==> means_node(a, n) == node_at(b, 0)
{ }
/// home again by way of two other nodes: the same pid
pub proof fn lm_pid_home(a: World, p: Pid, b: World, q: Pid, c: World, s: Pid, a2: World, p2: Pid)
    requires
        means(a, p) is Some, known(b, 0), known(c, 0), known(a2, 0), pid_read(b, pid_wire(a, p), q), pid_read(c, pid_wire(b, q), s), pid_read(a2, pid_wire(c, s), p2),
        nodes_wf(a2), own_once(a2), means(a2, p) == means(a, p), p matches Pid::Remote(_, n) ==> n != 0, p2 matches Pid::Remote(_, n) ==> n != 0,
    ensures p2 == p, means(c, s) == means(a, p)
{ lm_pid_hop(a, p, b, q); lm_pid_hop(b, q, c, s); lm_pid_hop(c, s, a2, p2); lm_pid_distinct(a2, p, p2); }
pub proof fn lm_ref_home(a: World, p: Reference, b: World, q: Reference, c: World, s: Reference, a2: World, p2: Reference)
    requires
        means_ref(a, p) is Some, known(b, 0), known(c, 0), known(a2, 0), ref_read(b, ref_wire(a, p), q), ref_read(c, ref_wire(b, q), s), ref_read(a2, ref_wire(c, s), p2),
        nodes_wf(a2), own_once(a2), means_ref(a2, p) == means_ref(a, p), p matches Reference::Remote(_, n) ==> n != 0, p2 matches Reference::Remote(_, n) ==> n != 0,
    ensures p2 == p, means_ref(c, s) == means_ref(a, p)
{ lm_ref_hop(a, p, b, q); lm_ref_hop(b, q, c, s); lm_ref_hop(c, s, a2, p2); lm_ref_distinct(a2, p, p2); }
pub mod serde { pub mod de {
    pub struct Error { pub x: u8 }
    impl Error {
        #[verifier::external_body]
        pub fn custom(s: &str) -> crate::vx::DeErr { unimplemented!() }
    }
} }

// ---------- nodes as text
/// s is a, then '@', then b, and a has no '@'
pub open spec fn splits(s: Seq<char>, c: char, a: Seq<char>, b: Seq<char>) -> bool { s =~= a + seq![c] + b && !a.contains(c) }
pub proof fn lm_splits(s: Seq<char>, c: char, a: Seq<char>, b: Seq<char>, x: Seq<char>, y: Seq<char>)
    requires splits(s, c, a, b), splits(s, c, x, y),
    ensures a == x, b == y,
{
    if a.len() < x.len() { assert(x[a.len() as int] == s[a.len() as int]); assert(x.contains(c)); }
    if x.len() < a.len() { assert(a[x.len() as int] == s[x.len() as int]); assert(a.contains(c)); }
    assert(a =~= s.take(a.len() as int));
    assert(x =~= s.take(a.len() as int));
    assert(b =~= s.skip(a.len() as int + 1));
    assert(y =~= s.skip(a.len() as int + 1));
}
/// the part before the first c, the part after it
pub open spec fn halves(s: Seq<char>, c: char) -> (Seq<char>, Seq<char>) { let i = s.index_of(c); (s.take(i), s.skip(i + 1)) }
/// the address a text denotes (std: SocketAddr::from_str)
pub uninterp spec fn addr_text(s: Seq<char>) -> Option<SocketAddr>;
/// the node a text denotes
pub open spec fn node_text(s: Seq<char>) -> Option<Node> {
    if s == "local"@ { Some(Node::Local) }
    else if !s.contains('@') { None }
    else { match addr_text(halves(s, '@').1) { Some(a) => Some(Node::Remote(vstr(halves(s, '@').0), a)), None => None } }
}
pub trait VxStrOps { spec fn st(&self) -> Seq<char>;
    fn vx_split_once<'a>(&'a self, c: char) -> (r: Option<(&'a str, &'a str)>) ensures r is Some == self.st().contains(c), r matches Some(p) ==> p.0@ == halves(self.st(), c).0 && p.1@ == halves(self.st(), c).1;
    fn vx_parse<T: VxParse>(&self) -> (r: Result<T, VxParseError>) ensures r is Ok == T::parsed(self.st()) is Some, r matches Ok(x) ==> T::parsed(self.st()) == Some(x);
}
impl VxStrOps for str { open spec fn st(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_split_once<'a>(&'a self, c: char) -> (r: Option<(&'a str, &'a str)>) { unimplemented!() }
    #[verifier::external_body] fn vx_parse<T: VxParse>(&self) -> (r: Result<T, VxParseError>) { unimplemented!() }
}
pub struct VxParseError;
pub trait VxParse: Sized { spec fn parsed(s: Seq<char>) -> Option<Self>; }
impl VxParse for SocketAddr { open spec fn parsed(s: Seq<char>) -> Option<SocketAddr> { addr_text(s) } }
pub broadcast axiom fn ax_string_from() ensures #[trigger] <String as FromSpec<&'static str>>::obeys_from_spec();
pub broadcast axiom fn ax_string_from2(v: &str) ensures #[trigger] <String as FromSpec<&str>>::from_spec(v) == vstr(v@);
pub broadcast axiom fn ax_str_eq() ensures #[trigger] <str as PartialEqSpec<str>>::obeys_eq_spec();
pub broadcast axiom fn ax_str_eq2(a: &str, b: &str) ensures #[trigger] <str as PartialEqSpec<str>>::eq_spec(a, b) == (a@ == b@);
pub proof fn lm_local() ensures !"local"@.contains('@') { reveal_strlit("local"); let s = "local"@; assert(s.len() == 5 && s[0] != '@' && s[1] != '@' && s[2] != '@' && s[3] != '@' && s[4] != '@'); }
