@fn node::Node#From<(String,SocketAddr)>::from(value) nw
@from_spec
  Node::Remote(value.0, value.1)
@fn node::Node::is_local(self) nw
  ensures r == (*self is Local),
@fn node::Node::is_remote(self) nw
  ensures r == (*self is Remote),
@fn node_registration::NodeRegistration::new(supervisor, state, name, broadcast_address) nw
  ensures r == (NodeRegistration { supervisor, sender: None, receiver: None, state, name, broadcast_address }),
