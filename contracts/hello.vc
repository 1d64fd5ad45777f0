@units hello hellonp
@fn frame::Codec::new() nw trusted
@fn node_registry::node_get_cookie()
  ensures *final(w) == *old(w), r == old(w).NODE_COOKIE,
@fn node_registry::node_set_cookie(cookie)
  ensures *final(w) == (World { NODE_COOKIE: cookie, ..*old(w) }),
@fn frame_hello::Hello::new(name, broadcast_address)
  ensures *final(w) == *old(w), r.name == name, r.broadcast_address == broadcast_address, hello_ok(old(w).NODE_COOKIE, r),
@fn frame_hello::Hello::validate(self)
  ensures
    *final(w) == *old(w), r == hello_ok(old(w).NODE_COOKIE, *old(self)),
    final(self).name == old(self).name, final(self).broadcast_address == old(self).broadcast_address,
@fn node::Node::set_cookie(cookie) inst.T=String
  ensures *final(w) == (World { NODE_COOKIE: Some(cookie), ..*old(w) }),
@fn node::Node::clear_cookie()
  ensures *final(w) == (World { NODE_COOKIE: None, ..*old(w) }),
@fn node::Node#PartialEq<(&str,SocketAddr)>::eq(self, other) nw
@from_spec
  self is Remote && self->Remote_0@ == other.0@ && self->Remote_1 == other.1
@fn node::Node::address(self) nw
  ensures r == (match *self { Node::Local => None, Node::Remote(_, a) => Some(a) }),
