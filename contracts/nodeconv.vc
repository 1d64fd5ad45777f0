@units ident

@fn node::Node#From<(&str,SocketAddr)>::from(value) nw
@from_spec
  Node::Remote(vstr(value.0@), value.1)
@entry
  broadcast use ax_string_from, ax_string_from2, ax_str_eq, ax_str_eq2;

@fn node::Node#From<&str>::from(value) nw panics
  ensures node_text(value@) == Some(r),
@entry
  broadcast use ax_string_from, ax_string_from2, ax_str_eq, ax_str_eq2;
  proof { lm_local(); }

@fn node::Node#From<String>::from(value) nw panics
  ensures node_text(value@) == Some(r),

@fn node::Node#PartialEq<(String,SocketAddr)>::eq(self, other) nw
@from_spec
  *self == Node::Remote(other.0, other.1)

@fn node::Node#PartialEq<&str>::eq(self, other) nw
@from_spec
  node_text(other@) == Some(*self)
@entry
  broadcast use ax_string_from, ax_string_from2, ax_str_eq, ax_str_eq2;
  proof { lm_local(); }

@fn node::Node#PartialEq<String>::eq(self, other) nw
@from_spec
  node_text(other@) == Some(*self)

@fn node::String#PartialEq<Node>::eq(self, other) nw
@from_spec
  node_text(self@) == Some(*other)

@fn node::&str#PartialEq<Node>::eq(self, other) nw
@from_spec
  node_text((*self)@) == Some(*other)

@fn node::Node::current() nw
  ensures r is Local,

@fn node::Node::name(self) nw
  ensures
    *self is Local ==> r is None,
    *self is Remote ==> r is Some && (r->0)@ == (self->Remote_0)@,

@fn node::Node::address(self) nw
  ensures
    *self is Local ==> r is None,
    *self is Remote ==> r == Some(self->Remote_1),
