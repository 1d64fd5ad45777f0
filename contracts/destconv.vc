@units procs

@fn dest::Dests#From<Reference>::from(value) nw
@from_spec
  Dests::Dest(Dest::Alias(value))
@fn dest::Dests#From<Dest>::from(value) nw
@from_spec
  Dests::Dest(value)
@fn dest::Dests#From<Vec<Dest>>::from(value) nw
@from_spec
  Dests::Dests(value)
@fn dest::Dests#From<&[Pid]>::from(value) nw
  ensures lists_pids(r, value@),
@loop 0
  __s0 == value@,
  __r0@.len() == __it0.pos(),
  forall|i: int| 0 <= i < __it0.pos() ==> #[trigger] __r0@[i] == Dest::Pid(__s0[i]),
@fn dest::Dests#From<&[Dest]>::from(value) nw
  ensures lists_dests(r, value@),
@fn dest::Dests#From<Vec<Pid>>::from(value) nw
  ensures lists_pids(r, value@),
@loop 0
  __s0 == value@,
  __r0@.len() == __it0.pos(),
  forall|i: int| 0 <= i < __it0.pos() ==> #[trigger] __r0@[i] == Dest::Pid(__s0[i]),
@fn dest::Dests#From<&Vec<Pid>>::from(value) nw
  ensures lists_pids(r, value@),
@loop 0
  __s0 == value@,
  __r0@.len() == __it0.pos(),
  forall|i: int| 0 <= i < __it0.pos() ==> #[trigger] __r0@[i] == Dest::Pid(__s0[i]),
@fn dest::Dests#FromIterator<Dest>::from_iter(iter) nw as=vx_dests_from_dests inst.T=VIter<Dest>
  requires iter.pos() == 0,
  ensures lists_dests(r, iter.seq()),
@fn dest::Dests#FromIterator<Pid>::from_iter(iter) nw as=vx_dests_from_pids inst.T=VIter<Pid>
  requires iter.pos() == 0,
  ensures lists_pids(r, iter.seq()),
@entry
  let ghost sl = iter.seq();
@loop 0
  __s0 == sl,
  __r0@.len() == __it0.pos(),
  forall|i: int| 0 <= i < __it0.pos() ==> #[trigger] __r0@[i] == Dest::Pid(sl[i]),
@fn dest::Dest#PartialEq<Pid>::eq(self, other) nw
@from_spec
  (*self == Dest::Pid(*other))
@fn dest::Pid#PartialEq<Dest>::eq(self, other) nw
@from_spec
  (*other == Dest::Pid(*self))
@fn dest::Dest#PartialEq<&str>::eq(self, other) nw
@from_spec
  names(*self, other@)
@fn dest::Dest#PartialEq<Reference>::eq(self, other) nw
@from_spec
  (*self == Dest::Alias(*other))
@fn dest::Reference#PartialEq<Dest>::eq(self, other) nw
@from_spec
  (*other == Dest::Alias(*self))
@fn dest::Dest#From<&str>::from(value) nw
@from_spec
  Dest::Named(CowStr::Borrowed(value), Node::Local)
@fn dest::Dest#From<String>::from(value) nw
@from_spec
  Dest::Named(CowStr::Owned(value), Node::Local)
@fn dest::Dests#From<&str>::from(value) nw
@from_spec
  Dests::Dest(Dest::Named(CowStr::Borrowed(value), Node::Local))
@fn dest::Dests#From<String>::from(value) nw
@from_spec
  Dests::Dest(Dest::Named(CowStr::Owned(value), Node::Local))
@fn dest::&str#PartialEq<Dest>::eq(self, other) nw
@from_spec
  names(*other, (*self)@)
@fn dest::Dest#From<(String,T)>::from(value) nw inst.T=(String,SocketAddr)
@from_spec
  Dest::Named(CowStr::Owned(value.0), Node::Remote(value.1.0, value.1.1))
@fn dest::Dest#From<(&str,T)>::from(value) nw inst.T=(String,SocketAddr)
@from_spec
  Dest::Named(CowStr::Borrowed(value.0), Node::Remote(value.1.0, value.1.1))
@fn dest::Dests#From<(String,T)>::from(value) nw inst.T=(String,SocketAddr)
@from_spec
  Dests::Dest(Dest::Named(CowStr::Owned(value.0), Node::Remote(value.1.0, value.1.1)))
@fn dest::Dests#From<(&str,T)>::from(value) nw inst.T=(String,SocketAddr)
@from_spec
  Dests::Dest(Dest::Named(CowStr::Borrowed(value.0), Node::Remote(value.1.0, value.1.1)))
