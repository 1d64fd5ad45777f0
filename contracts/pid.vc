@fn pid::Pid::local(id) nw panics
  ensures id != 0, r == lpid(id),
@fn pid::Pid::remote(id, node) nw panics
  ensures id != 0, r == Pid::Remote(nz(id), node),
@fn pid::Pid::is_local(self) nw
  ensures r == (*self is Local),
@fn pid::Pid::is_remote(self) nw
  ensures r == (*self is Remote),
@fn pid::Pid::id(self) nw
  ensures r == pidid(*self),
@fn pid::Pid::node(self) nw
  ensures r == pidnode(*self),
@fn reference::Reference::new()
  requires ids_wf(*old(w)),
  ensures r == Reference::Local(nz(old(w).reference__REF@)), final(w).reference__REF@ == old(w).reference__REF@ + 1,
     *final(w) == (World { reference__REF: final(w).reference__REF, ..*old(w) }), ids_wf(*final(w)),
@fn reference::Reference::local(id) nw panics
  ensures id != 0, r == Reference::Local(nz(id)),
@fn reference::Reference::remote(id, node) nw panics
  ensures id != 0, r == Reference::Remote(nz(id), node),
@fn reference::Reference::is_local(self) nw
  ensures r == (*self is Local),
@fn reference::Reference::is_remote(self) nw
  ensures r == (*self is Remote),
@fn reference::Reference::id(self) nw
  ensures r == refid(*self),
@fn reference::Reference::node(self) nw
  ensures r == refnode(*self),
@fn exit_reason::ExitReason::is_normal(self) nw
  ensures r == (*self is Normal),
@fn exit_reason::ExitReason::is_kill(self) nw
  ensures r == (*self is Kill),
@fn exit_reason::ExitReason::is_ignore(self) nw
  ensures r == (*self is Ignore),
@fn exit_reason::ExitReason::is_custom(self) nw
  ensures r == (*self is Custom),
@fn exit_reason::ExitReason#PartialEq<&str>::eq(self, other) nw
@from_spec
  self is Custom && self->Custom_0@ == other@
