@fn dest::Dest::is_local(self) nw
  ensures r == dest_local(*self),
@fn dest::Dest::is_remote(self) nw
  ensures r == !dest_local(*self),
@fn dest::Dest#From<Pid>::from(value) nw
@from_spec
  Dest::Pid(value)
@fn dest::Dest#From<Reference>::from(value) nw
@from_spec
  Dest::Alias(value)
@fn process_registration::ProcessRegistration::new(handle, sender) nw
  ensures r.handle == handle, r.sender == sender, r.name is None, r.exit_reason is None, !trapf(r.flags),
@fn dest::Dests#From<Pid>::from(value) nw
@from_spec
  Dests::Dest(Dest::Pid(value))
