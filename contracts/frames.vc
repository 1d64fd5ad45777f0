@fn frame::Frame#From<Hello>::from(value) nw
@from_spec
  Frame::Hello(value)

@fn frame::Frame#From<Send>::from(value) nw
@from_spec
  Frame::Send(value)

@fn frame::Frame#From<Monitor>::from(value) nw
@from_spec
  Frame::Monitor(value)

@fn frame::Frame#From<MonitorDown>::from(value) nw
@from_spec
  Frame::MonitorDown(value)

@fn frame::Frame#From<MonitorUpdate>::from(value) nw
@from_spec
  Frame::MonitorUpdate(value)

@fn frame::Frame#From<Link>::from(value) nw
@from_spec
  Frame::Link(value)

@fn frame::Frame#From<LinkDown>::from(value) nw
@from_spec
  Frame::LinkDown(value)

@fn frame::Frame#From<Exit>::from(value) nw
@from_spec
  Frame::Exit(value)

@fn frame::Frame#From<Ping>::from(value) nw
@from_spec
  Frame::Ping

@fn frame::Frame#From<Pong>::from(value) nw
@from_spec
  Frame::Pong

@fn frame_link::Link::new(install, process_id, from_id) nw
  ensures r == (Link { install, process_id, from_id }),
@fn frame_monitor::Monitor::new(install, process_id, process_name, from_id, reference_id) nw
  ensures r == (Monitor { install, process_id, process_name, from_id, reference_id }),
@fn frame_monitor_update::MonitorUpdate::new(process_id, from_id, reference_id) nw
  ensures r == (MonitorUpdate { process_id, from_id, reference_id }),
@fn frame_monitor_down::MonitorDown::new(exit_reason) nw
  ensures r.monitors@ == Seq::<u64>::empty(), r.exit_reason == exit_reason,
@fn frame_link_down::LinkDown::new(from_id, exit_reason) nw
  ensures r.links@ == Seq::<u64>::empty(), r.from_id == from_id, r.exit_reason == exit_reason,
@fn frame_exit::Exit::new(process_id, from_id, exit_reason) nw
  ensures r == (Exit { process_id, from_id, exit_reason }),
@fn frame_send::Send::with_message(message) nw
  ensures r.targets@ == Seq::<SendTarget>::empty(), r.message == message,
@fn frame_send::Send::with_pid(id, message) nw
  ensures r.targets@ =~= seq![SendTarget::Pid(id)], r.message == message,
@fn frame_send::Send::with_name(name, message) nw
  ensures r.targets@ =~= seq![SendTarget::Named(name)], r.message == message,
@fn frame_send::Send::with_alias(alias, message) nw
  ensures r.targets@ =~= seq![SendTarget::Alias(alias)], r.message == message,
