@units remote
@fn node_remote::node_remote_receiver(reader, supervisor) panics timeouts
  requires all_wf(*old(w)), supervisor.node is Remote, supervisor.process is Local,
  ensures false,
@entry
  let ghost mut gw: World = *w; let ghost mut gn: int = w.got@.len() as int; let ghost g0 = w.got@.len() as int;
@loop 0
  invariant
  all_wf(*w), gn == w.got@.len(), gn >= g0, supervisor.node is Remote, supervisor.process is Local,
  gn > g0 ==> handled(gw, *w, supervisor.node, supervisor.process, w.got@.last()),
@after_call next 0
  proof { gw = *w; gn = w.got@.len() as int; }
@loop 1
  all_wf(*w), gn == w.got@.len(), gn > g0, supervisor.node is Remote, supervisor.process is Local,
  w.got@.last() matches Frame::MonitorDown(d) && d.monitors@ == __s1 && d.exit_reason == monitor_down.exit_reason,
  reg_same(gw, *w) || reg_step(gw, *w, supervisor.node),
  mondown_n(with_node(gw, *w), *w, supervisor.node, __s1, __it1.pos(), monitor_down.exit_reason),
@loop 2
  all_wf(*w), gn == w.got@.len(), gn > g0, supervisor.node is Remote, supervisor.process is Local,
  w.got@.last() matches Frame::LinkDown(d) && d.links@ == __s2 && d.exit_reason == link_down.exit_reason && from == Pid::Remote(nz(d.from_id), node),
  reg_same(gw, *w) || reg_step(gw, *w, supervisor.node), node == w.NODE_MAP@[supervisor.node],
  linkdown_n(with_node(gw, *w), *w, supervisor.node, from, __s2, __it2.pos(), link_down.exit_reason),
