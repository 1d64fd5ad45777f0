@units remotenp
@fn pid::Pid::local(id) nw override
  requires id != 0,
  ensures r == lpid(id),
@fn pid::Pid::remote(id, node) nw override
  requires id != 0,
  ensures r == Pid::Remote(nz(id), node),
@fn reference::Reference::local(id) nw override
  requires id != 0,
  ensures r == Reference::Local(nz(id)),
@fn reference::Reference::remote(id, node) nw override
  requires id != 0,
  ensures r == Reference::Remote(nz(id), node),
@fn node_remote::node_remote_receiver(reader, supervisor) timeouts
  requires all_wf(*old(w)), supervisor.node is Remote, supervisor.process is Local,
  ensures false,
@loop 0
  invariant
  all_wf(*w), supervisor.node is Remote, supervisor.process is Local,
@loop 1
  all_wf(*w), supervisor.node is Remote, supervisor.process is Local, forall|j: int| 0 <= j < __s1.len() ==> #[trigger] __s1[j] != 0,
@loop 2
  all_wf(*w), supervisor.node is Remote, supervisor.process is Local, from is Remote, forall|j: int| 0 <= j < __s2.len() ==> #[trigger] __s2[j] != 0,
