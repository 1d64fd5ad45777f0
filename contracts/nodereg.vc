@units node
@fn node_registry::node_send_frame(frame, id) override
  requires workers_local(*old(w)),
  ensures
    !known(*old(w), id) ==> *final(w) == *old(w),
    known(*old(w), id) ==> match old(w).NODE_REGISTRATIONS@[id].sender {
      Some(s) => *final(w) == (World { mail: final(w).mail, ..*old(w) }) && final(w).mail@ =~= deliver_w(*old(w), Dest::Pid(s), frame_item(frame)).1,
      None => if old(w).NODE_REGISTRATIONS@[id].state is Known { *final(w) == *old(w) } else {
          *final(w) == (World { NODE_PENDING_MESSAGES: final(w).NODE_PENDING_MESSAGES, ..*old(w) })
          && forall|n: Node| #[trigger] pend(final(w).NODE_PENDING_MESSAGES@, n) =~= (if n == node_at(*old(w), id) { pend(old(w).NODE_PENDING_MESSAGES@, n).push(frame) } else { pend(old(w).NODE_PENDING_MESSAGES@, n) }) },
    },
@fn node_registry::node_remote_supervisor_down(node, process)
  requires deps_wf(*old(w)), reg_wf(*old(w)),
  ensures
    serves(*old(w), node, process) ==> node_lost(*old(w), *final(w), node),
    !serves(*old(w), node, process) ==> *final(w) == *old(w),
    reg_wf(*final(w)), deps_wf(*final(w)),
@entry
  let ghost nid = w.NODE_MAP@[node]; let ghost rg = w.NODE_REGISTRATIONS@;
  let ghost sl = set_order(nl(w.NODE_LINKS@, node)); let ghost ml = map_order(nm(w.NODE_MONITORS@, node));
  let ghost tt = links_down(trip(*w), sl, sl.len() as int); let ghost ls = nl(w.NODE_LINKS@, node); let ghost ms = nm(w.NODE_MONITORS@, node);
@loop 0
  __s0 == sl, lists(sl, ls), ls == old(w).NODE_LINKS@[node]@, old(w).NODE_LINKS@.contains_key(node),
  w.NODE_REGISTRATIONS@ =~= rg.remove(nid), w.NODE_LINKS@ =~= old(w).NODE_LINKS@.remove(node),
  *w == (World { NODE_REGISTRATIONS: w.NODE_REGISTRATIONS, NODE_LINKS: w.NODE_LINKS, LINKS: w.LINKS, PROCESS_REGISTRY: w.PROCESS_REGISTRY, mail: w.mail, aborted: w.aborted, ..*old(w) }),
  reg_wf(*w),
  w.PROCESS_REGISTRY@ =~= links_down(trip(*old(w)), sl, __it0.pos()).0,
  w.mail@ =~= links_down(trip(*old(w)), sl, __it0.pos()).1,
  w.aborted@ =~= links_down(trip(*old(w)), sl, __it0.pos()).2,
  forall|i: u64, p: Pid| #[trigger] lk(w.LINKS@, i).contains(p) <==> lk(old(w).LINKS@, i).contains(p) && !(exists|j: int| 0 <= j < __it0.pos() && #[trigger] sl[j] == (p, i)),
@loop_start 0
  proof { assert(ls.contains(sl[__it0.pos()])); assert(nl(old(w).NODE_LINKS@, node).contains(sl[__it0.pos()])); }
@before_loop 1
  let ghost w1 = *w;
  proof {
    assert forall|i: u64, p: Pid| #[trigger] lk(w.LINKS@, i).contains(p) <==> lk(old(w).LINKS@, i).contains(p) && !ls.contains((p, i)) by { if ls.contains((p, i)) { let j = choose|j: int| 0 <= j < sl.len() && sl[j] == (p, i); assert(sl[j] == (p, i)); } }
  }
@loop 1
  __s1 == ml, lists_map(ml, ms), old(w).NODE_MONITORS@.contains_key(node), ms == old(w).NODE_MONITORS@[node]@,
  w.NODE_MONITORS@ =~= old(w).NODE_MONITORS@.remove(node),
  *w == (World { NODE_MONITORS: w.NODE_MONITORS, MONITORS: w.MONITORS, ALIASES: w.ALIASES, mail: w.mail, ..w1 }),
  w.mail@ =~= monitors_down(tt.0, tt.1, node, ml, __it1.pos()),
  mo_sub(*old(w), *w),
  forall|i: u64, r: Reference| #[trigger] mo(w.MONITORS@, i).contains_key(r) <==> mo(old(w).MONITORS@, i).contains_key(r) && !(exists|j: int| 0 <= j < __it1.pos() && #[trigger] ml[j] == (r, NodeMonitor::ProcessMonitorCleanup(i))),
  forall|a: u64| #[trigger] w.ALIASES@.contains_key(a) <==> old(w).ALIASES@.contains_key(a) && !(exists|j: int| 0 <= j < __it1.pos() && is_lref((#[trigger] ml[j]).0, a)),
  forall|a: u64| #[trigger] w.ALIASES@.contains_key(a) ==> w.ALIASES@[a] == old(w).ALIASES@[a],
@loop_start 1
  proof { let e = ml[__it1.pos()]; assert(nm(old(w).NODE_MONITORS@, node).contains_key(e.0)); }
@exit
  proof {
    assert forall|n: Node, e: (Pid, u64)| #[trigger] nl(w.NODE_LINKS@, n).contains(e) implies nl(old(w).NODE_LINKS@, n).contains(e) by { }
    assert forall|n: Node, r: Reference| #[trigger] nm(w.NODE_MONITORS@, n).contains_key(r) implies nm(old(w).NODE_MONITORS@, n).contains_key(r) && nm(w.NODE_MONITORS@, n)[r] == nm(old(w).NODE_MONITORS@, n)[r] by { }
  }
@fn node_registry::node_register_workers(node, sender, receiver)
  requires sender is Local,
  ensures
    !registered(*old(w), node) ==> *final(w) == *old(w),
    registered(*old(w), node) ==> ({
      &&& *final(w) == (World { NODE_REGISTRATIONS: final(w).NODE_REGISTRATIONS, NODE_PENDING_MESSAGES: final(w).NODE_PENDING_MESSAGES, mail: final(w).mail, ..*old(w) })
      &&& final(w).NODE_REGISTRATIONS@ =~= old(w).NODE_REGISTRATIONS@.insert(old(w).NODE_MAP@[node], NodeRegistration { sender: Some(sender), receiver: Some(receiver), ..reg_of(*old(w), node) })
      &&& final(w).NODE_PENDING_MESSAGES@ =~= old(w).NODE_PENDING_MESSAGES@.remove(node)
      &&& exists|v: Vec<Frame>| v@ =~= pend(old(w).NODE_PENDING_MESSAGES@, node) && final(w).mail@ =~= deliver_w(*old(w), Dest::Pid(sender), #[trigger] frames_item(v)).1
    }),
@before_call process_send 0
  let ghost fr = frames;
@after_call process_send 0
  proof { assert(w.mail@ =~= deliver_w(*old(w), Dest::Pid(sender), frames_item(fr)).1); }
@fn node_registry::node_accept(node, supervisor) panics
  requires nodes_wf(*old(w)), reg_wf(*old(w)), workers_local(*old(w)), supervisor is Local,
  ensures
    node is Remote, nodes_wf(*final(w)), reg_wf(*final(w)), workers_local(*final(w)),
    !old(w).NODE_MAP@.contains_key(node) ==> r && new_node(*old(w), *final(w), node, Some(supervisor), NodeState::Connected),
    old(w).NODE_MAP@.contains_key(node) ==> accepted(*old(w), *final(w), node, supervisor, r),
@fn node_registry::node_list()
  ensures
    *final(w) == *old(w), r@.no_duplicates(),
    forall|n: Node| #[trigger] r@.contains(n) <==> n is Remote && old(w).NODE_MAP@.contains_key(n),
@loop 0
  *w == *old(w), node_keys(__r0@, mr_pairs(__s0), __it0.pos()), lists_map(mr_pairs(__s0), w.NODE_MAP@),
@loop_start 0
  let ghost r0 = __r0@;
@loop_end 0
  proof { let k = __it0.pos() - 1; assert(mr_pairs(__s0)[k].0 == *__s0[k].k); if !(mr_pairs(__s0)[k].0 is Local) { assert(__r0@ =~= r0.push(mr_pairs(__s0)[k].0)); assert(__r0@.drop_last() =~= r0); } }
@after_loop 0
  proof { lm_node_keys(__r0@, mr_pairs(__s0), w.NODE_MAP@); }
@fn node_registry::node_list_filtered(state)
  ensures
    *final(w) == *old(w),
    forall|n: Node| #[trigger] r@.contains(n) <==> exists|i: u64| #[trigger] known(*old(w), i) && old(w).NODE_REGISTRATIONS@[i].state == state && node_at(*old(w), i) == n,
@loop 0
  *w == *old(w), lists_map(mr_pairs(__s0), w.NODE_REGISTRATIONS@),
  forall|n: Node| #[trigger] __r0@.contains(n) <==> exists|j: int| 0 <= j < __it0.pos() && (#[trigger] mr_pairs(__s0)[j]).1.state == state && Node::Remote(mr_pairs(__s0)[j].1.name, mr_pairs(__s0)[j].1.broadcast_address) == n,
@loop_start 0
  let ghost r0 = __r0@; let ghost k0 = __it0.pos();
@loop_end 0
  proof { let e = mr_pairs(__s0)[k0].1; assert(e == *__s0[k0].v);
    if e.state == state { assert(__r0@ =~= r0.push(Node::Remote(e.name, e.broadcast_address)));
      assert forall|n: Node| #[trigger] __r0@.contains(n) <==> r0.contains(n) || n == Node::Remote(e.name, e.broadcast_address) by { lm_push_contains(r0, Node::Remote(e.name, e.broadcast_address), n); } } }
@after_loop 0
  proof {
    let ps = mr_pairs(__s0);
    assert forall|n: Node| #[trigger] __r0@.contains(n) <==> exists|i: u64| #[trigger] known(*old(w), i) && old(w).NODE_REGISTRATIONS@[i].state == state && node_at(*old(w), i) == n by {
      if __r0@.contains(n) { let j = choose|j: int| 0 <= j < ps.len() && (#[trigger] ps[j]).1.state == state && Node::Remote(ps[j].1.name, ps[j].1.broadcast_address) == n; assert(known(*old(w), ps[j].0)); }
      if exists|i: u64| #[trigger] known(*old(w), i) && old(w).NODE_REGISTRATIONS@[i].state == state && node_at(*old(w), i) == n {
        let i = choose|i: u64| #[trigger] known(*old(w), i) && old(w).NODE_REGISTRATIONS@[i].state == state && node_at(*old(w), i) == n;
        let j = choose|j: int| 0 <= j < ps.len() && (#[trigger] ps[j]).0 == i; assert(ps[j].1.state == state); } } }
@fn node_registry::node_disconnect(node)
  requires deps_wf(*old(w)), reg_wf(*old(w)), workers_local(*old(w)),
  ensures
    disconnected(*old(w), *final(w), node),
    reg_wf(*final(w)), deps_wf(*final(w)), workers_local(*final(w)),
@before_call node_remote_supervisor_down 0
  let ghost wm = *w;
@after_call node_remote_supervisor_down 0
  proof { assert(cut(*old(w), wm, node)); }
@fn node_registry::node_forget(node)
  requires deps_wf(*old(w)), reg_wf(*old(w)), workers_local(*old(w)), nodes_wf(*old(w)), node is Remote,
  ensures
    !registered(*old(w), node) ==> *final(w) == *old(w),
    registered(*old(w), node) ==> forgotten(*old(w), *final(w), node),
    reg_wf(*final(w)), deps_wf(*final(w)), workers_local(*final(w)), nodes_wf(*final(w)),
@entry
  proof { if !w.NODE_MAP@.contains_key(node) { assert(w.NODE_MAP@.remove(node) =~= w.NODE_MAP@); } }

@fn node_registry::node_alive()
  ensures *final(w) == *old(w), r == old(w).NODE_MAP@.contains_key(Node::Local),
@fn node_registry::node_local_process()
  ensures *final(w) == *old(w), r == local_supervisor(*old(w)),
@fn node_registry::node_supervisor(node)
  ensures *final(w) == *old(w), r == (if registered(*old(w), *node) { reg_of(*old(w), *node).supervisor } else { None }),
@fn node_registry::node_local_start(name, options) panics
  requires sp_wf(*old(w)), ids_wf(*old(w)),
  ensures
    !old(w).NODE_MAP@.contains_key(Node::Local), spawned(*old(w), *final(w), pidid(r)), r == lpid(old(w).process__ID@), sp_wf(*final(w)),
    final(w).NODE_MAP@ =~= old(w).NODE_MAP@.insert(Node::Local, 0),
    final(w).NODE_REGISTRATIONS@ =~= old(w).NODE_REGISTRATIONS@.insert(0, NodeRegistration { supervisor: Some(r), sender: None, receiver: None, state: NodeState::Current, name, broadcast_address: options.broadcast_address }),
    *final(w) == (World { NODE_MAP: final(w).NODE_MAP, NODE_REGISTRATIONS: final(w).NODE_REGISTRATIONS, ..spawn_frame(*old(w), *final(w)) }),
@fn node_registry::node_local_stop() panics
  requires deps_wf(*old(w)), reg_wf(*old(w)), workers_local(*old(w)),
  ensures
    old(w).NODE_MAP@.contains_key(Node::Local),
    exists|m0: World, s: Seq<Node>, m1: World| stop_chain(*old(w), m0, s, m1, *final(w)),
@entry
  let ghost mut gn: Seq<Node> = Seq::empty(); let ghost mut g0: World = *w; let ghost mut g1: World = *w;
@loop 0
  __s0 == gn, lists_nodes(gn, old(w).NODE_MAP@), g0 == (World { NODE_MAP: g0.NODE_MAP, ..*old(w) }), g0.NODE_MAP@ =~= old(w).NODE_MAP@.remove(Node::Local), reg_wf(*w), deps_wf(*w), workers_local(*w), all_disc(g0, gn, __it0.pos(), *w),
@before_call node_list 0
  proof { g0 = *w; }
@before_loop 0
  proof { gn = __s0; }
@loop_start 0
  let ghost wp = *w;
@loop_end 0
  proof { lm_disc_step(g0, gn, __it0.pos(), wp, *w); }
@after_loop 0
  proof { g1 = *w; }
@exit
  proof { assert(stop_chain(*old(w), g0, gn, g1, *w)); }
@fn node_registry::node_local_panic(process)
  requires deps_wf(*old(w)), reg_wf(*old(w)), workers_local(*old(w)),
  ensures
    !(old(w).NODE_MAP@.contains_key(Node::Local) && local_supervisor(*old(w)) == Some(process)) ==> *final(w) == *old(w),
    old(w).NODE_MAP@.contains_key(Node::Local) && local_supervisor(*old(w)) == Some(process) ==> exists|s: Seq<Node>, m: World| panic_chain(*old(w), s, m, *final(w)),
@entry
  let ghost mut gn: Seq<Node> = Seq::empty(); let ghost mut g1: World = *w;
@loop 0
  __s0 == gn, lists_nodes(gn, old(w).NODE_MAP@), reg_wf(*w), deps_wf(*w), all_lost(*old(w), gn, __it0.pos(), *w),
@before_loop 0
  proof { gn = __s0; }
@loop_start 0
  let ghost wp = *w;
@loop_end 0
  proof { lm_lost_step(*old(w), gn, __it0.pos(), wp, *w); }
@after_loop 0
  proof { g1 = *w; }
@exit
  proof { if old(w).NODE_MAP@.contains_key(Node::Local) && local_supervisor(*old(w)) == Some(process) { assert(panic_chain(*old(w), gn, g1, *w)); } }

@fn node::Node::alive()
  ensures *final(w) == *old(w), r == old(w).NODE_MAP@.contains_key(Node::Local),
@fn node::Node::list()
  ensures *final(w) == *old(w), r@.no_duplicates(), forall|n: Node| #[trigger] r@.contains(n) <==> n is Remote && old(w).NODE_MAP@.contains_key(n),
@fn node::Node::list_by_state(state)
  ensures *final(w) == *old(w),
    forall|n: Node| #[trigger] r@.contains(n) <==> exists|i: u64| #[trigger] known(*old(w), i) && old(w).NODE_REGISTRATIONS@[i].state == state && node_at(*old(w), i) == n,
@fn node::Node::connect(node) inst.T=Node panics
  requires nodes_wf(*old(w)), sp_wf(*old(w)), ids_wf(*old(w)),
  ensures node is Remote, connected(*old(w), *final(w), node), *final(w) == node_spawn_frame(*old(w), *final(w)), nodes_wf(*final(w)),
@entry
  let ghost gn = node;
@exit
  proof { lm_one_changed(old(w).NODE_REGISTRATIONS@, w.NODE_REGISTRATIONS@, w.NODE_MAP@[gn]); }
@fn node::Node::disconnect(node) inst.T=Node panics
  requires deps_wf(*old(w)), reg_wf(*old(w)), workers_local(*old(w)),
  ensures node is Remote, disconnected(*old(w), *final(w), node),
@fn node::Node::forget(node) inst.T=Node panics
  requires deps_wf(*old(w)), reg_wf(*old(w)), workers_local(*old(w)), nodes_wf(*old(w)),
  ensures node is Remote, registered(*old(w), node) ==> forgotten(*old(w), *final(w), node), !registered(*old(w), node) ==> *final(w) == *old(w), nodes_wf(*final(w)),
@fn node::Node::monitor(node) inst.T=Node panics
  requires nodes_wf(*old(w)), sp_wf(*old(w)), ids_wf(*old(w)),
  ensures
    node is Remote, r == Reference::Local(nz(old(w).reference__REF@)), final(w).reference__REF@ == old(w).reference__REF@ + 1,
    final(w).PROCESS.monitors@ =~= old(w).PROCESS.monitors@.insert(r, ProcessMonitor::ForNode(node)),
    final(w).PROCESS == (Process { monitors: final(w).PROCESS.monitors, ..old(w).PROCESS }),
    nm_insert(*old(w), *final(w), node, r, NodeMonitor::Node(pidid(old(w).PROCESS.pid))),
    connected(*old(w), *final(w), node), nodes_wf(*final(w)),
    *final(w) == (World { PROCESS: final(w).PROCESS, reference__REF: final(w).reference__REF, NODE_MONITORS: final(w).NODE_MONITORS, ..node_spawn_frame(*old(w), *final(w)) }),
@entry
  let ghost gn = node;
@exit
  proof { lm_one_changed(old(w).NODE_REGISTRATIONS@, w.NODE_REGISTRATIONS@, w.NODE_MAP@[gn]); }
@fn node::Node::demonitor(monitor) panics
  ensures
    final(w).PROCESS.monitors@ =~= old(w).PROCESS.monitors@.remove(monitor),
    final(w).PROCESS == (Process { monitors: final(w).PROCESS.monitors, ..old(w).PROCESS }),
    !old(w).PROCESS.monitors@.contains_key(monitor) ==> final(w).NODE_MONITORS == old(w).NODE_MONITORS,
    old(w).PROCESS.monitors@.contains_key(monitor) ==> (old(w).PROCESS.monitors@[monitor] is ForNode) && nm_remove(*old(w), *final(w), old(w).PROCESS.monitors@[monitor]->ForNode_0, monitor),
    *final(w) == (World { PROCESS: final(w).PROCESS, NODE_MONITORS: final(w).NODE_MONITORS, ..*old(w) }),
@fn node::Node::start(name, options) inst.T=String panics
  requires sp_wf(*old(w)), ids_wf(*old(w)),
  ensures
    !old(w).NODE_MAP@.contains_key(Node::Local), spawned(*old(w), *final(w), pidid(r)), r == lpid(old(w).process__ID@),
    final(w).NODE_MAP@ =~= old(w).NODE_MAP@.insert(Node::Local, 0),
    final(w).NODE_REGISTRATIONS@ =~= old(w).NODE_REGISTRATIONS@.insert(0, NodeRegistration { supervisor: Some(r), sender: None, receiver: None, state: NodeState::Current, name, broadcast_address: options.broadcast_address }),
@fn node::Node::stop() panics
  requires deps_wf(*old(w)), reg_wf(*old(w)), workers_local(*old(w)),
  ensures old(w).NODE_MAP@.contains_key(Node::Local), exists|m0: World, s: Seq<Node>, m1: World| stop_chain(*old(w), m0, s, m1, *final(w)),
@fn node_remote::NodeRemoteSupervisor#Drop::drop(self)
  requires deps_wf(*old(w)), reg_wf(*old(w)),
  ensures
    serves(*old(w), old(self).node, old(self).process) ==> node_lost(*old(w), *final(w), old(self).node),
    !serves(*old(w), old(self).node, old(self).process) ==> *final(w) == *old(w),
@fn node_remote::NodeRemoteConnector#Drop::drop(self)
  requires deps_wf(*old(w)), reg_wf(*old(w)),
  ensures
    serves(*old(w), old(self).node, old(self).process) ==> node_lost(*old(w), *final(w), old(self).node),
    !serves(*old(w), old(self).node, old(self).process) ==> *final(w) == *old(w),
@fn node_local::NodeLocalSupervisor#Drop::drop(self)
  requires deps_wf(*old(w)), reg_wf(*old(w)), workers_local(*old(w)),
  ensures
    !(old(w).NODE_MAP@.contains_key(Node::Local) && local_supervisor(*old(w)) == Some(old(self).process)) ==> *final(w) == *old(w),
    old(w).NODE_MAP@.contains_key(Node::Local) && local_supervisor(*old(w)) == Some(old(self).process) ==> exists|s: Seq<Node>, m: World| panic_chain(*old(w), s, m, *final(w)),
