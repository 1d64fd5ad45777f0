@fn node_registry::node_lookup_remote(id)
  ensures *final(w) == *old(w),
    r is Some <==> known(*old(w), id),
    r matches Some(t) ==> Node::Remote(t.0, t.1) == node_at(*old(w), id),
@fn node_registry::node_lookup_local()
  ensures *final(w) == *old(w),
    r is Some <==> known(*old(w), 0),
    r matches Some(t) ==> Node::Remote(t.0, t.1) == node_at(*old(w), 0),
@fn node_registry::node_process_link_create(node, process, from)
  ensures
    *final(w) == (World { NODE_LINKS: final(w).NODE_LINKS, ..*old(w) }),
    forall|n: Node| #[trigger] nl(final(w).NODE_LINKS@, n) =~= (if n == node { nl(old(w).NODE_LINKS@, n).insert((process, pidid(from))) } else { nl(old(w).NODE_LINKS@, n) }),
@fn node_registry::node_process_link_destroy(node, link, from)
  ensures
    *final(w) == (World { NODE_LINKS: final(w).NODE_LINKS, ..*old(w) }),
    forall|n: Node| #[trigger] nl(final(w).NODE_LINKS@, n) =~= (if n == node { nl(old(w).NODE_LINKS@, n).remove((link, pidid(from))) } else { nl(old(w).NODE_LINKS@, n) }),
@fn node_registry::node_link_destroy(node, process, from)
  ensures
    *final(w) == (World { NODE_LINKS: final(w).NODE_LINKS, ..*old(w) }),
    forall|n: Node| #[trigger] nl(final(w).NODE_LINKS@, n) =~= (if n == node { nl(old(w).NODE_LINKS@, n).remove((process, pidid(from))) } else { nl(old(w).NODE_LINKS@, n) }),
@fn node_registry::node_process_link_destroy_all(node, links, from)
  ensures
    *final(w) == (World { NODE_LINKS: final(w).NODE_LINKS, ..*old(w) }),
    forall|n: Node, l: (Pid, u64)| #[trigger] nl(final(w).NODE_LINKS@, n).contains(l) <==> nl(old(w).NODE_LINKS@, n).contains(l) && !(n == node && l.1 == pidid(from) && links@.contains(l.0)),
@loop 0
  w.NODE_LINKS@ =~= old(w).NODE_LINKS@.remove(node),
  *w == (World { NODE_LINKS: w.NODE_LINKS, ..*old(w) }),
  forall|l: (Pid, u64)| #[trigger] value@.contains(l) <==> old(w).NODE_LINKS@[node]@.contains(l) && !(l.1 == pidid(from) && exists|j: int| 0 <= j < __it0.pos() && #[trigger] __s0[j] == l.0),

@fn node_registry::node_register(node, connect)
  requires nodes_wf(*old(w)), sp_wf(*old(w)), ids_wf(*old(w)), node is Remote,
  ensures
    *final(w) == (World { NODE_MAP: final(w).NODE_MAP, NODE_REGISTRATIONS: final(w).NODE_REGISTRATIONS, NODE_ID: final(w).NODE_ID, PROCESS_REGISTRY: final(w).PROCESS_REGISTRY, process__ID: final(w).process__ID, open: final(w).open, mail: final(w).mail, fresh: final(w).fresh, ..*old(w) }),
    nodes_wf(*final(w)), sp_wf(*final(w)), ids_wf(*final(w)), reg_grows(*old(w), *final(w)),
    old(w).NODE_MAP@.contains_key(node) ==> r == old(w).NODE_MAP@[node] && final(w).NODE_MAP@ =~= old(w).NODE_MAP@ && final(w).NODE_ID == old(w).NODE_ID,
    !old(w).NODE_MAP@.contains_key(node) ==> r == old(w).NODE_ID@ && final(w).NODE_ID@ == old(w).NODE_ID@ + 1 && final(w).NODE_MAP@ =~= old(w).NODE_MAP@.insert(node, r),
    known(*final(w), r), node_at(*final(w), r) == node,
    final(w).NODE_REGISTRATIONS@.remove(r) =~= old(w).NODE_REGISTRATIONS@.remove(r), others_kept(*old(w), *final(w), r),
    connect ==> final(w).NODE_REGISTRATIONS@[r].supervisor is Some,
    old(w).NODE_MAP@.contains_key(node) && !(connect && old(w).NODE_REGISTRATIONS@[r].supervisor is None) ==> final(w).NODE_REGISTRATIONS@ =~= old(w).NODE_REGISTRATIONS@,
    old(w).NODE_MAP@.contains_key(node) && connect && old(w).NODE_REGISTRATIONS@[r].supervisor is None ==> final(w).NODE_REGISTRATIONS@[r] == (NodeRegistration { supervisor: final(w).NODE_REGISTRATIONS@[r].supervisor, state: NodeState::Pending, ..old(w).NODE_REGISTRATIONS@[r] }),
    !old(w).NODE_MAP@.contains_key(node) ==> final(w).NODE_REGISTRATIONS@[r].state == (if connect { NodeState::Pending } else { NodeState::Known }) && final(w).NODE_REGISTRATIONS@[r].sender is None && (!connect ==> final(w).NODE_REGISTRATIONS@[r].supervisor is None),
    !connect ==> final(w).PROCESS_REGISTRY == old(w).PROCESS_REGISTRY && final(w).process__ID == old(w).process__ID && final(w).open == old(w).open && final(w).mail == old(w).mail && final(w).fresh == old(w).fresh,

@fn node_registry::node_send_frame(frame, id) trusted
  ensures *final(w) == (World { wire: final(w).wire, ..*old(w) }), final(w).wire@ == old(w).wire@.push((frame, id)),

@fn node_registry::node_monitor_create(node, reference, from)
  ensures
    *final(w) == (World { NODE_MONITORS: final(w).NODE_MONITORS, ..*old(w) }),
    nm_insert(*old(w), *final(w), node, reference, NodeMonitor::Node(pidid(from))),
@fn node_registry::node_process_monitor_create(node, reference, dest, from)
  ensures
    *final(w) == (World { NODE_MONITORS: final(w).NODE_MONITORS, ..*old(w) }),
    nm_insert(*old(w), *final(w), node, reference, NodeMonitor::ProcessMonitor(pidid(from), dest)),
@fn node_registry::node_process_monitor_cleanup(node, reference, process)
  ensures
    *final(w) == (World { NODE_MONITORS: final(w).NODE_MONITORS, ..*old(w) }),
    nm_insert(*old(w), *final(w), node, reference, NodeMonitor::ProcessMonitorCleanup(pidid(process))),
@fn node_registry::node_process_monitor_destroy(node, reference)
  ensures
    *final(w) == (World { NODE_MONITORS: final(w).NODE_MONITORS, ..*old(w) }),
    nm_remove(*old(w), *final(w), node, reference),
@fn node_registry::node_monitor_destroy(node, reference)
  ensures
    *final(w) == (World { NODE_MONITORS: final(w).NODE_MONITORS, ..*old(w) }),
    nm_remove(*old(w), *final(w), node, reference),
@fn node_registry::node_process_monitor_destroy_all(node, references)
  ensures
    *final(w) == (World { NODE_MONITORS: final(w).NODE_MONITORS, ..*old(w) }),
    nm_sub(*old(w), *final(w)),
    forall|n: Node, l: Reference| #[trigger] nm(final(w).NODE_MONITORS@, n).contains_key(l) <==> nm(old(w).NODE_MONITORS@, n).contains_key(l) && !(n == node && references@.contains(l)),
@loop 0
  w.NODE_MONITORS@ =~= old(w).NODE_MONITORS@.remove(node),
  *w == (World { NODE_MONITORS: w.NODE_MONITORS, ..*old(w) }),
  forall|l: Reference| #[trigger] value@.contains_key(l) ==> value@[l] == old(w).NODE_MONITORS@[node]@[l],
  forall|l: Reference| #[trigger] value@.contains_key(l) <==> old(w).NODE_MONITORS@[node]@.contains_key(l) && !(exists|j: int| 0 <= j < __it0.pos() && #[trigger] __s0[j] == l),

@fn node_registry::node_process_monitor_down(node, reference, exit_reason)
  requires reg_wf(*old(w)),
  ensures
    nm_remove(*old(w), *final(w), node, reference),
    match nm_get(*old(w), node, reference) {
        Some(NodeMonitor::ProcessMonitor(id, dest)) => final(w).ALIASES@ =~= old(w).ALIASES@.remove(refid(reference))
            && final(w).mail@ =~= down_push(old(w).PROCESS_REGISTRY@, old(w).mail@, id, ProcessItem::MonitorProcessDown(dest, reference, exit_reason)),
        _ => final(w).ALIASES == old(w).ALIASES && final(w).mail == old(w).mail,
    },
    *final(w) == (World { NODE_MONITORS: final(w).NODE_MONITORS, ALIASES: final(w).ALIASES, mail: final(w).mail, ..*old(w) }),

@fn node_registry::node_process_link_down(node, process, from, exit_reason)
  requires reg_wf(*old(w)), nodes_wf(*old(w)), process is Local, from is Remote,
  ensures
    forall|n: Node| #[trigger] nl(final(w).NODE_LINKS@, n) =~= (if n == node { nl(old(w).NODE_LINKS@, n).remove((from, pidid(process))) } else { nl(old(w).NODE_LINKS@, n) }),
    nl(old(w).NODE_LINKS@, node).contains((from, pidid(process))) ==> lk_remove(*old(w), *final(w), pidid(process), from) && link_signal(*old(w), *final(w), pidid(process), from, exit_reason),
    !nl(old(w).NODE_LINKS@, node).contains((from, pidid(process))) ==> final(w).LINKS == old(w).LINKS && final(w).PROCESS_REGISTRY == old(w).PROCESS_REGISTRY && final(w).mail == old(w).mail && final(w).aborted == old(w).aborted,
    *final(w) == (World { NODE_LINKS: final(w).NODE_LINKS, LINKS: final(w).LINKS, PROCESS_REGISTRY: final(w).PROCESS_REGISTRY, mail: final(w).mail, aborted: final(w).aborted, ..*old(w) }),
    reg_wf(*final(w)),
