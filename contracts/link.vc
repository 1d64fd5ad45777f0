@fn link::link_create(process, from, ignore_errors)
  ensures
    r == (ignore_errors || old(w).PROCESS_REGISTRY@.contains_key(pidid(process))),
    *final(w) == (World { LINKS: final(w).LINKS, ..*old(w) }),
    r ==> lk_add(*old(w), *final(w), pidid(process), from),
    !r ==> lk_same(*old(w), *final(w)),

@fn link::link_install(process, from) panics
  requires nodes_wf(*old(w)), sp_wf(*old(w)), ids_wf(*old(w)), pidid(process) != pidid(from) || process is Remote, from is Local,
    process is Remote ==> pidnode(process) != 0,
  ensures
    old(w).PROCESS_REGISTRY@.contains_key(pidid(from)),
    nodes_wf(*final(w)), sp_wf(*final(w)),
    match link_case(*old(w), process) {
        LinkCase::Linked => only_links(*old(w), *final(w)) && lk_both_add(*old(w), *final(w), process, from),
        LinkCase::NoProc => lk_both_remove(*old(w), *final(w), process, from) && link_signal(*old(w), *final(w), pidid(from), process, noproc())
            && *final(w) == (World { LINKS: final(w).LINKS, PROCESS_REGISTRY: final(w).PROCESS_REGISTRY, mail: final(w).mail, aborted: final(w).aborted, ..*old(w) }),
        LinkCase::Remote => lk_add(*old(w), *final(w), pidid(from), process)
            && (forall|n: Node| #[trigger] nl(final(w).NODE_LINKS@, n) =~= (if n == node_at(*old(w), pidnode(process)) { nl(old(w).NODE_LINKS@, n).insert((process, pidid(from))) } else { nl(old(w).NODE_LINKS@, n) }))
            && final(w).wire@ == old(w).wire@.push((Frame::Link(Link { install: true, process_id: pidid(process), from_id: pidid(from) }), pidnode(process)))
            && reg_grows(*old(w), *final(w)) && final(w).NODE_REGISTRATIONS@[pidnode(process)].supervisor is Some
            && *final(w) == (World { LINKS: final(w).LINKS, NODE_LINKS: final(w).NODE_LINKS, wire: final(w).wire, NODE_MAP: final(w).NODE_MAP, NODE_REGISTRATIONS: final(w).NODE_REGISTRATIONS, NODE_ID: final(w).NODE_ID, PROCESS_REGISTRY: final(w).PROCESS_REGISTRY, process__ID: final(w).process__ID, open: final(w).open, mail: final(w).mail, fresh: final(w).fresh, ..*old(w) }),
        LinkCase::NoConnection => lk_remove(*old(w), *final(w), pidid(from), process) && link_signal(*old(w), *final(w), pidid(from), process, noconnection())
            && *final(w) == (World { LINKS: final(w).LINKS, wire: final(w).wire, PROCESS_REGISTRY: final(w).PROCESS_REGISTRY, mail: final(w).mail, aborted: final(w).aborted, ..*old(w) }),
    },

@fn link::link_destroy(process, from)
  requires nodes_wf(*old(w)) || process is Local,
  ensures
    *final(w) == (World { LINKS: final(w).LINKS, wire: final(w).wire, NODE_LINKS: final(w).NODE_LINKS, ..*old(w) }),
    process is Local && from is Local ==> lk_both_remove(*old(w), *final(w), process, from) && final(w).wire == old(w).wire && final(w).NODE_LINKS == old(w).NODE_LINKS,
    process is Local && from is Remote ==> lk_remove(*old(w), *final(w), pidid(process), from) && final(w).wire == old(w).wire && final(w).NODE_LINKS == old(w).NODE_LINKS,
    process is Remote ==> final(w).wire@ == old(w).wire@.push((Frame::Link(Link { install: false, process_id: pidid(process), from_id: pidid(from) }), pidnode(process)))
       && (!known(*old(w), pidnode(process)) ==> final(w).NODE_LINKS == old(w).NODE_LINKS)
       && (from is Local ==> lk_remove(*old(w), *final(w), pidid(from), process)) && (from is Remote ==> final(w).LINKS == old(w).LINKS)
       && (forall|n: Node| #[trigger] nl(final(w).NODE_LINKS@, n) =~= (if known(*old(w), pidnode(process)) && n == node_at(*old(w), pidnode(process)) { nl(old(w).NODE_LINKS@, n).remove((process, pidid(from))) } else { nl(old(w).NODE_LINKS@, n) })),

@fn link::link_process_down(from, exit_reason)
  requires nodes_wf(*old(w)), reg_wf(*old(w)), from is Local,
  ensures
    *final(w) == (World { LINKS: final(w).LINKS, wire: final(w).wire, NODE_LINKS: final(w).NODE_LINKS, PROCESS_REGISTRY: final(w).PROCESS_REGISTRY, mail: final(w).mail, aborted: final(w).aborted, ..*old(w) }),
    reg_wf(*final(w)),
    ({ let s = set_order(lk(old(w).LINKS@, pidid(from)));
       &&& lists(s, lk(old(w).LINKS@, pidid(from)))
       &&& signals_w(*old(w), *final(w), local_ids(s, s.len() as int), from, exit_reason)
       &&& (forall|i: u64| #[trigger] lk(final(w).LINKS@, i) =~= (if i == pidid(from) { Set::<Pid>::empty() } else if local_ids(s, s.len() as int).contains(i) { lk(old(w).LINKS@, i).remove(from) } else { lk(old(w).LINKS@, i) }))
       &&& link_down_frames(old(w).wire@, final(w).wire@, s, from, exit_reason)
       &&& (forall|n: Node, l: (Pid, u64)| #[trigger] nl(final(w).NODE_LINKS@, n).contains(l) <==> nl(old(w).NODE_LINKS@, n).contains(l) && !(l.1 == pidid(from) && l.0 is Remote && s.contains(l.0) && known(*old(w), pidnode(l.0)) && n == node_at(*old(w), pidnode(l.0))))
    }),
@entry
  let ghost sl = set_order(lk(old(w).LINKS@, pidid(from)));
@loop 0
  __s0 == sl,
  *w == (World { LINKS: w.LINKS, PROCESS_REGISTRY: w.PROCESS_REGISTRY, mail: w.mail, aborted: w.aborted, ..*old(w) }),
  reg_wf(*w),
  sl.no_duplicates(),
  signals_w(*old(w), *w, local_ids(sl, __it0.pos()), from, exit_reason),
  forall|i: u64| #[trigger] lk(w.LINKS@, i) =~= (if i == pidid(from) { Set::<Pid>::empty() } else if local_ids(sl, __it0.pos()).contains(i) { lk(old(w).LINKS@, i).remove(from) } else { lk(old(w).LINKS@, i) }),
  forall|n: u64| #[trigger] remote_links@.contains_key(n) <==> has_node(sl, __it0.pos(), n),
  forall|n: u64| #[trigger] remote_links@.contains_key(n) ==> remote_links@[n].0.from_id == pidid(from) && remote_links@[n].0.exit_reason == exit_reason && remote_links@[n].0.links@ == ids_of(sl, __it0.pos(), n) && remote_links@[n].1@ == pids_of(sl, __it0.pos(), n),
@loop_start 0
  let ghost wl = *w;
  proof { if !has_node(sl, __it0.pos(), pidnode(sl[__it0.pos()])) { lm_no_node(sl, __it0.pos(), pidnode(sl[__it0.pos()])); } }
@loop_end 0
  proof { assert forall|i: u64| #[trigger] lk(w.LINKS@, i) =~= (if i == pidid(from) { Set::<Pid>::empty() } else if local_ids(sl, __it0.pos()).contains(i) { lk(old(w).LINKS@, i).remove(from) } else { lk(old(w).LINKS@, i) }) by { assert(lk(wl.LINKS@, i) == lk(wl.LINKS@, i)); } }
@before_call process_exit_signal_linked 0
  let ghost w1 = *w;
@after_call process_exit_signal_linked 0
  proof { lm_local_fresh(sl, __it0.pos() - 1); lm_signals_step(*old(w), w1, *w, local_ids(sl, __it0.pos() - 1), pidid(pid), from, exit_reason); }
@after_loop 0
  proof {
    let e = sl.len() as int;
    assert forall|l: (Pid, u64)| l.0 is Remote && #[trigger] sl.contains(l.0) implies remote_links@.contains_key(pidnode(l.0)) by { let j = choose|j: int| 0 <= j < e && sl[j] == l.0; assert(sl[j] is Remote && pidnode(sl[j]) == pidnode(l.0)); assert(has_node(sl, e, pidnode(l.0))); }
    assert forall|n: u64, p: Pid| #[trigger] pids_of(sl, e, n).contains(p) <==> p is Remote && pidnode(p) == n && sl.contains(p) by { lm_pids_of(sl, e, n, p); }
  }
@before_loop 1
  let ghost rl = remote_links@;
@loop 1
  *w == (World { LINKS: w.LINKS, PROCESS_REGISTRY: w.PROCESS_REGISTRY, mail: w.mail, aborted: w.aborted, wire: w.wire, NODE_LINKS: w.NODE_LINKS, ..*old(w) }),
  reg_wf(*w),
  lists_map(__s1, rl),
  signals_w(*old(w), *w, local_ids(sl, sl.len() as int), from, exit_reason),
  forall|i: u64| #[trigger] lk(w.LINKS@, i) =~= (if i == pidid(from) { Set::<Pid>::empty() } else if local_ids(sl, sl.len() as int).contains(i) { lk(old(w).LINKS@, i).remove(from) } else { lk(old(w).LINKS@, i) }),
  w.wire@.len() == old(w).wire@.len() + __it1.pos(),
  forall|j: int| 0 <= j < old(w).wire@.len() ==> #[trigger] w.wire@[j] == old(w).wire@[j],
  forall|j: int| old(w).wire@.len() <= j < w.wire@.len() ==> is_link_down((#[trigger] w.wire@[j]).0, from, exit_reason, ids_of(sl, sl.len() as int, w.wire@[j].1)) && w.wire@[j].1 == __s1[j - old(w).wire@.len()].0,
  forall|n: Node, l: (Pid, u64)| #[trigger] nl(w.NODE_LINKS@, n).contains(l) <==> nl(old(w).NODE_LINKS@, n).contains(l) && !(l.1 == pidid(from) && l.0 is Remote && sl.contains(l.0) && known(*old(w), pidnode(l.0)) && n == node_at(*old(w), pidnode(l.0)) && exists|j: int| 0 <= j < __it1.pos() && (#[trigger] __s1[j]).0 == pidnode(l.0)),
@after_loop 1
  proof {
    assert forall|n: u64| #[trigger] has_node(sl, sl.len() as int, n) implies exists|j: int| old(w).wire@.len() <= j < w.wire@.len() && (#[trigger] w.wire@[j]).1 == n by {
      assert(rl.contains_key(n)); let k = choose|k: int| 0 <= k < __s1.len() && (#[trigger] __s1[k]).0 == n; assert(w.wire@[old(w).wire@.len() + k].1 == n); }
  }

@fn link::link_fill_info(pid, info)
  ensures *final(w) == *old(w),
    old(w).LINKS@.contains_key(pidid(pid)) ==> lists(final(info).links@, lk(old(w).LINKS@, pidid(pid))) && *final(info) == (ProcessInfo { links: final(info).links, ..*old(info) }),
    !old(w).LINKS@.contains_key(pidid(pid)) ==> *final(info) == *old(info),
