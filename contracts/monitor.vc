@fn monitor::monitor_create(process, reference, from, dest)
  ensures
    mo_insert(*old(w), *final(w), pidid(process), reference, (from, dest)),
    *final(w) == (World { MONITORS: final(w).MONITORS, ..*old(w) }),

@fn monitor::monitor_destroy(process, reference)
  requires nodes_wf(*old(w)) || process is Local,
  ensures
    process is Local ==> mo_remove(*old(w), *final(w), pidid(process), reference) && final(w).wire == old(w).wire && final(w).NODE_MONITORS == old(w).NODE_MONITORS,
    process is Remote ==> final(w).MONITORS == old(w).MONITORS
      && final(w).wire@ == old(w).wire@.push((Frame::Monitor(Monitor { install: false, process_id: Some(pidid(process)), process_name: None, from_id: None, reference_id: refid(reference) }), pidnode(process)))
      && (known(*old(w), pidnode(process)) ==> nm_remove(*old(w), *final(w), node_at(*old(w), pidnode(process)), reference))
      && (!known(*old(w), pidnode(process)) ==> final(w).NODE_MONITORS == old(w).NODE_MONITORS),
    *final(w) == (World { MONITORS: final(w).MONITORS, wire: final(w).wire, NODE_MONITORS: final(w).NODE_MONITORS, ..*old(w) }),

@fn monitor::monitor_install(process, reference, from) panics
  requires nodes_wf(*old(w)), sp_wf(*old(w)), ids_wf(*old(w)), names_wf(*old(w)), own_wf(*old(w)), from is Local, reference is Local,
    process matches Dest::Pid(p) ==> (p is Remote ==> pidnode(p) != 0),
  ensures
    !(process is Alias), process != Dest::Pid(from),
    nodes_wf(*final(w)), sp_wf(*final(w)), ids_wf(*final(w)),
    final(w).PROCESS.monitors@ =~= old(w).PROCESS.monitors@.insert(reference, ProcessMonitor::ForProcess(mon_target(*old(w), process))),
    final(w).PROCESS == (Process { monitors: final(w).PROCESS.monitors, ..old(w).PROCESS }),
    match mon_case(*old(w), process) {
        MonCase::Local(id) => mo_insert(*old(w), *final(w), id, reference, (from, Some(process)))
            && *final(w) == (World { MONITORS: final(w).MONITORS, PROCESS: final(w).PROCESS, ..*old(w) }),
        MonCase::NoProc(_) => own_down(*old(w), *final(w), process, reference, noproc())
            && *final(w) == (World { PROCESS: final(w).PROCESS, mail: final(w).mail, ALIASES: final(w).ALIASES, ..*old(w) }),
        MonCase::NoConnection => own_down(*old(w), *final(w), process, reference, noconnection())
            && *final(w) == (World { PROCESS: final(w).PROCESS, mail: final(w).mail, ALIASES: final(w).ALIASES, ..*old(w) }),
        MonCase::Remote(nid, node, pid, name) => nm_insert(*old(w), *final(w), node, reference, NodeMonitor::ProcessMonitor(pidid(from), process))
            && final(w).wire@ == old(w).wire@.push((Frame::Monitor(Monitor { install: true, process_id: pid, process_name: name, from_id: Some(pidid(from)), reference_id: refid(reference) }), nid))
            && reg_grows(*old(w), *final(w)) && final(w).NODE_REGISTRATIONS@[nid].supervisor is Some
            && *final(w) == (World { NODE_MONITORS: final(w).NODE_MONITORS, wire: final(w).wire, PROCESS: final(w).PROCESS, ..node_spawn_frame(*old(w), *final(w)) }),
    },

@fn monitor::monitor_process_down(from, exit_reason)
  requires nodes_wf(*old(w)), reg_wf(*old(w)),
    forall|r: Reference| #[trigger] mo(old(w).MONITORS@, pidid(from)).contains_key(r) ==> (mo(old(w).MONITORS@, pidid(from))[r].0 is Local ==> mo(old(w).MONITORS@, pidid(from))[r].1 is Some),
  ensures
    *final(w) == (World { MONITORS: final(w).MONITORS, wire: final(w).wire, NODE_MONITORS: final(w).NODE_MONITORS, mail: final(w).mail, ALIASES: final(w).ALIASES, ..*old(w) }),
    ({ let s = map_order(mo(old(w).MONITORS@, pidid(from)));
       &&& lists_map(s, mo(old(w).MONITORS@, pidid(from)))
       &&& (forall|i: u64| #[trigger] mo(final(w).MONITORS@, i) =~= (if i == pidid(from) { Map::<Reference, (Pid, Option<Dest>)>::empty() } else { mo(old(w).MONITORS@, i) }))
       &&& final(w).mail@ =~= downs(old(w).PROCESS_REGISTRY@, old(w).mail@, s, s.len() as int, exit_reason)
       &&& (forall|a: u64| #[trigger] final(w).ALIASES@.contains_key(a) <==> old(w).ALIASES@.contains_key(a) && !has_lref(s, s.len() as int, a))
       &&& (forall|a: u64| #[trigger] final(w).ALIASES@.contains_key(a) ==> final(w).ALIASES@[a] == old(w).ALIASES@[a])
       &&& mon_down_frames(old(w).wire@, final(w).wire@, s, exit_reason)
       &&& nm_sub(*old(w), *final(w))
       &&& (forall|n: Node, r: Reference| #[trigger] nm(final(w).NODE_MONITORS@, n).contains_key(r) <==> nm(old(w).NODE_MONITORS@, n).contains_key(r)
            && !(exists|j: int| 0 <= j < s.len() && (#[trigger] s[j]).0 == r && s[j].1.0 is Remote && known(*old(w), pidnode(s[j].1.0)) && n == node_at(*old(w), pidnode(s[j].1.0))))
    }),
@entry
  let ghost sl = map_order(mo(old(w).MONITORS@, pidid(from)));
@loop 0
  __s0 == sl, lists_map(sl, old(w).MONITORS@[pidid(from)]@), old(w).MONITORS@.contains_key(pidid(from)),
  w.MONITORS@ =~= old(w).MONITORS@.remove(pidid(from)),
  *w == (World { MONITORS: w.MONITORS, mail: w.mail, ALIASES: w.ALIASES, ..*old(w) }),
  w.mail@ =~= downs(old(w).PROCESS_REGISTRY@, old(w).mail@, sl, __it0.pos(), exit_reason),
  forall|a: u64| #[trigger] w.ALIASES@.contains_key(a) <==> old(w).ALIASES@.contains_key(a) && !has_lref(sl, __it0.pos(), a),
  forall|a: u64| #[trigger] w.ALIASES@.contains_key(a) ==> w.ALIASES@[a] == old(w).ALIASES@[a],
  forall|n: u64| #[trigger] remote_monitors@.contains_key(n) <==> mhas_node(sl, __it0.pos(), n),
  forall|n: u64| #[trigger] remote_monitors@.contains_key(n) ==> remote_monitors@[n].0.exit_reason == exit_reason && remote_monitors@[n].0.monitors@ == mids_of(sl, __it0.pos(), n) && remote_monitors@[n].1@ == mrefs_of(sl, __it0.pos(), n),
@loop_start 0
  proof { let e = sl[__it0.pos()]; assert(mo(old(w).MONITORS@, pidid(from)).contains_key(e.0)); if !mhas_node(sl, __it0.pos(), pidnode(e.1.0)) { lm_mno_node(sl, __it0.pos(), pidnode(e.1.0)); } }
@after_loop 0
  proof {
    assert forall|n: u64, r: Reference| #[trigger] mrefs_of(sl, sl.len() as int, n).contains(r) <==> exists|j: int| 0 <= j < sl.len() && (#[trigger] sl[j]).0 == r && sl[j].1.0 is Remote && pidnode(sl[j].1.0) == n by { lm_mrefs_of(sl, sl.len() as int, n, r); }
    assert forall|j: int| 0 <= j < sl.len() && (#[trigger] sl[j]).1.0 is Remote implies remote_monitors@.contains_key(pidnode(sl[j].1.0)) by { assert(mhas_node(sl, sl.len() as int, pidnode(sl[j].1.0))); }
  }
@before_loop 1
  let ghost rl = remote_monitors@;
@loop 1
  lists_map(__s1, rl),
  *w == (World { MONITORS: w.MONITORS, mail: w.mail, ALIASES: w.ALIASES, wire: w.wire, NODE_MONITORS: w.NODE_MONITORS, ..*old(w) }),
  w.MONITORS@ =~= old(w).MONITORS@.remove(pidid(from)),
  w.mail@ =~= downs(old(w).PROCESS_REGISTRY@, old(w).mail@, sl, sl.len() as int, exit_reason),
  forall|a: u64| #[trigger] w.ALIASES@.contains_key(a) <==> old(w).ALIASES@.contains_key(a) && !has_lref(sl, sl.len() as int, a),
  forall|a: u64| #[trigger] w.ALIASES@.contains_key(a) ==> w.ALIASES@[a] == old(w).ALIASES@[a],
  w.wire@.len() == old(w).wire@.len() + __it1.pos(),
  forall|j: int| 0 <= j < old(w).wire@.len() ==> #[trigger] w.wire@[j] == old(w).wire@[j],
  forall|j: int| old(w).wire@.len() <= j < w.wire@.len() ==> is_mon_down((#[trigger] w.wire@[j]).0, exit_reason, mids_of(sl, sl.len() as int, w.wire@[j].1)) && w.wire@[j].1 == __s1[j - old(w).wire@.len()].0,
  nm_sub(*old(w), *w),
  forall|n: Node, r: Reference| #[trigger] nm(w.NODE_MONITORS@, n).contains_key(r) <==> nm(old(w).NODE_MONITORS@, n).contains_key(r)
    && !(exists|j: int, i: int| 0 <= j < sl.len() && 0 <= i < __it1.pos() && (#[trigger] sl[j]).0 == r && sl[j].1.0 is Remote && (#[trigger] __s1[i]).0 == pidnode(sl[j].1.0) && known(*old(w), pidnode(sl[j].1.0)) && n == node_at(*old(w), pidnode(sl[j].1.0))),
@after_loop 1
  proof {
    assert forall|n: u64| #[trigger] mhas_node(sl, sl.len() as int, n) implies exists|j: int| old(w).wire@.len() <= j < w.wire@.len() && (#[trigger] w.wire@[j]).1 == n by {
      assert(rl.contains_key(n)); let k = choose|k: int| 0 <= k < __s1.len() && (#[trigger] __s1[k]).0 == n; assert(w.wire@[old(w).wire@.len() + k].1 == n); }
  }

@fn monitor::monitor_destroy_all(monitors) inst.M=VIter<(&Reference,&ProcessMonitor)>
  requires nodes_wf(*old(w)), monitors.pos() == 0,
  ensures
    *final(w) == (World { MONITORS: final(w).MONITORS, wire: final(w).wire, NODE_MONITORS: final(w).NODE_MONITORS, ALIASES: final(w).ALIASES, ..*old(w) }),
    mo_sub(*old(w), *final(w)), nm_sub(*old(w), *final(w)),
    final(w).wire@ =~= old(w).wire@ + dm_frames(monitors.seq(), monitors.seq().len() as int),
    forall|i: u64, r: Reference| #[trigger] mo(final(w).MONITORS@, i).contains_key(r) <==> mo(old(w).MONITORS@, i).contains_key(r) && !(exists|j: int| 0 <= j < monitors.seq().len() && dm_mo(#[trigger] monitors.seq()[j], i, r)),
    forall|n: Node, r: Reference| #[trigger] nm(final(w).NODE_MONITORS@, n).contains_key(r) <==> nm(old(w).NODE_MONITORS@, n).contains_key(r) && !(exists|j: int| 0 <= j < monitors.seq().len() && dm_nm(*old(w), #[trigger] monitors.seq()[j], n, r)),
    forall|a: u64| #[trigger] final(w).ALIASES@.contains_key(a) <==> old(w).ALIASES@.contains_key(a) && !(exists|j: int| 0 <= j < monitors.seq().len() && *(#[trigger] monitors.seq()[j]).0 is Local && refid(*monitors.seq()[j].0) == a),
    forall|a: u64| #[trigger] final(w).ALIASES@.contains_key(a) ==> final(w).ALIASES@[a] == old(w).ALIASES@[a],
@entry
  let ghost sl = monitors.seq();
@loop 0
  __s0 == sl,
  *w == (World { MONITORS: w.MONITORS, wire: w.wire, NODE_MONITORS: w.NODE_MONITORS, ALIASES: w.ALIASES, ..*old(w) }),
  mo_sub(*old(w), *w), nm_sub(*old(w), *w),
  w.wire@ =~= old(w).wire@ + dm_frames(sl, __it0.pos()),
  forall|i: u64, r: Reference| #[trigger] mo(w.MONITORS@, i).contains_key(r) <==> mo(old(w).MONITORS@, i).contains_key(r) && !(exists|j: int| 0 <= j < __it0.pos() && dm_mo(#[trigger] sl[j], i, r)),
  forall|n: Node, r: Reference| #[trigger] nm(w.NODE_MONITORS@, n).contains_key(r) <==> nm(old(w).NODE_MONITORS@, n).contains_key(r) && !(exists|j: int| 0 <= j < __it0.pos() && dm_nm(*old(w), #[trigger] sl[j], n, r)),
  forall|a: u64| #[trigger] w.ALIASES@.contains_key(a) <==> old(w).ALIASES@.contains_key(a) && !(exists|j: int| 0 <= j < __it0.pos() && *(#[trigger] sl[j]).0 is Local && refid(*sl[j].0) == a),
  forall|a: u64| #[trigger] w.ALIASES@.contains_key(a) ==> w.ALIASES@[a] == old(w).ALIASES@[a],

@fn monitor::monitor_fill_info(pid, info)
  ensures *final(w) == *old(w),
    old(w).MONITORS@.contains_key(pidid(pid)) ==> final(info).monitored_by@ =~= watchers(mo(old(w).MONITORS@, pidid(pid))) && *final(info) == (ProcessInfo { monitored_by: final(info).monitored_by, ..*old(info) }),
    !old(w).MONITORS@.contains_key(pidid(pid)) ==> *final(info) == *old(info),
@loop 0
  *w == *old(w), __r0@.len() == __it0.pos(), forall|i: int| 0 <= i < __it0.pos() ==> #[trigger] __r0@[i] == __it0.seq()[i].0,
