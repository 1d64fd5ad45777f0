@fn process::Process::new(pid, sender, receiver) nw
  ensures r.pid == pid, r.sender == sender, r.receiver == receiver, r.items@ == Seq::<ProcessItem>::empty(), r.aliases@ == Set::<u64>::empty(), r.monitors@ == Map::<Reference, ProcessMonitor>::empty(),

@fn process::spawn_internal(function, link, monitor)
  requires sp_wf(*old(w)), ids_wf(*old(w)), own_wf(*old(w)) || !link,
  ensures
    spawned(*old(w), *final(w), old(w).process__ID@), sp_wf(*final(w)), reg_grows(*old(w), *final(w)), ids_wf(*final(w)),
    match r {
      SpawnResult::Pid(p) => !monitor && p == lpid(old(w).process__ID@) && final(w).MONITORS == old(w).MONITORS && final(w).PROCESS == old(w).PROCESS && final(w).reference__REF == old(w).reference__REF,
      SpawnResult::PidMonitor(p, m) => monitor && p == lpid(old(w).process__ID@) && m == Reference::Local(nz(old(w).reference__REF@)) && final(w).reference__REF@ == old(w).reference__REF@ + 1
        && mo_insert(*old(w), *final(w), pidid(p), m, (old(w).PROCESS.pid, Some(Dest::Pid(p))))
        && final(w).PROCESS == (Process { monitors: final(w).PROCESS.monitors, ..old(w).PROCESS }) && final(w).PROCESS.monitors@ =~= old(w).PROCESS.monitors@.insert(m, ProcessMonitor::ForProcess(Some(p))),
    },
    link ==> lk_both_add(*old(w), *final(w), lpid(old(w).process__ID@), old(w).PROCESS.pid),
    !link ==> final(w).LINKS == old(w).LINKS,
    *final(w) == (World { LINKS: final(w).LINKS, MONITORS: final(w).MONITORS, PROCESS: final(w).PROCESS, reference__REF: final(w).reference__REF, ..spawn_frame(*old(w), *final(w)) }),

@fn process::spawn_internal@0(registered_rx: oneshot::OneRx, function: T) awaits
  ensures final(w).PROCESS.pid == old(w).PROCESS.pid, final(w).PROCESS_REGISTRY@ =~= body_done(final(w).after@, pidid(old(w).PROCESS.pid), body_end(function)),

@fn process::Process::spawn(function) unreachable_ok
  requires sp_wf(*old(w)), ids_wf(*old(w)),
  ensures spawned(*old(w), *final(w), pidid(r)), r == lpid(old(w).process__ID@),
    *final(w) == spawn_frame(*old(w), *final(w)),
    sp_wf(*final(w)), reg_grows(*old(w), *final(w)),

@fn process::Process::spawn_link(function) unreachable_ok
  requires sp_wf(*old(w)), ids_wf(*old(w)), own_wf(*old(w)),
  ensures spawned(*old(w), *final(w), pidid(r)), r == lpid(old(w).process__ID@),
    lk_both_add(*old(w), *final(w), r, old(w).PROCESS.pid),
    *final(w) == (World { LINKS: final(w).LINKS, ..spawn_frame(*old(w), *final(w)) }),
    sp_wf(*final(w)), reg_grows(*old(w), *final(w)),

@fn process::Process::spawn_monitor(function) unreachable_ok
  requires sp_wf(*old(w)), ids_wf(*old(w)), own_wf(*old(w)),
  ensures spawned(*old(w), *final(w), pidid(r.0)), r.0 == lpid(old(w).process__ID@), r.1 == Reference::Local(nz(old(w).reference__REF@)),
    mo_insert(*old(w), *final(w), pidid(r.0), r.1, (old(w).PROCESS.pid, Some(Dest::Pid(r.0)))),
    final(w).PROCESS == (Process { monitors: final(w).PROCESS.monitors, ..old(w).PROCESS }), final(w).PROCESS.monitors@ =~= old(w).PROCESS.monitors@.insert(r.1, ProcessMonitor::ForProcess(Some(r.0))),
    *final(w) == (World { MONITORS: final(w).MONITORS, PROCESS: final(w).PROCESS, reference__REF: final(w).reference__REF, ..spawn_frame(*old(w), *final(w)) }),
    sp_wf(*final(w)), reg_grows(*old(w), *final(w)), ids_wf(*final(w)),

@fn process::Process::alias(reply)
  requires ids_wf(*old(w)),
  ensures r == Reference::Local(nz(old(w).reference__REF@)), final(w).reference__REF@ == old(w).reference__REF@ + 1, ids_wf(*final(w)),
    final(w).ALIASES@ =~= old(w).ALIASES@.insert(old(w).reference__REF@, Alias { sender: old(w).PROCESS.sender, reply }),
    final(w).PROCESS == (Process { aliases: final(w).PROCESS.aliases, ..old(w).PROCESS }), final(w).PROCESS.aliases@ =~= old(w).PROCESS.aliases@.insert(old(w).reference__REF@),
    *final(w) == (World { ALIASES: final(w).ALIASES, PROCESS: final(w).PROCESS, reference__REF: final(w).reference__REF, ..*old(w) }),

@fn process::Process::unalias(alias)
  ensures
    r == (alias is Local && old(w).ALIASES@.contains_key(refid(alias)) && old(w).ALIASES@[refid(alias)].sender.chan() == old(w).PROCESS.sender.chan()),
    final(w).ALIASES@ =~= (if r { old(w).ALIASES@.remove(refid(alias)) } else { old(w).ALIASES@ }),
    final(w).PROCESS == (Process { aliases: final(w).PROCESS.aliases, ..old(w).PROCESS }), final(w).PROCESS.aliases@ =~= (if alias is Local { old(w).PROCESS.aliases@.remove(refid(alias)) } else { old(w).PROCESS.aliases@ }),
    *final(w) == (World { ALIASES: final(w).ALIASES, PROCESS: final(w).PROCESS, ..*old(w) }),

@fn process::Process::current()
  ensures r == old(w).PROCESS.pid, *final(w) == *old(w),

@fn process::Process::whereis(name) inst.S=String
  requires names_wf(*old(w)),
  ensures *final(w) == *old(w), r == (if old(w).PROCESS_NAMES@.contains_key(name) { Some(lpid(old(w).PROCESS_NAMES@[name])) } else { None }),

@fn process::Process::alive(pid) panics
  ensures *final(w) == *old(w), pid is Local, r == (old(w).PROCESS_REGISTRY@.contains_key(pidid(pid)) && old(w).PROCESS_REGISTRY@[pidid(pid)].exit_reason is None),

@fn process::Process::register(pid, name) inst.S=String
  requires names_wf(*old(w)),
  ensures
    r is Ok <==> register_ok(*old(w), pid, name),
    final(w).PROCESS_NAMES@ =~= (if r is Ok && !old(w).PROCESS_NAMES@.contains_key(name) { old(w).PROCESS_NAMES@.insert(name, pidid(pid)) } else { old(w).PROCESS_NAMES@ }),
    *final(w) == (World { PROCESS_REGISTRY: final(w).PROCESS_REGISTRY, PROCESS_NAMES: final(w).PROCESS_NAMES, ..*old(w) }),
    names_wf(*final(w)),

@fn process::Process::unregister(name) inst.S=String panics
  requires names_wf(*old(w)),
  ensures old(w).PROCESS_NAMES@.contains_key(name), final(w).PROCESS_NAMES@ =~= old(w).PROCESS_NAMES@.remove(name),
    *final(w) == (World { PROCESS_REGISTRY: final(w).PROCESS_REGISTRY, PROCESS_NAMES: final(w).PROCESS_NAMES, ..*old(w) }),
    names_wf(*final(w)),

@fn process::Process::registered()
  ensures *final(w) == *old(w), r@.no_duplicates(), forall|n: String| #[trigger] r@.contains(n) <==> old(w).PROCESS_NAMES@.contains_key(n),

@fn process::Process::list()
  requires reg_wf(*old(w)),
  ensures *final(w) == *old(w), r@.no_duplicates(),
    forall|id: u64| old(w).PROCESS_REGISTRY@.contains_key(id) ==> #[trigger] r@.contains(lpid(id)),
    forall|p: Pid| #[trigger] r@.contains(p) ==> p is Local && old(w).PROCESS_REGISTRY@.contains_key(pidid(p)),

@fn process::Process::link(pid)
  requires node_inv(*old(w)), pid_ok(pid), old(w).PROCESS_REGISTRY@.contains_key(pidid(old(w).PROCESS.pid)),
  ensures
    pid == old(w).PROCESS.pid ==> *final(w) == *old(w),
    nodes_wf(*final(w)), sp_wf(*final(w)),
    pid != old(w).PROCESS.pid ==> match link_case(*old(w), pid) {
        LinkCase::Linked => only_links(*old(w), *final(w)) && lk_both_add(*old(w), *final(w), pid, old(w).PROCESS.pid),
        LinkCase::NoProc => lk_both_remove(*old(w), *final(w), pid, old(w).PROCESS.pid) && link_signal(*old(w), *final(w), pidid(old(w).PROCESS.pid), pid, noproc()),
        LinkCase::Remote => lk_add(*old(w), *final(w), pidid(old(w).PROCESS.pid), pid)
            && final(w).wire@ == old(w).wire@.push((Frame::Link(Link { install: true, process_id: pidid(pid), from_id: pidid(old(w).PROCESS.pid) }), pidnode(pid))),
        LinkCase::NoConnection => lk_remove(*old(w), *final(w), pidid(old(w).PROCESS.pid), pid) && link_signal(*old(w), *final(w), pidid(old(w).PROCESS.pid), pid, noconnection()),
    },
@entry
  proof { if pidid(pid) == pidid(w.PROCESS.pid) && pid is Local { lm_lpid_inj(pid); lm_lpid_inj(w.PROCESS.pid); } }

@fn process::Process::unlink(pid)
  requires node_inv(*old(w)),
  ensures
    *final(w) == (World { LINKS: final(w).LINKS, wire: final(w).wire, NODE_LINKS: final(w).NODE_LINKS, ..*old(w) }),
    pid == old(w).PROCESS.pid ==> *final(w) == *old(w),
    pid != old(w).PROCESS.pid && pid is Local ==> lk_both_remove(*old(w), *final(w), pid, old(w).PROCESS.pid) && final(w).wire == old(w).wire && final(w).NODE_LINKS == old(w).NODE_LINKS,
    pid is Remote ==> lk_remove(*old(w), *final(w), pidid(old(w).PROCESS.pid), pid)
       && final(w).wire@ == old(w).wire@.push((Frame::Link(Link { install: false, process_id: pidid(pid), from_id: pidid(old(w).PROCESS.pid) }), pidnode(pid))),

@fn process::Process::monitor(process) inst.T=Dest panics
  requires node_inv(*old(w)), dest_ok(process), old(w).PROCESS.pid is Local,
  ensures
    r == Reference::Local(nz(old(w).reference__REF@)), final(w).reference__REF@ == old(w).reference__REF@ + 1,
    monitored(*old(w), *final(w), process, r),

@fn process::Process::monitor_alias(process, reply) inst.T=Dest panics
  requires node_inv(*old(w)), dest_ok(process), old(w).PROCESS.pid is Local,
  ensures
    r == Reference::Local(nz(old(w).reference__REF@)), final(w).reference__REF@ == old(w).reference__REF@ + 1,
    monitored(World { ALIASES: final(w).ALIASES, ..*old(w) }, *final(w), process, r),
    final(w).ALIASES@ =~= (if mon_case(*old(w), process) is NoProc || mon_case(*old(w), process) is NoConnection { old(w).ALIASES@.remove(refid(r)) } else { old(w).ALIASES@.insert(refid(r), Alias { sender: old(w).PROCESS.sender, reply }) }),

@fn process::Process::flags() panics
  ensures *final(w) == *old(w), old(w).PROCESS_REGISTRY@.contains_key(pidid(old(w).PROCESS.pid)), r == old(w).PROCESS_REGISTRY@[pidid(old(w).PROCESS.pid)].flags,

@fn process::Process::set_flags(flags)
  requires reg_wf(*old(w)),
  ensures
    final(w).PROCESS_REGISTRY@ =~= (if old(w).PROCESS_REGISTRY@.contains_key(pidid(old(w).PROCESS.pid)) { old(w).PROCESS_REGISTRY@.insert(pidid(old(w).PROCESS.pid), ProcessRegistration { flags: flags, ..old(w).PROCESS_REGISTRY@[pidid(old(w).PROCESS.pid)] }) } else { old(w).PROCESS_REGISTRY@ }),
    *final(w) == (World { PROCESS_REGISTRY: final(w).PROCESS_REGISTRY, ..*old(w) }),

@fn process::Process::exit(pid, exit_reason) inst.E=ExitReason
  requires reg_wf(*old(w)),
  ensures
    pid is Local ==> signalled(*old(w), *final(w), pidid(pid), exit_act(trapf(old(w).PROCESS_REGISTRY@[pidid(pid)].flags), pid == old(w).PROCESS.pid, exit_reason), old(w).PROCESS.pid, exit_reason),
    pid is Remote ==> *final(w) == (World { wire: final(w).wire, ..*old(w) }) && final(w).wire@ == old(w).wire@.push((Frame::Exit(Exit { process_id: pidid(pid), from_id: pidid(old(w).PROCESS.pid), exit_reason }), pidnode(pid))),
    reg_wf(*final(w)),

@fn process::Process::demonitor(monitor) panics
  requires nodes_wf(*old(w)),
  ensures
    final(w).PROCESS == (Process { items: final(w).PROCESS.items, monitors: final(w).PROCESS.monitors, ..old(w).PROCESS }),
    *final(w) == (World { MONITORS: final(w).MONITORS, wire: final(w).wire, NODE_MONITORS: final(w).NODE_MONITORS, ALIASES: final(w).ALIASES, PROCESS: final(w).PROCESS, ..*old(w) }),
    final(w).PROCESS.monitors@ =~= old(w).PROCESS.monitors@.remove(monitor),
    !old(w).PROCESS.monitors@.contains_key(monitor) ==> final(w).PROCESS.items@ =~= without_down(old(w).PROCESS.items@, old(w).PROCESS.items@.len() as int, monitor) && *final(w) == (World { PROCESS: final(w).PROCESS, ..*old(w) }),
    old(w).PROCESS.monitors@.contains_key(monitor) ==> final(w).PROCESS.items == old(w).PROCESS.items && match old(w).PROCESS.monitors@[monitor] {
      ProcessMonitor::ForProcess(None) => *final(w) == (World { PROCESS: final(w).PROCESS, ALIASES: final(w).ALIASES, ..*old(w) }) && final(w).ALIASES@ =~= old(w).ALIASES@.remove(refid(monitor)),
      ProcessMonitor::ForProcess(Some(p)) => final(w).ALIASES@ =~= old(w).ALIASES@.remove(refid(monitor))
        && (p is Local ==> mo_remove(*old(w), *final(w), pidid(p), monitor) && final(w).wire == old(w).wire && final(w).NODE_MONITORS == old(w).NODE_MONITORS)
        && (p is Remote ==> final(w).MONITORS == old(w).MONITORS
             && final(w).wire@ == old(w).wire@.push((Frame::Monitor(Monitor { install: false, process_id: Some(pidid(p)), process_name: None, from_id: None, reference_id: refid(monitor) }), pidnode(p)))
             && (known(*old(w), pidnode(p)) ==> nm_remove(*old(w), *final(w), node_at(*old(w), pidnode(p)), monitor))),
      ProcessMonitor::ForNode(_) => false,
    },
@entry
  let ghost s0 = w.PROCESS.items@;
@loop 0
  __s0 == s0,
  w.PROCESS.items@ =~= without_down(s0, __it0.pos(), monitor),
  w.PROCESS == (Process { items: w.PROCESS.items, monitors: w.PROCESS.monitors, ..old(w).PROCESS }),
  w.PROCESS.monitors@ =~= old(w).PROCESS.monitors@.remove(monitor),
  *w == (World { PROCESS: w.PROCESS, ..*old(w) }),

@fn process::Process#Drop::drop(self) panics
  requires nodes_wf(*old(w)), sp_wf(*old(w)), names_wf(*old(w)), old(self).pid is Local,
    forall|r: Reference| #[trigger] mo(old(w).MONITORS@, pidid(old(self).pid)).contains_key(r) ==> (mo(old(w).MONITORS@, pidid(old(self).pid))[r].0 is Local ==> mo(old(w).MONITORS@, pidid(old(self).pid))[r].1 is Some),
  ensures
    old(w).PROCESS_REGISTRY@.contains_key(pidid(old(self).pid)),
    !final(w).PROCESS_REGISTRY@.contains_key(pidid(old(self).pid)),
    reg_wf(*final(w)), names_wf(*final(w)),
    forall|n: String| #[trigger] final(w).PROCESS_NAMES@.contains_key(n) <==> old(w).PROCESS_NAMES@.contains_key(n) && old(w).PROCESS_NAMES@[n] != pidid(old(self).pid),
    forall|n: String| #[trigger] final(w).PROCESS_NAMES@.contains_key(n) ==> final(w).PROCESS_NAMES@[n] == old(w).PROCESS_NAMES@[n],
    ({ let me = old(self).pid; let id = pidid(me);
       let reason = end_reason(old(w).PROCESS_REGISTRY@[id]);
       let s = set_order(lk(old(w).LINKS@, id)); let sm = map_order(mo(old(w).MONITORS@, id));
       let mine = refpairs(map_order(old(self).monitors@));
       &&& lists(s, lk(old(w).LINKS@, id)) && lists_map(sm, mo(old(w).MONITORS@, id)) && lists_map(map_order(old(self).monitors@), old(self).monitors@)
       // links: every linked local process gets one signal; monitors: every local monitor gets one DOWN after that
       &&& (exists|m1: Map<int, Seq<ProcessItem>>| #[trigger] link_signals(old(w).PROCESS_REGISTRY@.remove(id), old(w).mail@, old(w).aborted@, final(w).PROCESS_REGISTRY@, m1, final(w).aborted@, local_ids(s, s.len() as int), me, reason)
              && final(w).mail@ =~= downs(final(w).PROCESS_REGISTRY@, m1, sm, sm.len() as int, reason))
       &&& (forall|i: u64| #[trigger] lk(final(w).LINKS@, i) =~= (if i == id { Set::<Pid>::empty() } else if local_ids(s, s.len() as int).contains(i) { lk(old(w).LINKS@, i).remove(me) } else { lk(old(w).LINKS@, i) }))
       // remote nodes: one LinkDown and one MonitorDown per node, then the removal of the own remote monitors
       &&& (exists|f1: Seq<(Frame, u64)>, f2: Seq<(Frame, u64)>| #[trigger] link_down_frames(old(w).wire@, f1, s, me, reason) && #[trigger] mon_down_frames(f1, f2, sm, reason) && final(w).wire@ =~= f2 + dm_frames(mine, mine.len() as int))
       &&& (forall|i: u64, r: Reference| #[trigger] mo(final(w).MONITORS@, i).contains_key(r) <==> i != id && mo(old(w).MONITORS@, i).contains_key(r) && !(exists|j: int| 0 <= j < mine.len() && dm_mo(#[trigger] mine[j], i, r)))
       &&& (forall|i: u64, r: Reference| #[trigger] mo(final(w).MONITORS@, i).contains_key(r) ==> mo(final(w).MONITORS@, i)[r] == mo(old(w).MONITORS@, i)[r])
       &&& (forall|a: u64| #[trigger] final(w).ALIASES@.contains_key(a) ==> old(w).ALIASES@.contains_key(a) && final(w).ALIASES@[a] == old(w).ALIASES@[a] && !old(self).aliases@.contains(a) && !has_lref(sm, sm.len() as int, a) && !(exists|j: int| 0 <= j < mine.len() && *(#[trigger] mine[j]).0 is Local && refid(*mine[j].0) == a))
       &&& (forall|a: u64| #[trigger] old(w).ALIASES@.contains_key(a) && !old(self).aliases@.contains(a) && !has_lref(sm, sm.len() as int, a) && !(exists|j: int| 0 <= j < mine.len() && *(#[trigger] mine[j]).0 is Local && refid(*mine[j].0) == a) ==> final(w).ALIASES@.contains_key(a))
    }),
    *final(w) == (World { PROCESS_REGISTRY: final(w).PROCESS_REGISTRY, PROCESS_NAMES: final(w).PROCESS_NAMES, LINKS: final(w).LINKS, MONITORS: final(w).MONITORS, ALIASES: final(w).ALIASES, NODE_LINKS: final(w).NODE_LINKS, NODE_MONITORS: final(w).NODE_MONITORS, wire: final(w).wire, mail: final(w).mail, aborted: final(w).aborted, ..*old(w) }),
@after_call link_process_down 0
  let ghost wl = *w;
@after_call monitor_process_down 0
  let ghost wm = *w;
  proof { let s = set_order(lk(old(w).LINKS@, pidid(self.pid)));
    assert(link_down_frames(old(w).wire@, wl.wire@, s, self.pid, exit_reason));
    assert(link_signals(old(w).PROCESS_REGISTRY@.remove(pidid(self.pid)), old(w).mail@, old(w).aborted@, w.PROCESS_REGISTRY@, wl.mail@, w.aborted@, local_ids(s, s.len() as int), self.pid, exit_reason));
    let sm = map_order(mo(old(w).MONITORS@, pidid(self.pid)));
    assert(w.mail@ =~= downs(w.PROCESS_REGISTRY@, wl.mail@, sm, sm.len() as int, exit_reason)); }

@fn process::Process::info(pid) panics
  ensures *final(w) == *old(w), pid is Local,
    match r { None => !old(w).PROCESS_REGISTRY@.contains_key(pidid(pid)),
      Some(i) => old(w).PROCESS_REGISTRY@.contains_key(pidid(pid)) && i.registered_name == old(w).PROCESS_REGISTRY@[pidid(pid)].name
        && i.trap_exit == trapf(old(w).PROCESS_REGISTRY@[pidid(pid)].flags)
        && (if old(w).LINKS@.contains_key(pidid(pid)) { lists(i.links@, lk(old(w).LINKS@, pidid(pid))) } else { i.links@.len() == 0 })
        && (if old(w).MONITORS@.contains_key(pidid(pid)) { i.monitored_by@ =~= watchers(mo(old(w).MONITORS@, pidid(pid))) } else { i.monitored_by@.len() == 0 }) },

@fn process::Process::receiver() nw
  ensures r.ignore_type,
@fn process::Process::receive() statref panics
  ensures
    final(w).PROCESS == (Process { monitors: final(w).PROCESS.monitors, aliases: final(w).PROCESS.aliases, items: final(w).PROCESS.items, ..old(w).PROCESS }),
    exists|k: int| #[trigger] recv_at::<T>(*old(w), *final(w), false, r, k),
