@fn exit_reason::ExitReason#From<String>::from(value) nw
@from_spec
  ExitReason::Custom(value)
@fn exit_reason::ExitReason#From<&str>::from(value) nw
@from_spec
  ExitReason::Custom(vstr(value@))
@fn process_registry::process_drop(pid)
  requires reg_wf(*old(w)),
  ensures
    r == (if old(w).PROCESS_REGISTRY@.contains_key(pidid(pid)) { Some(old(w).PROCESS_REGISTRY@[pidid(pid)]) } else { None }),
    final(w).PROCESS_REGISTRY@ =~= old(w).PROCESS_REGISTRY@.remove(pidid(pid)),
    *final(w) == (World { PROCESS_REGISTRY: final(w).PROCESS_REGISTRY, ..*old(w) }),
    reg_wf(*final(w)),

@fn process_registry::process_sender(pid)
  ensures
    *final(w) == *old(w),
    r is Some <==> old(w).PROCESS_REGISTRY@.contains_key(pidid(pid)),
    r is Some ==> r->0 == old(w).PROCESS_REGISTRY@[pidid(pid)].sender,

@fn process_registry::process_name_lookup(name)
  requires names_nz(*old(w)),
  ensures
    *final(w) == *old(w),
    r == (if old(w).PROCESS_NAMES@.contains_key(vstr(name@)) { Some(lpid(old(w).PROCESS_NAMES@[vstr(name@)])) } else { None }),

@fn process_registry::process_insert(id, registration)
  ensures
    final(w).PROCESS_REGISTRY@ =~= old(w).PROCESS_REGISTRY@.insert(id, registration),
    *final(w) == (World { PROCESS_REGISTRY: final(w).PROCESS_REGISTRY, ..*old(w) }),

@fn process_registry::process_name_remove(name)
  ensures
    final(w).PROCESS_NAMES@ =~= old(w).PROCESS_NAMES@.remove(vstr(name@)),
    *final(w) == (World { PROCESS_NAMES: final(w).PROCESS_NAMES, ..*old(w) }),

@fn process_registry::process_alive(pid) panics
  ensures
    *final(w) == *old(w),
    pid is Local,
    r == (old(w).PROCESS_REGISTRY@.contains_key(pidid(pid)) && old(w).PROCESS_REGISTRY@[pidid(pid)].exit_reason is None),

@fn process_registry::process_register(pid, name)
  requires names_wf(*old(w)),
  ensures
    r is Ok <==> register_ok(*old(w), pid, name),
    final(w).PROCESS_NAMES@ =~= (if r is Ok && !old(w).PROCESS_NAMES@.contains_key(name) { old(w).PROCESS_NAMES@.insert(name, pidid(pid)) } else { old(w).PROCESS_NAMES@ }),
    final(w).PROCESS_REGISTRY@ =~= (if r is Ok && !old(w).PROCESS_NAMES@.contains_key(name) { old(w).PROCESS_REGISTRY@.insert(pidid(pid), ProcessRegistration { name: Some(name), ..old(w).PROCESS_REGISTRY@[pidid(pid)] }) } else { old(w).PROCESS_REGISTRY@ }),
    *final(w) == (World { PROCESS_REGISTRY: final(w).PROCESS_REGISTRY, PROCESS_NAMES: final(w).PROCESS_NAMES, ..*old(w) }),
    names_wf(*final(w)),
@exit
  proof { lm_names_register(*old(w), *w, name, pidid(pid)); }

@fn process_registry::process_unregister(name) panics
  requires names_wf(*old(w)),
  ensures
    old(w).PROCESS_NAMES@.contains_key(vstr(name@)),
    final(w).PROCESS_NAMES@ =~= old(w).PROCESS_NAMES@.remove(vstr(name@)),
    ({ let id = old(w).PROCESS_NAMES@[vstr(name@)];
       final(w).PROCESS_REGISTRY@ =~= (if old(w).PROCESS_REGISTRY@.contains_key(id) { old(w).PROCESS_REGISTRY@.insert(id, ProcessRegistration { name: None, ..old(w).PROCESS_REGISTRY@[id] }) } else { old(w).PROCESS_REGISTRY@ }) }),
    *final(w) == (World { PROCESS_REGISTRY: final(w).PROCESS_REGISTRY, PROCESS_NAMES: final(w).PROCESS_NAMES, ..*old(w) }),
    names_wf(*final(w)),

@fn process_registry::process_exit(pid, from, exit_reason)
  requires reg_wf(*old(w)),
  ensures
    signalled(*old(w), *final(w), pidid(pid), exit_act(trapf(old(w).PROCESS_REGISTRY@[pidid(pid)].flags), pid == from, exit_reason), from, exit_reason),
    reg_wf(*final(w)),

@fn process_registry::process_exit_signal_linked(pid, from, exit_reason)
  requires reg_wf(*old(w)),
  ensures
    signalled(*old(w), *final(w), pidid(pid), link_act(trapf(old(w).PROCESS_REGISTRY@[pidid(pid)].flags), exit_reason), from, exit_reason),
    reg_wf(*final(w)),

@fn process_registry::process_flags(pid)
  ensures
    *final(w) == *old(w),
    r == (if old(w).PROCESS_REGISTRY@.contains_key(pidid(pid)) { Some(old(w).PROCESS_REGISTRY@[pidid(pid)].flags) } else { None }),

@fn process_registry::process_set_flags(pid, flags)
  requires reg_wf(*old(w)),
  ensures
    final(w).PROCESS_REGISTRY@ =~= (if old(w).PROCESS_REGISTRY@.contains_key(pidid(pid)) { old(w).PROCESS_REGISTRY@.insert(pidid(pid), ProcessRegistration { flags: flags, ..old(w).PROCESS_REGISTRY@[pidid(pid)] }) } else { old(w).PROCESS_REGISTRY@ }),
    *final(w) == (World { PROCESS_REGISTRY: final(w).PROCESS_REGISTRY, ..*old(w) }),
    reg_wf(*final(w)),

@fn process_registry::process_set_exit_reason(pid, exit_reason)
  requires reg_wf(*old(w)),
  ensures
    final(w).PROCESS_REGISTRY@ =~= (if old(w).PROCESS_REGISTRY@.contains_key(pidid(pid)) { old(w).PROCESS_REGISTRY@.insert(pidid(pid), with_reason(old(w).PROCESS_REGISTRY@[pidid(pid)], exit_reason)) } else { old(w).PROCESS_REGISTRY@ }),
    *final(w) == (World { PROCESS_REGISTRY: final(w).PROCESS_REGISTRY, ..*old(w) }),
    reg_wf(*final(w)),

@fn process_registry::process_list()
  requires reg_wf(*old(w)),
  ensures
    *final(w) == *old(w),
    r@.no_duplicates(),
    forall|id: u64| old(w).PROCESS_REGISTRY@.contains_key(id) ==> #[trigger] r@.contains(lpid(id)),
    forall|p: Pid| #[trigger] r@.contains(p) ==> p is Local && old(w).PROCESS_REGISTRY@.contains_key(pidid(p)),
@loop 0
  *w == *old(w), __r0@.len() == __it0.pos(),
  forall|i: int| 0 <= i < __r0@.len() ==> #[trigger] __r0@[i] == lpid(*__s0[i].k),
@after_loop 0
  proof {
    let ps = mr_pairs(__s0);
    assert forall|i: int| 0 <= i < ps.len() implies #[trigger] __r0@[i] == lpid(ps[i].0) && ps[i].0 != 0 && nz(ps[i].0)@ == ps[i].0 by { assert(ps[i].0 == *__s0[i].k); assert(w.PROCESS_REGISTRY@.contains_key(ps[i].0)); lm_nz(ps[i].0); }
    assert forall|i: int, j: int| 0 <= i < j < ps.len() implies __r0@[i] != __r0@[j] by { assert(ps[i].0 != ps[j].0); assert(__r0@[i] == lpid(ps[i].0) && __r0@[j] == lpid(ps[j].0)); assert(nz(ps[i].0)@ == ps[i].0); assert(nz(ps[j].0)@ == ps[j].0); }
    assert forall|id: u64| old(w).PROCESS_REGISTRY@.contains_key(id) implies #[trigger] __r0@.contains(lpid(id)) by { let i = choose|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).0 == id; assert(__r0@[i] == lpid(id)); }
    assert forall|p: Pid| #[trigger] __r0@.contains(p) implies p is Local && old(w).PROCESS_REGISTRY@.contains_key(pidid(p)) by { let i = choose|i: int| 0 <= i < __r0@.len() && __r0@[i] == p; assert(w.PROCESS_REGISTRY@.contains_key(ps[i].0)); assert(nz(ps[i].0)@ == ps[i].0); }
  }

@fn process_registry::process_name_list()
  ensures
    *final(w) == *old(w),
    r@.no_duplicates(),
    forall|n: String| #[trigger] r@.contains(n) <==> old(w).PROCESS_NAMES@.contains_key(n),
@loop 0
  *w == *old(w), __r0@.len() == __it0.pos(),
  forall|i: int| 0 <= i < __r0@.len() ==> #[trigger] __r0@[i] == *__s0[i].k,
@after_loop 0
  proof {
    let ps = mr_pairs(__s0);
    assert forall|i: int| 0 <= i < ps.len() implies #[trigger] __r0@[i] == ps[i].0 by { assert(ps[i].0 == *__s0[i].k); }
    assert forall|i: int, j: int| 0 <= i < j < ps.len() implies __r0@[i] != __r0@[j] by { assert(ps[i].0 != ps[j].0); }
    assert forall|n: String| #[trigger] __r0@.contains(n) <==> old(w).PROCESS_NAMES@.contains_key(n) by {
      if __r0@.contains(n) { let i = choose|i: int| 0 <= i < __r0@.len() && __r0@[i] == n; assert(w.PROCESS_NAMES@.contains_key(ps[i].0)); }
      if old(w).PROCESS_NAMES@.contains_key(n) { let i = choose|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).0 == n; assert(__r0@[i] == n); }
    }
  }

@fn process_info::ProcessInfo::new() nw
  ensures r.registered_name is None, !r.trap_exit, r.links@.len() == 0, r.monitored_by@.len() == 0,

@fn process_registry::process_info(pid)
  ensures *final(w) == *old(w),
    match r { None => !old(w).PROCESS_REGISTRY@.contains_key(pidid(pid)),
      Some(i) => old(w).PROCESS_REGISTRY@.contains_key(pidid(pid)) && i.registered_name == old(w).PROCESS_REGISTRY@[pidid(pid)].name
        && i.trap_exit == trapf(old(w).PROCESS_REGISTRY@[pidid(pid)].flags) && i.links@.len() == 0 && i.monitored_by@.len() == 0 },
