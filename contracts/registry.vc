// C17: the keyed registry
@units reg
@fn registry::lookup_process(registry, key)
  ensures *final(w) == *old(w), r == at(tab(*old(w), registry.text()), *key),
@fn registry::remove_process(registry, key)
  ensures only_tab(*old(w), *final(w), registry.text()), final(w).REGISTRY@.dom() =~= old(w).REGISTRY@.dom(), tab(*final(w), registry.text()) =~= tab(*old(w), registry.text()).remove(*key), r == at(tab(*old(w), registry.text()), *key),
@fn registry::count_processes(registry)
  ensures *final(w) == *old(w), r == tab(*old(w), registry.text()).dom().len(),
@fn registry::list_processes(registry)
  ensures *final(w) == *old(w), lists_map(r@, tab(*old(w), registry.text())),
@loop 0
  __r0@ =~= mr_pairs(__s0).take(__it0.pos()), __it0.pos() == __s0.len() ==> __r0@ =~= mr_pairs(__s0),
@fn registry::register_process(registry, key, process)
  ensures only_tab(*old(w), *final(w), registry.text()), tab(*final(w), registry.text()) =~= tab(*old(w), registry.text()).insert(key, process),
@fn registry::Registry::new(name) nw
  ensures r.name@ == name.text(), r.start is None, r.shutdown is BrutalKill, r.lookup@ == Map::<Pid, RegistryKey>::empty(),
@fn registry::Registry::with_shutdown(self, shutdown) nw
  ensures r == (Registry { shutdown, ..self }),
@fn registry::Registry::lookup_or_start_by_key(self, key)
  requires reg_wf(*old(self), *old(w)),
  ensures reg_wf(*final(self), *final(w)), same_reg(*old(self), *final(self)), found_or_started(*old(self), *final(self), *old(w), *final(w), key, r),
@fn registry::Registry::start_by_key(self, key)
  requires reg_wf(*old(self), *old(w)),
  ensures reg_wf(*final(self), *final(w)), same_reg(*old(self), *final(self)), started_key(*old(self), *final(self), *old(w), *final(w), key, r),
@fn registry::Registry::stop_by_key(self, key)
  requires reg_wf(*old(self), *old(w)),
  ensures reg_wf(*final(self), *final(w)), same_reg(*old(self), *final(self)), stopped_key(*old(self), *final(self), *old(w), *final(w), key, r),
@fn registry::Registry::lookup_by_key(self, key)
  ensures *final(w) == *old(w), *final(self) == *old(self), r == at(tab(*old(w), old(self).name@), key),
@fn registry::Registry::remove_by_key(self, key)
  requires reg_wf(*old(self), *old(w)),
  ensures reg_wf(*final(self), *final(w)), same_reg(*old(self), *final(self)), removed_key(*old(self), *final(self), *old(w), *final(w), key, r),
@fn registry::Registry::remove_process(self, pid, reason)
  requires reg_wf(*old(self), *old(w)),
  ensures reg_wf(*final(self), *final(w)), same_reg(*old(self), *final(self)), gone(*old(self), *final(self), *old(w), *final(w), pid),
@fn registry::Registry::terminate_children(self)
  requires reg_wf(*old(self), *old(w)),
  ensures same_reg(*old(self), *final(self)), terminated(*old(self), *final(self), *old(w), *final(w)),
@entry
  let ghost w0 = *w; let ghost q = map_order(self.lookup@); let ghost t = tab(*w, self.name@); let ghost t0 = w.trace@;
@loop 0
  *self == *old(self), w.REGISTRY@ =~= w0.REGISTRY@.remove(vstr(self.name@)), *w == (World { trace: w.trace, REGISTRY: w.REGISTRY, ..w0 }), registry@ == t, __s0 == refpairs(q),
  w.trace@ == ask_steps(t0, q, t, __it0.pos()), monitors@ == asked_of(t0, q, t, __it0.pos()),
@before_loop 1
  let ghost ms = monitors@; let ghost t1 = w.trace@;
@loop 1
  *self == *old(self), w.REGISTRY@ =~= w0.REGISTRY@.remove(vstr(self.name@)), *w == (World { trace: w.trace, REGISTRY: w.REGISTRY, ..w0 }), __s1 == ms,
  w.trace@ =~= t1 + wait_steps(ms, self.shutdown, __it1.pos()),
@fn registry::Registry#Drop::drop(self)
  ensures ({ let a = *old(self); let q = map_order(a.lookup@); if a.lookup@.dom() == Set::<Pid>::empty() { *final(w) == *old(w) }
    else { *final(w) == (World { trace: final(w).trace, REGISTRY: final(w).REGISTRY, ..*old(w) }) && final(w).REGISTRY@ =~= old(w).REGISTRY@.remove(vstr(a.name@)) && final(w).trace@ == drop_steps(old(w).trace@, q, table_of(*old(w), a.name@), q.len() as int) } }),
@entry
  let ghost w0 = *w; let ghost q = map_order(self.lookup@); let ghost t = table_of(*w, self.name@);
@loop 0
  *self == *old(self), w.REGISTRY@ =~= w0.REGISTRY@.remove(vstr(self.name@)), *w == (World { trace: w.trace, REGISTRY: w.REGISTRY, ..w0 }), __s0 == refpairs(q), (registry is None) == (t is None), registry is Some ==> registry->0@ == t->0,
  w.trace@ == drop_steps(w0.trace@, q, t, __it0.pos()),
@fn registry::Registry#GenServer::init(self)
  ensures r is Ok, *final(self) == *old(self), only_step(*old(w), *final(w), Step::Flags(ProcessFlags::TRAP_EXIT)),
@fn registry::Registry#GenServer::terminate(self, _reason)
  requires reg_wf(*old(self), *old(w)),
  ensures same_reg(*old(self), *final(self)), terminated(*old(self), *final(self), *old(w), *final(w)),
@fn registry::Registry#GenServer::handle_cast(self, message) unreachable_ok
  requires reg_wf(*old(self), *old(w)), message matches RegistryMessage::RemoveLookup(p) ==> forall|k: RegistryKey| tab(*old(w), old(self).name@).contains_key(k) ==> #[trigger] tab(*old(w), old(self).name@)[k] != p,
  ensures reg_wf(*final(self), *final(w)), same_reg(*old(self), *final(self)), r is Ok, message is RemoveLookup, only_step(*old(w), *final(w), Step::Unlink(message->RemoveLookup_0)), final(self).lookup@ =~= old(self).lookup@.remove(message->RemoveLookup_0),
@fn registry::Registry#GenServer::handle_call(self, message, _from) unreachable_ok
  requires reg_wf(*old(self), *old(w)),
  ensures reg_wf(*final(self), *final(w)), same_reg(*old(self), *final(self)), answered(*old(self), *final(self), *old(w), *final(w), message, r),
@fn registry::Registry#GenServer::handle_info(self, info)
  requires reg_wf(*old(self), *old(w)),
  ensures reg_wf(*final(self), *final(w)), same_reg(*old(self), *final(self)), r is Ok, match info {
    Message::System(SystemMessage::Exit(pid, _)) => gone(*old(self), *final(self), *old(w), *final(w), pid),
    _ => quiet(*old(self), *final(self), *old(w), *final(w)),
  },
@fn registry::RegistryError#From<CallError>::from(value) nw
@from_spec
  RegistryError::CallError(value)
@fn registry::Registry::lookup(registry, key, timeout) tryfrom unreachable_ok inst.T=Dest inst.N=RegistryKey
  ensures match local_name(registry) { Some(n) => *final(w) == *old(w) && r == Ok::<Option<Pid>, RegistryError>(at(tab(*old(w), n), key)),
    None => asked(*old(w), *final(w), registry, RegistryMessage::Lookup(key), timeout) && match call_res(*final(w)) { Err(e) => r == Err::<Option<Pid>, RegistryError>(RegistryError::CallError(e)), Ok(RegistryMessage::LookupSuccess(p)) => r == Ok::<Option<Pid>, RegistryError>(p), _ => false } },
@fn registry::Registry::lookup_or_start(registry, key, timeout) tryfrom unreachable_ok inst.T=Dest inst.N=RegistryKey
  ensures if local_name(registry) is Some && tab(*old(w), local_name(registry)->0).contains_key(key) { *final(w) == *old(w) && r == Ok::<Pid, RegistryError>(tab(*old(w), local_name(registry)->0)[key]) }
    else { asked(*old(w), *final(w), registry, RegistryMessage::LookupOrStart(key), timeout) && match call_res(*final(w)) { Err(e) => r == Err::<Pid, RegistryError>(RegistryError::CallError(e)), Ok(RegistryMessage::LookupOrStartSuccess(p)) => r == Ok::<Pid, RegistryError>(p), Ok(RegistryMessage::LookupOrStartError(e)) => r == Err::<Pid, RegistryError>(e), _ => false } },
@fn registry::Registry::start_process(registry, key, timeout) tryfrom unreachable_ok inst.T=Dest inst.N=RegistryKey
  ensures if local_name(registry) is Some && tab(*old(w), local_name(registry)->0).contains_key(key) { *final(w) == *old(w) && r == Err::<Pid, RegistryError>(RegistryError::AlreadyStarted(tab(*old(w), local_name(registry)->0)[key])) }
    else { asked(*old(w), *final(w), registry, RegistryMessage::Start(key), timeout) && match call_res(*final(w)) { Err(e) => r == Err::<Pid, RegistryError>(RegistryError::CallError(e)), Ok(RegistryMessage::StartSuccess(p)) => r == Ok::<Pid, RegistryError>(p), Ok(RegistryMessage::StartError(e)) => r == Err::<Pid, RegistryError>(e), _ => false } },
@fn registry::Registry::stop_process(registry, key, timeout) tryfrom unreachable_ok inst.T=Dest inst.N=RegistryKey
  ensures if local_name(registry) is Some && !tab(*old(w), local_name(registry)->0).contains_key(key) { *final(w) == *old(w) && same_unit(r, Err(RegistryError::NotFound)) }
    else { asked(*old(w), *final(w), registry, RegistryMessage::Stop(key), timeout) && match call_res(*final(w)) { Err(e) => same_unit(r, Err(RegistryError::CallError(e))), Ok(RegistryMessage::StopSuccess) => r is Ok, Ok(RegistryMessage::StopError(e)) => same_unit(r, Err(e)), _ => false } },
@fn registry::Registry::count(registry, timeout) tryfrom unreachable_ok inst.T=Dest
  ensures match local_name(registry) { Some(n) => *final(w) == *old(w) && r == Ok::<usize, RegistryError>(tab(*old(w), n).dom().len() as usize) && r->Ok_0 == tab(*old(w), n).dom().len(),
    None => asked(*old(w), *final(w), registry, RegistryMessage::Count, timeout) && match call_res(*final(w)) { Err(e) => r == Err::<usize, RegistryError>(RegistryError::CallError(e)), Ok(RegistryMessage::CountSuccess(p)) => r == Ok::<usize, RegistryError>(p), _ => false } },
@fn registry::Registry::list(registry, timeout) tryfrom unreachable_ok inst.T=Dest
  ensures match local_name(registry) { Some(n) => *final(w) == *old(w) && r is Ok && lists_map(r->Ok_0@, tab(*old(w), n)),
    None => asked(*old(w), *final(w), registry, RegistryMessage::List, timeout) && match call_res(*final(w)) { Err(e) => r == Err::<Vec<(RegistryKey, Pid)>, RegistryError>(RegistryError::CallError(e)), Ok(RegistryMessage::ListSuccess(p)) => r == Ok::<Vec<(RegistryKey, Pid)>, RegistryError>(p), _ => false } },
@fn registry::Registry::remove(registry, key, timeout) tryfrom unreachable_ok inst.T=Dest inst.N=RegistryKey
  ensures match local_name(registry) {
    Some(n) => final(w).REGISTRY@.dom() == old(w).REGISTRY@.dom() && others_same(old(w).REGISTRY@, final(w).REGISTRY@, n) && tab(*final(w), n) =~= tab(*old(w), n).remove(key) && r == Ok::<Option<Pid>, RegistryError>(at(tab(*old(w), n), key))
      && (if tab(*old(w), n).contains_key(key) { final(w).trace@.len() > 0 && final(w).trace@.last() is Cast && local_name(final(w).trace@.last()->Cast_0) == Some(n) && final(w).trace@ == old(w).trace@.push(Step::Cast(final(w).trace@.last()->Cast_0, RegistryMessage::RemoveLookup(tab(*old(w), n)[key]))) } else { final(w).trace@ == old(w).trace@ }),
    None => asked(*old(w), *final(w), registry, RegistryMessage::Remove(key), timeout) && match call_res(*final(w)) { Err(e) => r == Err::<Option<Pid>, RegistryError>(RegistryError::CallError(e)), Ok(RegistryMessage::RemoveSuccess(p)) => r == Ok::<Option<Pid>, RegistryError>(p), _ => false } },
@fn registry::Registry::start(self, options)
  ensures ({ let n = match options.name { Some(n) => n, None => self.name }; only_step(*old(w), *final(w), Step::Server(Registry { name: n, ..self }, GenServerOptions { name: Some(n), timeout: None }, false, r)) }),
@fn registry::Registry::start_link(self, options)
  ensures ({ let n = match options.name { Some(n) => n, None => self.name }; only_step(*old(w), *final(w), Step::Server(Registry { name: n, ..self }, GenServerOptions { name: Some(n), timeout: None }, true, r)) }),
@fn registry_options::GenServerOptions#From<RegistryOptions>::from(value) nw
@from_spec
  GenServerOptions { name: value.name, timeout: None }
@fn registry_options::RegistryOptions::name(self, name) nw
  ensures r.name is Some, r.name->0@ == name.text(),
@fn registry_options::RegistryOptions::new() nw
  ensures r.name is None,
@fn registry::RegistryKey#From<i32>::from(value) nw
@from_spec
  RegistryKey::Integer32(value)
@fn registry::RegistryKey#From<i64>::from(value) nw
@from_spec
  RegistryKey::Integer64(value)
@fn registry::RegistryKey#From<i128>::from(value) nw
@from_spec
  RegistryKey::Integer128(value)
@fn registry::RegistryKey#From<u32>::from(value) nw
@from_spec
  RegistryKey::UInteger32(value)
@fn registry::RegistryKey#From<u64>::from(value) nw
@from_spec
  RegistryKey::UInteger64(value)
@fn registry::RegistryKey#From<u128>::from(value) nw
@from_spec
  RegistryKey::UInteger128(value)
@fn registry::RegistryKey#From<String>::from(value) nw
@from_spec
  RegistryKey::String(value)
