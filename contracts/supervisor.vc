@fn supervisor::SupervisedChild::is_permanent(self) nw
  ensures r == (self.spec.restart is Permanent),
@fn supervisor::SupervisedChild::is_transient(self) nw
  ensures r == (self.spec.restart is Transient),
@fn supervisor::SupervisedChild::is_temporary(self) nw
  ensures r == (self.spec.restart is Temporary),
@fn supervisor::SupervisedChild::id(self) nw
  ensures r == self.spec.id,
@fn supervisor::SupervisedChild::shutdown(self) nw
  ensures r == method_of(self.spec),
@fn supervisor::Supervisor::new() nw
  ensures r.children@ == Seq::<SupervisedChild>::empty(), sup_wf(r), r.restarts@ == Seq::<Instant>::empty(),
    r.strategy is OneForOne, r.auto_shutdown is Never, r.max_restarts == 3, r.max_duration.ns() == 5_000_000_000,
@fn supervisor::Supervisor::add_child(self, child) nw panics
  requires sup_wf(self),
  ensures !has_id(self.children@, child.id), sup_wf(r), same_config(self, r), r.children@ == self.children@.push(fresh_child(child)),
@fn supervisor::Supervisor::with_children(children) nw panics inst.T=Vec<ChildSpec>
  ensures sup_wf(r), r.children@.len() == children@.len(), forall|i: int| 0 <= i < children@.len() ==> #[trigger] r.children@[i] == fresh_child(children@[i]),
@entry
  let ghost s0 = children@;
@loop 0
  __s0 == s0, sup_wf(result), result.children@.len() == __it0.pos(), forall|i: int| 0 <= i < __it0.pos() ==> #[trigger] result.children@[i] == fresh_child(s0[i]),
@fn supervisor::Supervisor::strategy(self, strategy) nw
  ensures r == (Supervisor { strategy, ..self }),
@fn supervisor::Supervisor::auto_shutdown(self, auto_shutdown) nw
  ensures r == (Supervisor { auto_shutdown, ..self }),
@fn supervisor::Supervisor::max_restarts(self, max_restarts) nw
  ensures r == (Supervisor { max_restarts, ..self }),
@fn supervisor::Supervisor::max_duration(self, max_duration) nw
  ensures r == (Supervisor { max_duration, ..self }),

@fn supervisor::Supervisor::remove_child(self, index) nw
  requires index < old(self).children@.len(), sup_wf(*old(self)),
  ensures r == old(self).children@[index as int], sup_wf(*final(self)), same_config(*old(self), *final(self)), final(self).children@ == old(self).children@.remove(index as int),
@fn supervisor::Supervisor::find_child(self, pid) nw
  ensures *final(self) == *old(self), match r { Some(k) => is_first(old(self).children@, pid, k as int), None => !has_pid(old(self).children@, pid) },
@closure position
  |__vxc: &SupervisedChild| -> (o: bool) ensures o == (__vxc.pid == Some(pid))
@fn supervisor::Supervisor::find_child_id(self, id) nw
  ensures *final(self) == *old(self), match r { Some(k) => k < old(self).children@.len() && old(self).children@[k as int].spec.id@ == id@, None => forall|i: int| 0 <= i < old(self).children@.len() ==> (#[trigger] old(self).children@[i]).spec.id@ != id@ },
@closure position
  |__vxc: &SupervisedChild| -> (o: bool) ensures o == (__vxc.spec.id@ == id@)

@fn supervisor::Supervisor::start_child_by_index(self, index) panics
  requires index < old(self).children@.len(),
  ensures same_all(*old(self), *final(self)), only_trace(*old(w), *final(w)), old(self).children@[index as int].spec.start is Some,
    final(w).trace@ == old(w).trace@.push(Step::Start(old(self).children@[index as int].spec.start->0, start_raw(r))), r matches Err(e) ==> !(e is Ignore),

@fn supervisor::Supervisor::start_new_child(self, spec) panics
  requires sup_wf(*old(self)),
  ensures sup_wf(*final(self)), same_config(*old(self), *final(self)), only_trace(*old(w), *final(w)), started_new(old(self).children@, final(self).children@, old(w).trace@, final(w).trace@, spec, r),
@closure find
  |__vxc: &&SupervisedChild| -> (o: bool) ensures o == (__vxc.spec.id@ == spec.id@)
@fn supervisor::Supervisor::start_children(self) panics
  requires sup_wf(*old(self)),
  ensures sup_wf(*final(self)), same_config(*old(self), *final(self)), only_trace(*old(w), *final(w)),
    match r {
      Ok(_) => all_started(old(w).trace@, final(w).trace@, old(self).children@, final(self).children@),
      Err(e) => e == failed_to_start() && some_failed(old(w).trace@, final(w).trace@, old(self).children@, final(self).children@),
    },
@entry
  let ghost s0 = self.children@; let ghost t0 = w.trace@; let ghost n = s0.len() as int;
@loop 0
  __s0.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] __s0[i] == i as usize,
  sup_wf(*self), same_config(*old(self), *self), only_trace(*old(w), *w), starts_ok(t0, w.trace@, s0, self.children@, 0, __it0.pos()),
  remove@ == idx_up(self.children@, |c: SupervisedChild| kept_started(c), __it0.pos()),
@loop_start 0
  let ghost s1 = self.children@; let ghost t1 = w.trace@; let ghost k = __it0.pos();
@loop_end 0
  proof { lm_idx_up(s1, self.children@, |c: SupervisedChild| kept_started(c), k); }
@before_loop 1
  let ghost s2 = self.children@; let ghost t2 = w.trace@; let ghost q = |c: SupervisedChild| kept_started(c);
  proof { lm_idx(s2, q, 0); lm_drop(s2, q, 0); assert(idx_up(s2, q, 0) + idx_from(s2, q, 0).reverse() =~= idx_from(s2, q, 0).reverse()); assert(idx_up(s2, q, n).reverse() =~= idx_from(s2, q, 0)); assert(s2.take(0) + keepf(s2.skip(0), q) =~= keepf(s2, q)) by { assert(s2.skip(0) =~= s2); } }
@loop 1
  sup_wf(*self), same_config(*old(self), *self), __s1 == idx_from(s2, q, 0), self.children@ == drop_idx(s2, __s1, __it1.pos()), w.trace@ == t2,

@fn supervisor::Supervisor::terminate_child_by_index(self, index)
  requires sup_wf(*old(self)), index < old(self).children@.len(),
  ensures sup_wf(*final(self)), same_config(*old(self), *final(self)), only_trace(*old(w), *final(w)),
    final(w).trace@ =~= old(w).trace@ + stop_of(old(self).children@[index as int]),
    final(self).children@ == old(self).children@.update(index as int, with_pid(old(self).children@[index as int], None)),
@fn supervisor::Supervisor::terminate_children(self)
  requires sup_wf(*old(self)),
  ensures sup_wf(*final(self)), same_config(*old(self), *final(self)), only_trace(*old(w), *final(w)), all_stopped(old(w).trace@, final(w).trace@, old(self).children@, final(self).children@),
@entry
  let ghost s0 = self.children@; let ghost t0 = w.trace@; let ghost n = s0.len() as int; let ghost m = no_pids(s0); let ghost q = |c: SupervisedChild| kept_stopped(c);
@loop 0
  __s0.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] __s0[i] == (n - 1 - i) as usize,
  sup_wf(*self), same_config(*old(self), *self), only_trace(*old(w), *w), w.trace@ =~= t0 + stops_down(s0, n - __it0.pos()),
  self.children@ =~= Seq::new(n as nat, |i: int| if i >= n - __it0.pos() { no_pid(s0[i]) } else { s0[i] }),
  remove@ == idx_from(m, q, n - __it0.pos()),
@before_loop 1
  proof { lm_drop(m, q, 0); assert(m.take(0) + keepf(m.skip(0), q) =~= keepf(m, q)) by { assert(m.skip(0) =~= m); } assert(self.children@ =~= m); }
@loop 1
  sup_wf(*self), same_config(*old(self), *self), __s1 == idx_from(m, q, 0), self.children@ == drop_idx(m, __s1, __it1.pos()), only_trace(*old(w), *w), w.trace@ =~= t0 + stops_down(s0, 0),
@fn supervisor::Supervisor::init_children(self) panics
  requires sup_wf(*old(self)),
  ensures sup_wf(*final(self)), same_config(*old(self), *final(self)), only_trace(*old(w), *final(w)),
    match r {
      Ok(_) => all_started(old(w).trace@, final(w).trace@, old(self).children@, final(self).children@),
      Err(e) => e == failed_to_start() && exists|tm: Seq<Step>, sm: Seq<SupervisedChild>| #[trigger] some_failed(old(w).trace@, tm, old(self).children@, sm) && all_stopped(tm, final(w).trace@, sm, final(self).children@),
    },
@fn supervisor::Supervisor::terminate_child_by_id(self, child_id)
  requires sup_wf(*old(self)),
  ensures sup_wf(*final(self)), same_config(*old(self), *final(self)), only_trace(*old(w), *final(w)), terminated_id(old(self).children@, final(self).children@, old(w).trace@, final(w).trace@, child_id, r),
@closure position
  |__vxc: &SupervisedChild| -> (o: bool) ensures o == (__vxc.spec.id@ == child_id@)
@fn supervisor::Supervisor::delete_child_by_id(self, child_id) nw
  requires sup_wf(*old(self)),
  ensures sup_wf(*final(self)), same_config(*old(self), *final(self)), deleted_id(old(self).children@, final(self).children@, child_id, r),
@closure position
  |__vxc: &SupervisedChild| -> (o: bool) ensures o == (__vxc.spec.id@ == child_id@)
@fn supervisor::Supervisor::restart_child_by_id(self, child_id) panics
  requires sup_wf(*old(self)),
  ensures sup_wf(*final(self)), same_config(*old(self), *final(self)), only_trace(*old(w), *final(w)), restarted_id(old(self).children@, final(self).children@, old(w).trace@, final(w).trace@, child_id, r),
@closure position
  |__vxc: &SupervisedChild| -> (o: bool) ensures o == (__vxc.spec.id@ == child_id@)

@fn supervisor::Supervisor::which_children_info(self) nw
  ensures *final(self) == *old(self), infos_of(old(self).children@, r@),
@entry
  let ghost s0 = self.children@;
@loop 0
  __s0.len() == s0.len(), forall|i: int| 0 <= i < s0.len() ==> *(#[trigger] __s0[i]) == s0[i], result@.len() == __it0.pos(), forall|i: int| 0 <= i < __it0.pos() ==> info_of(s0[i], #[trigger] result@[i]),
@fn supervisor::Supervisor::count_all_children(self) nw
  ensures *final(self) == *old(self), counts_are(old(self).children@, r),
@entry
  let ghost s0 = self.children@;
@loop 0
  __s0.len() == s0.len(), forall|i: int| 0 <= i < s0.len() ==> *(#[trigger] __s0[i]) == s0[i], s0.len() <= usize::MAX,
  counts.specs == __it0.pos(), counts.active == count_up(s0, |c: SupervisedChild| c.pid is Some, __it0.pos()), counts.supervisors == count_up(s0, |c: SupervisedChild| c.spec.child_type is Supervisor, __it0.pos()), counts.workers == count_up(s0, |c: SupervisedChild| c.spec.child_type is Worker, __it0.pos()),
  counts.active <= __it0.pos(), counts.supervisors <= __it0.pos(), counts.workers <= __it0.pos(),

@fn supervisor::Supervisor::check_auto_shutdown(self, child) nw
  ensures *final(self) == *old(self), r == auto_shut(*old(self), child, old(self).children@),
@closure any
  |__vxc: &SupervisedChild| -> (o: bool) ensures o == (__vxc.pid is Some && __vxc.spec.significant)

@fn supervisor::Supervisor::add_restart(self)
  ensures counted(*old(self), *final(self), final(w).clock@, r), same_table(*old(self), *final(self)), only_clock(*old(w), *final(w)),
@closure retain
  |__vxc: &Instant| -> (o: bool) ensures o == (__vxc.t() >= threshold.t())
@fn supervisor::Supervisor::restart_multiple_children(self, index, all) panics vars=index,tindex
  requires sup_wf(*old(self)), index < old(self).children@.len(), old(self).children@[index as int].pid is None,
  ensures sup_wf(*final(self)), same_config(*old(self), *final(self)), only_trace(*old(w), *final(w)), ({
    let lo = if all { 0 } else { index as int };
    let m = sib_left(old(self).children@, lo, index as int);
    let tm = old(w).trace@ + sib_stops(old(self).children@, lo, old(self).children@.len() as int, index as int);
    match r {
      None => starts_ok(tm, final(w).trace@, m, final(self).children@, lo, m.len() - lo),
      Some(f) => f.0 >= lo && f.0 < final(self).children@.len() && starts_fail(tm, final(w).trace@, m, final(self).children@, lo, f.0 - lo, f.1),
    } }),
@entry
  let ghost s0 = self.children@; let ghost t0 = w.trace@; let ghost idx = index as int; let ghost lo0 = if all { 0 } else { index as int }; let ghost n = s0.len() as int;
@loop 0
  invariant
    sup_wf(*self), same_config(*old(self), *self), only_trace(*old(w), *w), lo0 <= tindex <= self.children@.len() <= n,
    sibs_at(s0, self.children@, lo0, n - (self.children@.len() - tindex), idx, tindex as int, index as int),
    w.trace@ =~= t0 + sib_stops(s0, lo0, n - (self.children@.len() - tindex), idx),
  decreases self.children@.len() - tindex,
@after_loop 0
  let ghost m = self.children@; let ghost tm = w.trace@;
@loop 1
  sup_wf(*self), same_config(*old(self), *self), only_trace(*old(w), *w), m == sib_left(s0, lo0, idx), tm == t0 + sib_stops(s0, lo0, n, idx), __s1.len() == m.len() - lo0, forall|i: int| 0 <= i < __s1.len() ==> #[trigger] __s1[i] == (lo0 + i) as usize,
  starts_ok(tm, w.trace@, m, self.children@, lo0, __it1.pos()),
@fn supervisor::Supervisor::restart(self, index) panics
  requires sup_wf(*old(self)), index < old(self).children@.len(),
  ensures sup_wf(*final(self)), same_config(*old(self), *final(self)), only_trace(*old(w), *final(w)), restarted(*old(self), old(self).children@, final(self).children@, old(w).trace@, final(w).trace@, index as int),
@fn supervisor::Supervisor::try_again_restart(self, index) panics
  requires sup_wf(*old(self)), index < old(self).children@.len(),
  ensures sup_wf(*final(self)), same_setup(*old(self), *final(self)), tried_again(*old(self), *final(self), *old(w), *final(w), index as int, r),
@fn supervisor::Supervisor::restart_exited_child(self, pid, reason) panics
  requires sup_wf(*old(self)),
  ensures sup_wf(*final(self)), same_setup(*old(self), *final(self)), exited(*old(self), *final(self), *old(w), *final(w), pid, reason, r),

@fn supervisor::Supervisor#GenServer::init(self) panics
  requires sup_wf(*old(self)),
  ensures sup_wf(*final(self)), same_config(*old(self), *final(self)), only_trace(*old(w), *final(w)), ({
    let t = old(w).trace@.push(Step::Flags(ProcessFlags::TRAP_EXIT));
    match r {
      Ok(_) => all_started(t, final(w).trace@, old(self).children@, final(self).children@),
      Err(e) => e == failed_to_start() && exists|tm: Seq<Step>, sm: Seq<SupervisedChild>| #[trigger] some_failed(t, tm, old(self).children@, sm) && all_stopped(tm, final(w).trace@, sm, final(self).children@),
    } }),
@fn supervisor::Supervisor#GenServer::terminate(self, _reason)
  requires sup_wf(*old(self)),
  ensures sup_wf(*final(self)), same_config(*old(self), *final(self)), only_trace(*old(w), *final(w)), all_stopped(old(w).trace@, final(w).trace@, old(self).children@, final(self).children@),
@fn supervisor::Supervisor#GenServer::handle_info(self, info) panics
  requires sup_wf(*old(self)),
  ensures sup_wf(*final(self)), same_setup(*old(self), *final(self)), match info {
    Message::System(SystemMessage::Exit(pid, reason)) => exited(*old(self), *final(self), *old(w), *final(w), pid, reason, r),
    _ => r == Ok::<(), ExitReason>(()) && *final(w) == *old(w) && final(self).children@ =~= old(self).children@ && final(self).restarts@ =~= old(self).restarts@,
  },
@fn supervisor::Supervisor#GenServer::handle_cast(self, message) panics unreachable_ok
  requires sup_wf(*old(self)),
  ensures sup_wf(*final(self)), same_setup(*old(self), *final(self)), match message {
    SupervisorMessage::TryAgainRestartPid(pid) => if has_pid(old(self).children@, pid) { exists|k: int| #[trigger] is_first(old(self).children@, pid, k) && tried_again(*old(self), *final(self), *old(w), *final(w), k, r) } else { idle(*old(self), *final(self), *old(w), *final(w), r) },
    SupervisorMessage::TryAgainRestartId(id) => if has_id(old(self).children@, id) { exists|k: int| #![trigger old(self).children@[k]] 0 <= k < old(self).children@.len() && old(self).children@[k].spec.id == id && tried_again(*old(self), *final(self), *old(w), *final(w), k, r) } else { idle(*old(self), *final(self), *old(w), *final(w), r) },
    _ => false,
  },
@fn supervisor::Supervisor#GenServer::handle_call(self, message, _from) panics unreachable_ok
  requires sup_wf(*old(self)),
  ensures sup_wf(*final(self)), same_config(*old(self), *final(self)), only_trace(*old(w), *final(w)), answered(old(self).children@, final(self).children@, old(w).trace@, final(w).trace@, message, r),

@fn supervisor::SupervisorError#From<CallError>::from(value) nw
@from_spec
  SupervisorError::CallError(value)
@fn supervisor::Supervisor::count_children(supervisor) panics tryfrom unreachable_ok
  ensures match asked(*old(w), *final(w), into_dest(supervisor), SupervisorMessage::CountChildren) { Err(e) => r == Err::<SupervisorCounts, SupervisorError>(SupervisorError::CallError(e)), Ok(SupervisorMessage::CountChildrenSuccess(c)) => r == Ok::<SupervisorCounts, SupervisorError>(c), _ => false },
@fn supervisor::Supervisor::which_children(supervisor) panics tryfrom unreachable_ok
  ensures match asked(*old(w), *final(w), into_dest(supervisor), SupervisorMessage::WhichChildren) { Err(e) => r == Err::<Vec<SupervisorChildInfo>, SupervisorError>(SupervisorError::CallError(e)), Ok(SupervisorMessage::WhichChildrenSuccess(c)) => r == Ok::<Vec<SupervisorChildInfo>, SupervisorError>(c), _ => false },
@fn supervisor::Supervisor::start_child(supervisor, child) panics tryfrom unreachable_ok
  ensures match asked(*old(w), *final(w), into_dest(supervisor), SupervisorMessage::StartChild(Local(child))) { Err(e) => r == Err::<Option<Pid>, SupervisorError>(SupervisorError::CallError(e)), Ok(SupervisorMessage::StartChildSuccess(c)) => r == Ok::<Option<Pid>, SupervisorError>(c), Ok(SupervisorMessage::StartChildError(c)) => r == Err::<Option<Pid>, SupervisorError>(c), _ => false },
@fn supervisor::Supervisor::terminate_child(supervisor, child_id) panics tryfrom unreachable_ok inst.I=String
  ensures match asked(*old(w), *final(w), into_dest(supervisor), SupervisorMessage::TerminateChild(child_id)) { Err(e) => r == Err::<(), SupervisorError>(SupervisorError::CallError(e)), Ok(SupervisorMessage::TerminateChildSuccess) => r == Ok::<(), SupervisorError>(()), Ok(SupervisorMessage::TerminateChildError(c)) => r == Err::<(), SupervisorError>(c), _ => false },
@fn supervisor::Supervisor::restart_child(supervisor, child_id) panics tryfrom unreachable_ok inst.I=String
  ensures match asked(*old(w), *final(w), into_dest(supervisor), SupervisorMessage::RestartChild(child_id)) { Err(e) => r == Err::<Option<Pid>, SupervisorError>(SupervisorError::CallError(e)), Ok(SupervisorMessage::RestartChildSuccess(c)) => r == Ok::<Option<Pid>, SupervisorError>(c), Ok(SupervisorMessage::RestartChildError(c)) => r == Err::<Option<Pid>, SupervisorError>(c), _ => false },
@fn supervisor::Supervisor::delete_child(supervisor, child_id) panics tryfrom unreachable_ok inst.I=String
  ensures match asked(*old(w), *final(w), into_dest(supervisor), SupervisorMessage::DeleteChild(child_id)) { Err(e) => r == Err::<(), SupervisorError>(SupervisorError::CallError(e)), Ok(SupervisorMessage::DeleteChildSuccess) => r == Ok::<(), SupervisorError>(()), Ok(SupervisorMessage::DeleteChildError(c)) => r == Err::<(), SupervisorError>(c), _ => false },
@fn supervisor::Supervisor::start(self, options)
  ensures final(w).trace@ == old(w).trace@.push(Step::Server(self, GenServerOptions { name: options.name, timeout: options.timeout }, false, r)),
@fn supervisor::Supervisor::start_link(self, options)
  ensures final(w).trace@ == old(w).trace@.push(Step::Server(self, GenServerOptions { name: options.name, timeout: options.timeout }, true, r)),
