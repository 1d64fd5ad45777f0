@units timer
@fn process_registry::process_register_timer(timer, duration, handle)
  ensures *final(w) == (World { PROCESS_TIMERS: final(w).PROCESS_TIMERS, clock: final(w).clock, ..*old(w) }), final(w).clock@ >= old(w).clock@,
    final(w).PROCESS_TIMERS@.dom() == old(w).PROCESS_TIMERS@.dom().insert(refid(timer)),
    forall|i: u64| i != refid(timer) && old(w).PROCESS_TIMERS@.contains_key(i) ==> #[trigger] final(w).PROCESS_TIMERS@[i] == old(w).PROCESS_TIMERS@[i],
    final(w).PROCESS_TIMERS@[refid(timer)].1 == handle, final(w).PROCESS_TIMERS@[refid(timer)].0.t() == final(w).clock@ + duration.ns(),
@fn process_registry::process_read_timer(timer)
  ensures *final(w) == (World { clock: final(w).clock, ..*old(w) }), final(w).clock@ >= old(w).clock@,
    r is Some <==> timer is Local && old(w).PROCESS_TIMERS@.contains_key(refid(timer)),
    r is Some ==> r->0.ns() == ({ let d = old(w).PROCESS_TIMERS@[refid(timer)].0.t(); if d <= final(w).clock@ { 0int } else { d - final(w).clock@ } }),
@fn process_registry::process_destroy_timer(timer)
  ensures
    (timer is Local && old(w).PROCESS_TIMERS@.contains_key(refid(timer))) ==> final(w).PROCESS_TIMERS@ == old(w).PROCESS_TIMERS@.remove(refid(timer)) && final(w).aborted@ == old(w).aborted@.insert(old(w).PROCESS_TIMERS@[refid(timer)].1.hid())
      && *final(w) == (World { PROCESS_TIMERS: final(w).PROCESS_TIMERS, aborted: final(w).aborted, ..*old(w) }),
    !(timer is Local && old(w).PROCESS_TIMERS@.contains_key(refid(timer))) ==> final(w).PROCESS_TIMERS@ =~= old(w).PROCESS_TIMERS@ && *final(w) == (World { PROCESS_TIMERS: final(w).PROCESS_TIMERS, ..*old(w) }),
@fn process::Process::cancel_timer(timer)
  ensures
    (timer is Local && old(w).PROCESS_TIMERS@.contains_key(refid(timer))) ==> final(w).PROCESS_TIMERS@ == old(w).PROCESS_TIMERS@.remove(refid(timer)) && final(w).aborted@ == old(w).aborted@.insert(old(w).PROCESS_TIMERS@[refid(timer)].1.hid())
      && *final(w) == (World { PROCESS_TIMERS: final(w).PROCESS_TIMERS, aborted: final(w).aborted, ..*old(w) }),
    !(timer is Local && old(w).PROCESS_TIMERS@.contains_key(refid(timer))) ==> final(w).PROCESS_TIMERS@ =~= old(w).PROCESS_TIMERS@ && *final(w) == (World { PROCESS_TIMERS: final(w).PROCESS_TIMERS, ..*old(w) }),
@fn process::Process::read_timer(timer)
  ensures *final(w) == (World { clock: final(w).clock, ..*old(w) }), final(w).clock@ >= old(w).clock@,
    r is Some <==> timer is Local && old(w).PROCESS_TIMERS@.contains_key(refid(timer)),
    r is Some ==> r->0.ns() == ({ let d = old(w).PROCESS_TIMERS@[refid(timer)].0.t(); if d <= final(w).clock@ { 0int } else { d - final(w).clock@ } }),
@fn process::Process::send_after(dest, message, duration) inst.D=Dests
  requires timers_wf(old(w).PROCESS_TIMERS@, old(w).next@),
  ensures r is Local, refid(r) == old(w).next@, timers_wf(final(w).PROCESS_TIMERS@, final(w).next@), final(w).aborted@ == old(w).aborted@, final(w).tev@ == old(w).tev@,
    final(w).PROCESS_TIMERS@.dom() == old(w).PROCESS_TIMERS@.dom().insert(refid(r)), !old(w).PROCESS_TIMERS@.contains_key(refid(r)),
    forall|i: u64| old(w).PROCESS_TIMERS@.contains_key(i) ==> #[trigger] final(w).PROCESS_TIMERS@[i] == old(w).PROCESS_TIMERS@[i],
    set_with(final(w).PROCESS_TIMERS@[refid(r)], duration, final(w).clock@),
    // exactly one task was spawned: it waits for the signal, which is given once the timer is registered with that task
    ({ let h = final(w).PROCESS_TIMERS@[refid(r)].1.hid(); !old(w).spawned@.contains_key(h) && final(w).spawned@.dom() == old(w).spawned@.dom().insert(h)
      && exists|ch: int| final(w).spawned@[h] == #[trigger] timer_fut(ch, duration, r, into_dests(dest), message) && final(w).signalled@ == old(w).signalled@.insert(ch, final(w).PROCESS_TIMERS@) }),
@fn process::Process::send_after@0(registered_rx: OneRx, duration: Duration, reference: Reference, dest: Dests, message: M) awaits future=vx_timer inst.D=Dests
  requires reference is Local,
  ensures ({ let n = old(w).tev@.len() as int; let t = final(w).tev@; t.len() == n + 3 && t.take(n) =~= old(w).tev@
    && t[n] == Tev::Waited(registered_rx.ch()) && t[n + 1] == Tev::Slept(duration)
    && t[n + 2] is Sent && t[n + 2]->Sent_0 == dest && t[n + 2]->Sent_1 == anybox(message) && !t[n + 2]->Sent_2.contains_key(refid(reference)) }),
