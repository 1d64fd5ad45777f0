@units gen
@fn shutdown::shutdown_brutal_kill(pid, monitor) lazy timeouts
  ensures r is Ok, evs(*old(w), *final(w), new_ev(*old(w), *final(w))), killed(new_ev(*old(w), *final(w)), pid, monitor, final(w).mail@),
@closure select
  |__vxc: &Message<&()>| -> (b: bool) ensures b == (match *__vxc { Message::System(s) => is_down(Mail::Sys(s), monitor), _ => false })
@fn shutdown::shutdown_timeout(pid, monitor, timeout) lazy timeouts
  ensures r is Ok, evs(*old(w), *final(w), new_ev(*old(w), *final(w))), asked_timeout(new_ev(*old(w), *final(w)), pid, monitor, timeout, final(w).mail@),
@closure select
  |__vxc: &Message<&()>| -> (b: bool) ensures b == (match *__vxc { Message::System(s) => is_down(Mail::Sys(s), monitor), _ => false })
@before_call shutdown_brutal_kill 0
  let ghost w1 = *w;
@after_call shutdown_brutal_kill 0
  proof { assert(new_ev(*old(w), *w).skip(2) =~= new_ev(w1, *w)); }
@fn shutdown::shutdown_infinity(pid, monitor) lazy timeouts
  ensures r is Ok, evs(*old(w), *final(w), new_ev(*old(w), *final(w))), asked(new_ev(*old(w), *final(w)), pid, monitor, final(w).mail@),
@closure select
  |__vxc: &Message<&()>| -> (b: bool) ensures b == (match *__vxc { Message::System(s) => is_down(Mail::Sys(s), monitor), _ => false })
@fn shutdown::unlink_flush(pid, default_reason)
  ensures only_ev_mail(*old(w), *final(w)), final(w).ev@ == old(w).ev@.push(Ev::Unlink(pid)).push(Ev::Sweep(old(w).mail@)), flush_ok(final(w).ev@.last(), pid, final(w).mail@),
@loop 0
  __s0 == old(w).mail@, only_ev_mail(*old(w), *w), w.ev@ == old(w).ev@.push(Ev::Unlink(pid)).push(Ev::Sweep(old(w).mail@)),
  w.mail@ =~= flushed(__s0.take(__it0.pos()), pid), no_exit_of(w.mail@, pid),
@loop_start 0
  proof { assert(__s0.take(__it0.pos() + 1).drop_last() =~= __s0.take(__it0.pos())); }
@after_loop 0
  proof { assert(__s0.take(__s0.len() as int) =~= __s0); }

@fn supervisor::shutdown(pid, how)
  ensures r is Ok, ({ let s = new_ev(*old(w), *final(w)); evs(*old(w), *final(w), s)
    && s.len() > 0 && (exists|m: Reference| s[0] == Ev::Monitor(Dest::Pid(pid), None, m) && #[trigger] shut_by(s.skip(1), pid, m, how, final(w).mail@)) }),
@exit
  proof { let s = new_ev(*old(w), *w); assert(s.skip(1) =~= w.ev@.skip(old(w).ev@.len() as int + 1)); assert(shut_by(s.skip(1), pid, s[0]->Monitor_2, how, w.mail@)); }
