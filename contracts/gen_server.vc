@units gen
@fn gen_server::GenServer::start(__self, options)
  ensures started(*old(w), *final(w), __self, options, false, r),
@fn gen_server::GenServer::start_link(__self, options)
  ensures started(*old(w), *final(w), __self, options, true, r),
@fn gen_server::GenServer::stop(server, reason, timeout) lazy timeouts inst.T=Dest
  ensures ({ let s = new_ev(*old(w), *final(w)); evs(*old(w), *final(w), s) && s.len() >= 3
    && s[0] is Monitor && s[0] == Ev::Monitor(server, None, s[0]->Monitor_2)
    && s[1] == Ev::Send(into_dests(server), anybox(GenServerMessage::<VxS::Message>::Stop(reason)))
    && (if timeout is Some { s[2] is Limit && s[2]->Limit_0 == timeout->0 && waited_stop(s.skip(3), s[2]->Limit_1, s[0]->Monitor_2, reason, r) } else { waited_stop(s.skip(2), false, s[0]->Monitor_2, reason, r) }) }),
@closure select
  |__vxc: &Message<&GenServerMessage<VxS::Message>>| -> (b: bool) ensures b == (match *__vxc { Message::System(s) => is_down(Mail::Sys(s), monitor), _ => false })
@fn gen_server::GenServer::cast(servers, message)
  ensures only_new(*old(w), *final(w), Ev::Send(into_dests(servers), anybox(GenServerMessage::<VxS::Message>::Cast(message)))),
@fn gen_server::GenServer::cast_after(servers, message, duration)
  ensures only_new(*old(w), *final(w), Ev::SendAfter(into_dests(servers), anybox(GenServerMessage::<VxS::Message>::Cast(message)), duration, r)),
@fn gen_server::GenServer::call(server, message, timeout) lazy timeouts inst.T=Dest loops=2
  ensures ({ let s = new_ev(*old(w), *final(w)); evs(*old(w), *final(w), s) && s.len() >= 3
    && s[0] is Monitor && s[0] == Ev::Monitor(server, if dest_local(server) { None } else { Some(true) }, s[0]->Monitor_2)
    && s[1] == Ev::Send(into_dests(server), anybox(GenServerMessage::<VxS::Message>::Call(CallFrom { pid: old(w).me@, tag: s[0]->Monitor_2, alias: !dest_local(server) }, message)))
    && s[2] is Limit && (match timeout { Some(t) => s[2]->Limit_0 == t, None => s[2]->Limit_0.ns() == 5_000_000_000 })
    && (if s[2]->Limit_1 { r is Err && r->Err_0 is Timeout && s.len() == 5 && s[3] == Ev::Demonitor(s[0]->Monitor_2) && sweep_ok::<VxS::Message>(s[4], s[0]->Monitor_2, final(w).mail@) }
        else { s.len() >= 4 && s[3] is Got && call_answer::<VxS::Message>(s.skip(4), s[3]->Got_0, s[0]->Monitor_2, r, final(w).mail@) }) }),
@closure select
  |__vxc: &Message<&GenServerMessage<VxS::Message>>| -> (b: bool) ensures b == answers_ref::<VxS::Message>(*__vxc, monitor)
@loop 0
  only_ev_mail(*old(w), *w), w.ev@ == __e0, __e0.last() == Ev::Sweep(__s0), no_reply::<VxS::Message>(w.mail@, monitor), w.mail@ =~= unreply::<VxS::Message>(__s0.take(__it0.pos()), monitor),
@before_loop 0
  let ghost __e0 = w.ev@;
@loop_start 0
  proof { assert(__s0.take(__it0.pos() + 1).drop_last() =~= __s0.take(__it0.pos())); }
@after_loop 0
  proof { assert(__s0.take(__s0.len() as int) =~= __s0); }
@loop 1
  only_ev_mail(*old(w), *w), w.ev@ == __e0, __e0.last() == Ev::Sweep(__s1), no_reply::<VxS::Message>(w.mail@, monitor), w.mail@ =~= unreply::<VxS::Message>(__s1.take(__it1.pos()), monitor),
@before_loop 1
  let ghost __e0 = w.ev@;
@loop_start 1
  proof { assert(__s1.take(__it1.pos() + 1).drop_last() =~= __s1.take(__it1.pos())); }
@after_loop 1
  proof { assert(__s1.take(__s1.len() as int) =~= __s1); }
@fn gen_server::GenServer::reply(from, message)
  ensures only_new(*old(w), *final(w), if from.alias { Ev::Send(into_dests(from.tag), anybox(GenServerMessage::<VxS::Message>::CallReply(from.tag, message))) } else { Ev::Send(into_dests(from.pid), anybox(GenServerMessage::<VxS::Message>::CallReply(from.tag, message))) }),
@fn from::CallFrom::new(pid, tag, alias) nw
  ensures r == (CallFrom { pid, tag, alias }),
@fn from::CallFrom::pid(self) nw
  ensures r == self.pid,
@fn from::CallFrom::tag(self) nw
  ensures r == self.tag,
@fn from::CallFrom::is_alias(self) nw
  ensures r == self.alias,
@fn gen_server::start_gen_server(gen_server, options, link) awaits tryid map=result
  ensures started(*old(w), *final(w), gen_server, options, link, r),
@fn gen_server::start_gen_server@0(gen_server: T, options: GenServerOptions, parent: Option<Pid>, tx: InitTx) timeouts panics future=vx_server
  ensures only_ev_mail(*old(w), *final(w)), ph_run::<T::Message>(life(options, parent, tx.ch(), old(w).me@), old(w).ev@.len() as int, final(w).ev@) is Dead,
@entry
  let ghost cfg = life(options, parent, tx.ch(), w.me@); let ghost base = w.ev@.len() as int; let ghost o0 = w.ev@.len(); proof { lm_ph_first::<T::Message>(cfg, w.ev@); }
@loop 0
  invariant only_ev_mail(*old(w), *w), w.ev@.len() >= base, ph_run::<T::Message>(cfg, base, w.ev@) is Idle, parent == cfg.parent, base == old(w).ev@.len(),

// what a server does with what it does not handle: ignored, except a request, which is a bug of the server
@fn gen_server::GenServer::handle_info(__self, info)
  ensures r is Ok, *final(__self) == *old(__self), *final(w) == *old(w),
@fn gen_server::GenServer::handle_cast(__self, message) panics
  ensures false,
@fn gen_server::GenServer::handle_call(__self, message, from) panics
  ensures false,
@fn gen_server::GenServer::terminate(__self, reason)
  ensures *final(__self) == *old(__self), *final(w) == *old(w),
