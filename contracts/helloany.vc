@units hello
@fn node_remote::node_remote_accepter(socket, supervisor) panics timeouts
  requires
    socket.id() == old(w).conn@, old(w).got@.len() == 0, old(w).said@.len() == 0, old(w).want@ is None,
    supervisor.name == old(w).own@.0, supervisor.options.broadcast_address == old(w).own@.1,
  ensures
    final(w).ev@.len() == old(w).ev@.len() + 1, final(w).ev@.last() is Spawn, final(w).ev@ =~= old(w).ev@.push(final(w).ev@.last()),
    final(w).ev@.last()->Spawn_1 is Supervisor, final(w).ev@.last()->Spawn_1->Supervisor_4 == supervisor,
    admitted(*final(w), final(w).ev@.last()->Spawn_1->Supervisor_2, final(w).ev@.last()->Spawn_1->Supervisor_3),
    final(w).said@.len() == 1,
@fn node_remote::node_remote_supervisor(writer, reader, hello, supervisor) panics
  requires writer.id() == old(w).conn@, reader.id() == old(w).conn@, admitted(*old(w), hello.name, hello.broadcast_address),
  ensures false,
@entry
  let ghost ls0 = supervisor;
@loop 0
  invariant
  w.got == old(w).got, w.me == old(w).me, w.conn == old(w).conn,
  sup_ready(old(w).ev@, w.ev@, *old(w), ls0, sender, receiver),
  pongs(w.ev@, old(w).ev@.len() as int + 5, sender),
@fn node_remote::node_remote_connector(node) panics timeouts
  requires
    old(w).got@.len() == 0, old(w).said@.len() == 0, old(w).want@ matches Some(p) && node == Node::Remote(p.0, p.1),
  ensures false,
@fn node_local::node_local_listener(supervisor) panics
  requires supervisor.name == old(w).own@.0, supervisor.options.broadcast_address == old(w).own@.1,
  ensures false,
@loop 0
  invariant
  w.own == old(w).own, supervisor.name == w.own@.0, supervisor.options.broadcast_address == w.own@.1,
  w.ev@.len() > old(w).ev@.len(), w.ev@[old(w).ev@.len() as int] == Ev::Bound(supervisor.options.listen_address), !(w.ev@.last() is Socket),
@fn node_local::node_local_supervisor(name, options) panics
  requires old(w).got@.len() == 0, name == old(w).own@.0, options.broadcast_address == old(w).own@.1,
  ensures false,
@loop 0
  invariant
  w.got == old(w).got, w.own == old(w).own, supervisor.name == name, supervisor.options == options, supervisor.process == old(w).me@,
  ls_fine(w.ev@, old(w).ev@.len() as int, supervisor, listener),
@loop_start 0
  let ghost s0 = w.ev@; let ghost n0 = old(w).ev@.len() as int;
@loop_end 0
  proof { assert forall|i: int| n0 + 2 <= i < w.ev@.len() implies ls_event(w.ev@, i, supervisor, listener) by { if i < s0.len() { assert(ls_event(s0, i, supervisor, listener)); assert(w.ev@[i] == s0[i]); assert(w.ev@[i - 1] == s0[i - 1]); } else { let k = s0.len() as int; assert(w.ev@[k] is Received); assert(!ls_exit_of(w.ev@[k], listener)); if i == k { if ls_request(w.ev@[k]) is Some { assert(k + 1 < w.ev@.len()); assert(w.ev@[k+1] is Sent); let q = ls_request(w.ev@[k])->0; assert(w.ev@[k+1]->Sent_0 == Dest::Pid(q)); assert(is_any::<NodeRemoteConnectorMessage>(w.ev@[k+1]->Sent_1)); assert(any_val::<NodeRemoteConnectorMessage>(w.ev@[k+1]->Sent_1)->LocalNodeSupervisor_0.0 == supervisor); assert(ls_answer(w.ev@[k+1], ls_request(w.ev@[k])->0, supervisor)); } } else { assert(ls_request(w.ev@[k]) is Some); } } } }
