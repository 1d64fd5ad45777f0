@units hellonp
@fn node_remote::node_remote_accepter(socket, supervisor) timeouts
  requires
    socket.id() == old(w).conn@, old(w).got@.len() == 0, old(w).said@.len() == 0, old(w).want@ is None,
    supervisor.name == old(w).own@.0, supervisor.options.broadcast_address == old(w).own@.1,
  ensures
    final(w).ev@.len() == old(w).ev@.len() + 1, final(w).ev@.last() is Spawn, final(w).ev@ =~= old(w).ev@.push(final(w).ev@.last()),
    final(w).ev@.last()->Spawn_1 is Supervisor, final(w).ev@.last()->Spawn_1->Supervisor_4 == supervisor,
    admitted(*final(w), final(w).ev@.last()->Spawn_1->Supervisor_2, final(w).ev@.last()->Spawn_1->Supervisor_3),
    final(w).said@.len() == 1,
@fn node_remote::node_remote_supervisor(writer, reader, hello, supervisor)
  requires writer.id() == old(w).conn@, reader.id() == old(w).conn@, admitted(*old(w), hello.name, hello.broadcast_address),
  ensures false,
@entry
  let ghost ls0 = supervisor;
@loop 0
  invariant
  w.got == old(w).got, w.me == old(w).me, w.conn == old(w).conn,
  sup_ready(old(w).ev@, w.ev@, *old(w), ls0, sender, receiver),
  pongs(w.ev@, old(w).ev@.len() as int + 5, sender),
@fn node_remote::node_remote_connector(node) timeouts
  requires
    old(w).got@.len() == 0, old(w).said@.len() == 0, old(w).want@ matches Some(p) && node == Node::Remote(p.0, p.1),
  ensures false,
@fn node_local::node_local_listener(supervisor)
  requires supervisor.name == old(w).own@.0, supervisor.options.broadcast_address == old(w).own@.1,
  ensures false,
@loop 0
  invariant
  w.own == old(w).own, supervisor.name == w.own@.0, supervisor.options.broadcast_address == w.own@.1,
  w.ev@.len() > old(w).ev@.len(), w.ev@[old(w).ev@.len() as int] == Ev::Bound(supervisor.options.listen_address), !(w.ev@.last() is Socket),
