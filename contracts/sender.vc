@units sender
@fn node_remote::node_remote_sender(writer, supervisor) panics timeouts
  requires old(w).due@.len() == 0,
  ensures false,
@loop 0
  invariant
  w.due@.len() == 0,
