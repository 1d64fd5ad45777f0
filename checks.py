"""Which contracts (unit -> function key patterns) and which stand-in decide each property."""
IDS = ["pid::*", "reference::*", "node::*"]
CHECKS = {
    "C01": dict(level="proof", units={"procs": ["process_registry::process_exit", "process_registry::process_exit_signal_linked", "process_registry::process_flags", "process_registry::process_set_flags", "process_registry::process_set_exit_reason", "process_registry::process_alive", "process::Process::exit", "process::Process::flags", "process::Process::set_flags", "process::Process::alive", "process::Process#Drop::drop", "exit_reason::*", "pid::*"]}, replay=20,
        note="Every function that applies an exit or link signal, sets flags or reasons is verified for all inputs, as is Drop, which reports the recorded reason. That an aborted task really ends is tokio's (bounded stand-in)."),
    "C02": dict(level="proof", units={"procs": ["link::*", "process_registry::process_exit_signal_linked", "process::Process#Drop::drop", "frame_link_down::*", "frame::*", "node_registry::node_send_frame"] + IDS}, replay=20,
        note="link_process_down and Process::drop are verified for all link sets: one signal per linked local process, one LinkDown frame per remote node listing exactly its pids, both sides consumed."),
    "C03": dict(level="proof", units={"procs": ["link::*", "process::Process::link", "process::Process::unlink", "process::Process::spawn_link", "process::spawn_internal", "process_registry::process_exists_lock", "process_registry::process_exit_signal_linked", "frame_link::*", "frame::*"] + IDS}, replay=20,
        note="link/unlink on both sides and every failure case are verified for all tables, with frame conditions for all other link sets."),
    "C04": dict(level="proof", units={"procs": ["monitor::*", "process::Process::monitor*", "process::Process::spawn_monitor", "process::spawn_internal", "process::Process#Drop::drop", "process_registry::process_name_lookup", "process_registry::process_exists_lock", "process_registry::process_sender", "dest::*", "frame_monitor*::*", "frame::*"] + IDS}, replay=20,
        note="monitor, monitor_alias, spawn_monitor and monitor_process_down (every monitor fires once, one MonitorDown frame per node) are verified for all tables."),
    "C05": dict(level="proof", units={"procs": ["process::Process::demonitor", "monitor::*", "process_receiver::*", "process::Process#Drop::drop", "alias::alias_destroy", "frame_monitor::*", "frame::*"] + IDS}, replay=20,
        note="demonitor is verified to remove the monitor from the own table, the target's table and the alias table and to drop an already received DOWN of exactly that reference; Drop removes all monitors held."),
    "C06": dict(level="proof", units={"procs": ["process_registry::process_name*", "process_registry::process_register", "process_registry::process_unregister", "process_registry::process_drop", "process::Process::register", "process::Process::unregister", "process::Process::registered", "process::Process::whereis", "process::Process#Drop::drop"]}, replay=20,
        note="Name table operations and Drop are verified for all inputs and table states, with a two-way consistency invariant between names and registrations."),
    "C07": dict(level="proof", units={"procs": ["process_kernel::*", "node_kernel::node_forward_send", "node_kernel::node_process_send_with*", "dest::Dest#From*", "dest::Dests#*", "process_registry::process_sender", "process_registry::process_name_lookup", "alias::alias_retrieve", "frame_send::*", "frame::*", "dest::*", "process_item::*"] + IDS}, replay=20,
        note="process_send and node_forward_send are verified for every list of destinations: one copy per mention, one frame per remote node with exactly its targets in order, everything else untouched."),
    "C08": dict(level="proof", units={"procs": ["alias::*", "process::Process::alias", "process::Process::unalias", "process::Process::monitor_alias", "process::Process::demonitor", "process::Process#Drop::drop", "monitor::monitor_process_down", "process_kernel::*"] + IDS}, replay=20,
        note="Creation, retrieval (one-shot removal), unalias ownership, removal by monitor, demonitor and Drop are verified for all alias tables."),
    "C09": dict(level="proof", units={"procs": ["process_receiver::*", "process::Process::receiver", "process::Process::receive", "process_item::*"]}, replay=20,
        note="process_item, convert_item, select, receive and remove are verified for every mailbox, message type and filter: the oldest accepted item is taken, all passed over items stay in order, remove keeps exactly the refused ones. Decoding of serialized messages is an uninterpreted partial function."),
    "C10": dict(level="proof", units={"gen": ["gen_server::GenServer::call", "gen_server::GenServer::reply", "gen_server::GenServer::cast*", "from::*"]}, replay=25,
        note="call is verified for every server, message, timeout, arrival order and mailbox against a trace of events: monitor, request tagged with that monitor, a receive whose filter is verified to accept only the reply or ProcessDown of that tag, the result, demonitor, and the sweep of stale replies, which is verified to keep exactly the other messages."),
    "C11": dict(level="proof", units={"gen": ["gen_server::start_gen_server*", "gen_server::GenServer::start*", "gen_server::GenServer::stop", "gen_server::GenServer::terminate", "gen_server::GenServer::handle_info", "gen_server_options::*", "exit_reason::*"]}, replay=25,
        note="The server's task (the async block of start_gen_server) is verified for every handler behaviour and message sequence to follow a state machine over its events; start, start_link and stop are verified against the same trace."),
    "C12": dict(level="proof", units={"sup": ["supervisor::Supervisor::restart_exited_child", "supervisor::Supervisor::check_auto_shutdown", "supervisor::Supervisor::find_child", "supervisor::Supervisor::remove_child", "supervisor::Supervisor#GenServer::handle_info", "supervisor::Supervisor::auto_shutdown", "supervisor::SupervisedChild::is_*", "exit_reason::*", "child_spec::*"]}, replay=20,
        note="restart_exited_child is verified for all child tables, reasons and settings: restart, removal and automatic shutdown exactly as the restart type, significance and shutdown mode say, and no change for unknown pids."),
    "C13": dict(level="proof", units={"sup": ["supervisor::Supervisor::add_restart", "supervisor::Supervisor::restart_exited_child", "supervisor::Supervisor::try_again_restart", "supervisor::Supervisor::max_*", "supervisor::Supervisor::new"]}, replay=20,
        note="add_restart is verified for every history of restarts (ghost history of instants): it reports true exactly when the restarts within the window, the new one included, exceed max_restarts; every restart and retry calls it first. The clock (Instant::now) is assumed monotone."),
    "C14": dict(level="proof", units={"sup": ["supervisor::Supervisor::restart", "supervisor::Supervisor::restart_multiple_children", "supervisor::Supervisor::try_again_restart", "supervisor::Supervisor::start_child_by_index", "supervisor::Supervisor::terminate_child_by_index", "supervisor::Supervisor#GenServer::handle_cast", "supervisor::Supervisor::find_child_id", "supervisor::Supervisor::remove_child", "supervisor::Supervisor::strategy", "supervisor::SupervisedChild::*"]}, replay=20,
        note="restart and restart_multiple_children are verified for all tables and strategies against a trace of starts and stops; a failed start marks exactly that child and casts one retry; a retry of a child not marked restarting is verified to do nothing."),
    "C15": dict(level="proof", units={"sup": ["supervisor::Supervisor::start_new_child", "supervisor::Supervisor::*_by_id", "supervisor::Supervisor::which_children*", "supervisor::Supervisor::count_*", "supervisor::Supervisor#GenServer::handle_call", "supervisor::Supervisor::start_child", "supervisor::Supervisor::terminate_child", "supervisor::Supervisor::restart_child", "supervisor::Supervisor::delete_child", "supervisor::Supervisor::remove_child", "supervisor::Supervisor::add_child", "supervisor::Supervisor::with_children", "supervisor::SupervisedChild::*", "child_spec::*", "local::*"]}, replay=20,
        note="Every table operation, its server handler and its client function are verified for all tables, including the invariant that the id set equals the ids of the children, each once."),
    "C16": dict(level="proof", units={"sup": ["supervisor::Supervisor::terminate_children", "supervisor::Supervisor::init_children", "supervisor::Supervisor::start_children", "supervisor::Supervisor#GenServer::terminate", "supervisor::Supervisor#GenServer::init", "supervisor::SupervisedChild::shutdown", "supervisor::Supervisor::terminate_child_by_index", "supervisor::Supervisor::start_child_by_index", "child_spec::*", "shutdown::*"], "gen": ["shutdown::*", "supervisor::shutdown"]}, replay=20,
        note="terminate_children and init_children are verified for all tables against a trace of stops and starts; the three shutdown procedures are verified for every child reaction against a trace of signals, waits and the time-out."),
    "C17": dict(level="proof", units={"reg": ["registry::*", "registry_options::*"]}, replay=20,
        note="Every handler, table operation and client function is verified for all tables, keys and messages, with the invariant that every entry of the table is a process of the registry under its key; exit, stop, remove, termination and drop take out and signal exactly the processes the statement names. The start routine and the server machinery are trace events; child_spec and with_start (closures) are in the bounded stand-in."),
    "C18": dict(level="proof", units={"ring": ["hash_ring::*"]}, replay=15,
        note="Every HashRing function is verified for all rings and keys against a map from position to node; lookups are proved to return the override or the first member at or after the key's position, and lemmas over that contract show order independence and minimal moves. std's hasher and binary search and arc_swap are assumed contracts."),
    "C19": dict(level="proof", units={"codec": ["frame::Codec*"]}, replay=15,
        note="encode and decode are verified for every frame, buffer and byte string against one spec of the start of a stream; lemmas over that spec show that the frames of a stream come out unchanged and in order however it is cut. The derived bincode codecs of the frame types are assumed to be inverse to each other (sampled in the stand-in)."),
    "C20": dict(level="proof", units={"hello": ["frame_hello::*", "node_registry::node_get_cookie", "node_registry::node_set_cookie", "node::Node::*", "node_remote::*", "node_local::*"], "hellonp": ["node_remote::*", "node_local::*"], "codec": ["frame::Codec*"]}, replay=25,
        note="Hello::new and validate are verified against one definition of the code (the keyed mac, uninterpreted, over name, a zero byte and the address text; a lemma shows that these bytes determine name and address). The accepter, the connector, the connection supervisor, the listener and the local supervisor are verified with effects that state when the handshake allows them, so no path, panicking ones included, accepts a node, spawns a worker or registers anything before the one hello read on this connection was validated (and is the node asked for); with a peer that authenticates itself in time none of them panics and the same connection's reader and writer are served. That a mac cannot be forged is assumed."),
    "C21": dict(level="proof", units={"sender": ["node_remote::node_remote_sender"], "node": ["node_registry::*", "node::Node::*", "node_remote::*", "node_local::*", "node_options::*"], "procs": ["node_registry::*", "node_registration::*", "node_kernel::*", "link::link_install", "link::link_destroy", "link::link_process_down", "monitor::monitor_install", "monitor::monitor_destroy", "monitor::monitor_process_down"]}, replay=25,
        note="Every function of the node registry is verified for all tables: node_remote_supervisor_down (links, process monitors and node monitors of that node fire once each and are gone, nothing else changes), disconnect, forget, local stop and the loss of the local node's process over all nodes, acceptance, registration, pending frames handed over in order, and the lists by state. The concurrent interleavings of these operations are not covered (each is one step)."),
    "C22": dict(level="proof", units={"remote": ["node_remote::node_remote_receiver"], "remotenp": ["node_remote::node_remote_receiver", "pid::*", "reference::*"], "procs": ["node_kernel::node_forward_send", "node_registry::node_process_*", "node_registry::node_link_destroy", "node_registry::node_monitor_*", "node_registry::node_register", "link::link_create", "link::link_destroy", "monitor::monitor_create", "monitor::monitor_destroy", "process_registry::process_exit", "process_registry::process_exists_lock", "process_registry::process_name_lookup", "process_registry::process_sender", "process_kernel::*", "frame*::*"] + IDS}, replay=25,
        note="node_remote_receiver is verified for every sequence of frames and every state in between: the state after each frame is exactly the effect specified for it (frames of nine kinds, answers included), nothing else changes. A second verification of the same body shows that it does not panic on frames that keep to the protocol. A frame that violates it ends the receiver (panic paths have no postcondition)."),
    "C23": dict(level="proof", units={"ident": ["pid::*", "reference::*", "node::Node#*", "node::String#*", "node::&str#*", "node::Node::current", "node::Node::name", "node::Node::address", "node_registry::node_lookup_*", "node_registry::node_register"], "procs": ["dest::*#PartialEq*", "dest::Dest#From*"]}, replay=15,
        note="What a pid, reference or node denotes is a function of the node tables. The six serde functions are verified to write exactly that and to read back a value that denotes it, as this node's own exactly for this node's name and address, without changing what any other value denotes; lemmas derive the paths over one hop, home again through a third node, and that distinct values denote distinct things. The derived wire structs and message pack are assumed to invert each other, derived equality, ordering and hashing are the compiler's; the stand-in samples both."),
    "C24": dict(level="proof", units={"timer": ["process::Process::send_after*", "process::Process::cancel_timer", "process::Process::read_timer", "process_registry::process_*timer"]}, replay=25,
        note="send_after, its task, cancel and read are verified for every timer table: one task per timer, which waits until it is registered, sleeps the duration, removes itself and sends once; cancel removes and aborts exactly the named timer. That sleep does not return early and an aborted task runs no further is tokio's."),
    "C25": dict(level="proof", units={"task": ["task::*", "semaphore::*"]}, replay=15,
        note="await_many is verified for every number of tasks and every outcome (results in order, the first failing task's error); shutdown aborts and then awaits that task; every semaphore operation is verified to take and hold exactly the permits it names. polling a handle is verified to pass on exactly what the task's end gives. tokio's JoinHandle and Semaphore are assumed contracts."),
    "C26": dict(level="proof", units={"procs": ["pid::*", "reference::*", "process_registry::process_insert", "process::spawn_internal", "process::Process::spawn*", "node_registry::node_register", "process::Process::alias"], "node": ["node_registry::node_accept", "node_registry::node_forget", "node_registry::node_disconnect", "node_registry::node_remote_supervisor_down", "node_registry::node_local_start", "node_registry::node_local_stop", "node_registry::node_local_panic"]}, replay=20,
        note="Constructors and accessors are verified for all inputs; the id counters are verified to hand out their old value and to advance by one (no wrap-around within 2^64 ids); nothing that ends, loses, disconnects or forgets a node moves the counter of node ids."),
    "C27": dict(level="proof", units={"task": ["catch_unwind::*"], "procs": ["process::spawn_internal", "process::spawn_internal@0", "process_registry::process_set_exit_reason", "process::Process::spawn*", "process::Process::new", "process::Process::list", "process::Process#Drop::drop", "process_registration::*", "process_registry::*", "link::link_process_down", "link::link_fill_info", "monitor::monitor_process_down", "alias::alias_destroy_all"]}, replay=20,
        note="spawn_internal is verified to register the process with its link and monitor before its task is let go, the task to run the body only while registered and to record exactly a panic's message as the exit reason (AsyncCatchUnwind::poll, every payload); Drop is verified to remove registration, name, links, monitors in both directions and aliases. Pinning and unwinding themselves are assumed contracts."),
    "C30": dict(level="proof", units={"ws": ["websocket_handler::*", "websocket_command::*", "websocket_server::*", "websocket_server_config::*", "exit_reason::*"]}, replay=20,
        note="The handler's routine, its command processing, the handshake and the server's processes are verified for every client, handler and message sequence against a state machine over what they do: init first, each frame and message handled once and in order, a ping answered first, the commands written in order up to the first close, terminate once with the reason of the end and nothing after it; a handler runs only on a connection its accept has accepted. tungstenite's stream, handshake and select! are assumed contracts; TLS is not built; child_spec is in the bounded stand-in."),
    "C31": dict(level="proof", units={"app": ["application::*", "application_config::*", "exit_reason::*"]}, replay=20,
        note="The process of run and of test, their callers and the signal handler are verified for every configuration, order of messages and exits against a state machine: start once while trapping exits, a signal handler exactly if configured, the exit signal and the timer exactly after the handler has ended, a kill exactly after the timer, a report exactly after the main process has ended; the caller returns (or panics, for test) according to the report. tokio's signal streams, oneshot and block_on are assumed contracts; the tracing and console features are not built."),
    "C32": dict(level="proof", units={"procs": ["process_info::*", "process_registry::process_info", "process_registry::process_list", "process_registry::process_alive", "process_registry::process_flags", "process_registry::process_name_list", "process_registry::process_name_lookup", "link::link_fill_info", "monitor::monitor_fill_info", "process::Process::info", "process::Process::list", "process::Process::alive", "process::Process::flags", "process::Process::registered", "process::Process::whereis"] + IDS}, replay=20,
        note="Every query is verified for all tables to return exactly what they hold and to change nothing. The number of waiting messages (message_queue_len, flume's) has no contract."),
}
NOT_APPLICABLE = {
    "C28": "deadlock freedom and linearizability quantify over thread schedules; contracts verified function by function treat each call as one atomic step and say nothing about them",
    "C29": "liveness over the network and time; partial-correctness contracts cannot express it",
}
HOOKS = dict(guard="hydra_verif", enable="RUSTFLAGS=\"--cfg hydra_verif\" when building the replay crate (re-exports the frame types and codec)", source_commits=["398a0f8"])
