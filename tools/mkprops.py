#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements are reviewable as text)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=["hydra/src/"+f for f in files],
        state=[dict(name=a,meaning=b,where="hydra/src/"+c) for a,b,c in state],
        mechanism=[dict(name=a,where="hydra/src/"+b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
p("C01","Exit signals act on a process exactly as its trap flag and reason dictate",
 "An exit signal sent with Process::exit to a live local process either terminates it with exactly that reason, is delivered as exactly one Exit message naming sender and reason, or is ignored: Kill always terminates; Normal/Ignore terminates only the sender itself, is delivered if the target traps exits and is otherwise ignored; any other reason terminates a self-exit or a non-trapping target and is delivered to a trapping one. A signal to a dead or unknown process has no effect, no other process is affected, and the reason recorded for a terminated process is what its links and monitors report.",
 ["inputs","histories"],"every pid/sender pair (equal or not), every exit reason, every flag setting, any number of processes",
 "tests exercise one or two reason/flag combinations on two processes",
 ["process_registry.rs","process.rs"],[("process_exit","process_registry.rs"),("Process::exit","process.rs"),("process_alive","process_registry.rs")],
 [("PROCESS_REGISTRY","per-process registration: flags, recorded exit reason, task handle, mailbox sender","process_registry.rs")],["Process::exit","Process::alive","received SystemMessage::Exit"])
p("C02","A terminating process signals each of its links exactly once with its reason",
 "When a process terminates for any cause, every process linked to it at that moment receives exactly one link signal carrying the dead process's pid and its exit reason: a trapping process gets one Exit message (also for normal reasons), a non-trapping one is terminated with the same reason unless the reason is normal. The links are consumed on both sides, nobody else is signalled, and links of remote processes are reported with one frame per remote node that lists exactly the linked pids of that node.",
 ["inputs","histories"],"every link topology, every exit reason, trapping or not, local or remote peers",
 "tests link two processes; topologies, reasons and flags are unbounded",
 ["link.rs","process_registry.rs","process.rs"],[("link_process_down","link.rs"),("process_exit_signal_linked","process_registry.rs"),("Drop for Process","process.rs")],
 [("LINKS","for each local process the set of pids to signal","link.rs")],["received SystemMessage::Exit","Process::alive"])
p("C03","Links are symmetric: link and unlink always change both sides",
 "After linking two live processes each is recorded as linked to the other, however often link is repeated; after either side unlinks, neither is recorded as linked to the other and the death of one no longer affects the other. Linking to a process that does not exist delivers a noproc link signal (noconnection for an unknown remote node) to the caller instead, linking or unlinking oneself does nothing, and other links are untouched.",
 ["inputs","histories"],"every sequence of link/unlink operations between any processes",
 "tests check one link and one unlink direction",
 ["link.rs","process.rs"],[("link_install","link.rs"),("link_destroy","link.rs"),("Process::link/unlink","process.rs")],
 [("LINKS","for each local process the set of linked pids","link.rs")],["Process::info().links","exit propagation"])
p("C04","Each monitor yields exactly one DOWN with the right dest, reference and reason",
 "A process that monitors another by pid or by registered name receives exactly one ProcessDown message per monitor, carrying the destination it used, that monitor's reference and the target's exit reason, when the target terminates, and immediately with noproc (noconnection for an unknown remote node) when the target does not exist. Several monitors on the same target are independent, monitors of other processes are not affected, and monitors held by remote nodes are reported with one frame per node listing exactly that node's references.",
 ["inputs","histories"],"every set of monitors (by pid and name, duplicates included), every exit reason, every order of operations",
 "tests hold one monitor on one process",
 ["monitor.rs","process_receiver.rs","process.rs"],[("monitor_install","monitor.rs"),("monitor_process_down","monitor.rs"),("process_item","process_receiver.rs")],
 [("MONITORS","for each monitored local process: reference -> (watcher, dest)","monitor.rs"),("Process.monitors","references the current process still waits for","process.rs")],["received SystemMessage::ProcessDown"])
p("C05","After demonitor no DOWN message for that reference is ever received",
 "Once Process::demonitor(reference) has returned, no ProcessDown for that reference is ever received, even if the target died before and its message is already queued or was already looked at by a selective receive; a local (or already resolved remote) target no longer holds the monitor, the alias tied to the reference is inactive, and other monitors and messages are unaffected. A process that terminates removes all monitors it held.",
 ["inputs","histories","schedules"],"every interleaving of target death, selective receives and demonitor",
 "tests demonitor a live process only",
 ["monitor.rs","process.rs","process_receiver.rs"],[("Process::demonitor","process.rs"),("monitor_destroy","monitor.rs"),("monitor_destroy_all","monitor.rs"),("process_item","process_receiver.rs")],
 [("Process.monitors","live references","process.rs"),("Process.items","messages already popped by selective receives","process.rs")],["Process::receive/receiver().select"])
p("C06","Registered names are unique, consistent, and freed when their process ends",
 "A name maps to at most one process and a process holds at most one name; register succeeds exactly when the pid is a live local process without a name and the name is free (re-registering the same pair is a no-op success) and otherwise changes nothing. whereis, registered, info and by-name sends agree with the successful register/unregister history, and a terminated process's name is immediately free again.",
 ["inputs","histories"],"every sequence of register/unregister/terminate over any names and processes",
 "tests register one or two names",
 ["process_registry.rs","process.rs"],[("process_register","process_registry.rs"),("process_unregister","process_registry.rs"),("Drop for Process","process.rs")],
 [("PROCESS_NAMES","name -> process id","process_registry.rs"),("ProcessRegistration.name","process -> name","process_registration.rs")],["Process::register","Process::whereis","Process::registered","Process::info"])
p("C07","A send reaches every listed destination exactly once",
 "Process::send to one or many destinations puts exactly one copy of the message into the mailbox of every listed local destination that exists (pid, registered name or active alias; repeated destinations get one copy per mention), drops copies for destinations that do not exist without error, and touches no other mailbox; a list of destinations made from pids or destinations names each of them as often and in the order given. Remote destinations of the same node travel in one frame that lists each of them exactly once with the serialized message, and a frame received from another node is fanned out to its targets in the same way.",
 ["inputs"],"every list of destinations of every kind and length, with repetitions, and every message",
 "tests send to at most two local pids",
 ["process_kernel.rs","node_kernel.rs","dest.rs"],[("process_send","process_kernel.rs"),("node_forward_send","node_kernel.rs"),("Dests conversions","dest.rs")],
 [],["mailbox contents","frames put on the wire"])
p("C08","Aliases deliver while active; one-shot aliases deliver exactly one message",
 "A message sent to an alias reaches the process that created it exactly while the alias is active: a reply alias accepts one message and is then inactive, an ordinary alias stays active until unaliased, a monitor alias also ends with its monitor's DOWN message or demonitor, and all of a process's aliases end when it terminates. unalias returns true exactly when the alias was active and belongs to the calling process, and it never deactivates an alias of another process.",
 ["inputs","histories"],"every sequence of alias creation, sends, unalias and process exits",
 "tests send one message over one alias",
 ["alias.rs","process.rs","monitor.rs"],[("alias_retrieve","alias.rs"),("alias_create/alias_destroy","alias.rs"),("Process::unalias","process.rs")],
 [("ALIASES","alias id -> mailbox and one-shot flag","alias.rs"),("Process.aliases","aliases owned by the process","process.rs")],["Process::unalias result","message receipt"])
p("C09","Selective receive takes the oldest matching message and loses none",
 "select returns the oldest message in the mailbox that has the requested type and satisfies the filter, removes exactly that message, and leaves all other messages available to later receives in their original order; remove discards exactly the matching messages. With strict type checking the first message of another type panics, without it such messages are kept for a receiver of their type; a message that arrived serialized takes the type of the first receiver that can decode it.",
 ["inputs","histories"],"every mailbox content, type mix and filter, over any sequence of receives",
 "tests receive a handful of messages with fixed filters",
 ["process_receiver.rs"],[("ProcessReceiver::select","process_receiver.rs"),("ProcessReceiver::remove","process_receiver.rs"),("process_item","process_receiver.rs")],
 [("Process.items","messages skipped by earlier selective receives, oldest first","process.rs")],["receiver().select","receiver().remove","Process::receive"])
p("C10","A GenServer call returns its own reply or an error, never another call's",
 "GenServer::call returns the value the server replied for that very call, ServerDown with the server's exit reason if the server dies first or does not exist, or Timeout after the requested time (5 s by default); it never returns a reply meant for another call, however calls, timeouts and late replies interleave. When a call returns or times out, no reply or ProcessDown of it that has already arrived is left behind for later receives, and messages unrelated to the call stay in the mailbox. (A server answers a call at most once; a reply that is still under way when the call has timed out may arrive later and is never mistaken for another call's.)",
 ["inputs","histories","schedules"],"every interleaving of calls, replies (prompt, late, duplicate, out of order), server deaths and timeouts",
 "tests make single prompt calls",
 ["gen_server.rs","from.rs","process_receiver.rs"],[("GenServer::call","gen_server.rs"),("GenServer::reply","gen_server.rs"),("From","from.rs")],
 [],["GenServer::call result","caller mailbox afterwards"])
p("C11","A GenServer runs init first, handles messages in order, stops with its reason",
 "start returns Ok exactly when name registration and init succeeded (already_started, the init reason, timeout, or unknown if it dies before answering otherwise, and the process then ends); after that each message (of the server's own message type) is passed in order to exactly one handler of its kind and a call is answered exactly when its handler returns a value. The server stops when a handler fails, a stop message arrives, or its parent's exit signal is trapped; terminate is then called exactly once with that reason, no further message is handled, the process exits with that reason, and stop reports success exactly when the exit reason equals the requested one.",
 ["inputs","histories"],"every server behaviour (handler results) and every message sequence",
 "tests run one healthy server",
 ["gen_server.rs"],[("start_gen_server","gen_server.rs"),("GenServer::stop","gen_server.rs")],[],["handler invocation log","GenServer::start/stop results","exit reason seen by monitors"])
p("C12","Supervisors restart an exited child exactly when its restart policy says so",
 "When a child exits, a permanent child is always restarted, a transient child exactly when its reason is neither normal nor shutdown, and a temporary child never; children that are not restarted are forgotten, and exits of processes that are not current children change nothing. If the exited child is not restarted and is significant, the supervisor shuts down under AnySignificant always, under AllSignificant exactly when no significant child is still running, and under Never not at all.",
 ["inputs","histories"],"every child table, exit reason, restart policy, significance and auto-shutdown setting",
 "tests kill one child under the default settings",
 ["supervisor.rs","exit_reason.rs","restart.rs"],[("restart_exited_child","supervisor.rs"),("check_auto_shutdown","supervisor.rs")],
 [("Supervisor.children","ordered child table with pid and restarting mark","supervisor.rs")],["Supervisor::which_children/count_children","supervisor exit"])
p("C13","Restart intensity: at most max_restarts restarts in any max_duration window",
 "A supervisor gives up (exits with reason shutdown instead of restarting) exactly when the restart it is about to make would be more than max_restarts within the last max_duration, counting every restart and retry since the supervisor started and forgetting only those older than the window.",
 ["inputs","histories"],"every sequence of restart times and every limit and window",
 "tests never exceed the limit; the count is over unbounded histories",
 ["supervisor.rs"],[("add_restart","supervisor.rs")],[("Supervisor.restarts","instants of the counted restarts","supervisor.rs")],["supervisor exit","number of child starts"])
p("C14","Restart strategies stop and restart exactly the children they name, in order",
 "On a restart, one_for_one starts only the exited child; rest_for_one first stops every running child started after it and then starts it and them; one_for_all stops every other running child and then starts all; children are started in specification order, temporary siblings that were stopped are not started again, and all other children keep their process. If a start fails, that child is marked restarting and retried, and a child that was terminated or is running meanwhile is not started again.",
 ["inputs","histories"],"every child table, exited index, strategy and start outcome",
 "tests use one strategy with one child",
 ["supervisor.rs"],[("restart","supervisor.rs"),("restart_multiple_children","supervisor.rs"),("try_again_restart","supervisor.rs"),("start_child_by_index","supervisor.rs")],
 [("Supervisor.children","ordered child table","supervisor.rs")],["order of child starts and stops","Supervisor::which_children"])
p("C15","The child table API keeps ids unique and reports exactly what exists",
 "start_child adds and starts a child exactly when no child with that id exists (already_started/already_present otherwise); terminate_child, restart_child and delete_child succeed exactly in the documented states and otherwise return the documented error and change nothing; a temporary child's specification disappears when it stops. which_children and count_children list every existing child exactly once, in order, with its current pid, type and restarting mark, and an id may be reused exactly when no child has it.",
 ["inputs","histories"],"every sequence of child management calls with every start outcome",
 "tests count one child",
 ["supervisor.rs"],[("start_new_child","supervisor.rs"),("terminate_child_by_id","supervisor.rs"),("restart_child_by_id","supervisor.rs"),("delete_child_by_id","supervisor.rs"),("which_children_info/count_all_children","supervisor.rs")],
 [("Supervisor.identifiers","ids in use","supervisor.rs")],["Supervisor API results"])
p("C16","Supervisors stop children in reverse order with the configured shutdown method",
 "A terminating supervisor stops every running child exactly once, in reverse start order, waiting for each before the next: brutal_kill sends kill at once, a timeout sends shutdown and kills only after the timeout has passed, infinity sends shutdown and waits. The default is 5 s for workers and infinity for supervisors, and when supervisor start fails part-way all children already started are stopped again.",
 ["inputs","histories"],"every child table, shutdown setting and child reaction",
 "tests do not observe shutdown order or methods",
 ["supervisor.rs","shutdown.rs"],[("terminate_children","supervisor.rs"),("init_children","supervisor.rs"),("shutdown_*","shutdown.rs")],[],["signals the children receive and their order"])
p("C17","A keyed Registry runs at most one process per key and answers accordingly",
 "start_process starts a process exactly when the key has none (already_started otherwise) and stop, remove, lookup, lookup_or_start, list and count answer according to the set of keys whose process is running; a key is forgotten when its process exits and only then or when removed or stopped. A missing start routine or failed start is returned as an error, and a terminating registry stops its processes with the configured shutdown.",
 ["inputs","histories"],"every sequence of registry calls and process exits over any keys",
 "tests start and look up one key",
 ["registry.rs"],[("Registry handlers","registry.rs"),("lookup_or_start_by_key/start_by_key/stop_by_key/remove_by_key/remove_process","registry.rs")],
 [("Registry.registry","key -> running process","registry.rs"),("Registry.lookup","process -> key","registry.rs")],["Registry API results"])
p("C18","HashRing maps every key to a stable member node; changes move few keys",
 "find returns None exactly for an empty ring without override and otherwise a node that is currently in the ring, or the key's override, and it depends only on the current members and overrides, not on the order in which nodes were added or removed. Adding a node moves keys only to that node, removing a node moves only that node's keys, and add, remove, clear and override report and change exactly the membership they name.",
 ["inputs","histories"],"every member set, key and sequence of additions and removals",
 "tests use a few fixed nodes and keys",
 ["hash_ring.rs"],[("find/add/remove/set_overrides/clear","hash_ring.rs")],[("HashRing.ring","sorted replica points","hash_ring.rs")],["HashRing API results"])
p("C19","Frames survive any byte-stream fragmentation unchanged and in order",
 "Decoding the concatenation of any encoded frames yields exactly those frames in order, however the byte stream is cut into reads; an incomplete frame consumes nothing and yields nothing yet. (An IPv6 scope or flow label of an address is not part of a frame.) A complete frame whose body is not exactly a valid frame is reported as an error rather than stalling, panicking or consuming bytes of the next frame, and a frame too long for its length marker is refused.",
 ["inputs"],"every frame value, every split of the stream, every byte string",
 "tests round-trip a few frames in one piece or none",
 ["frame/mod.rs"],[("Codec::decode","frame/mod.rs"),("Codec::encode","frame/mod.rs")],[],["decoded frames"],"frame types are crate-private: reached through the guarded hook module")
p("C20","Only peers that know the shared cookie are admitted as nodes",
 "A connection is registered as a node, and its frames acted upon, exactly when its first frame is a hello whose code authenticates that hello's name and address under the shared cookie; any other first frame, wrong cookie, altered name, address or code, or an early close ends at most the task that serves this connection, without registering a node or affecting any process.",
 ["inputs","histories"],"every first frame and every cookie on either side",
 "tests never connect with a wrong cookie",
 ["node_remote.rs","node_local.rs","frame/hello.rs"],[("Hello::new/validate","frame/hello.rs"),("node_remote_accepter/node_remote_connector","node_remote.rs")],[],["Node::list","peer connection state"],"frame types are crate-private: reached through the guarded hook module")
p("C21","Node bookkeeping is consistent and a lost node reports every dependent",
 "A node name has at most one id and state at a time; Node::list reports nodes exactly by their current state, disconnect and forget act only on the named node, and frames sent to a node not yet connected are delivered in order once it connects. When a node goes down, is disconnected or forgotten, or the local node stops, every local link to it gets a noconnection signal, every monitor of its processes a noconnection DOWN, and every node monitor exactly one NodeDown, each once, and nothing of other nodes is affected.",
 ["inputs","histories","fault_sequences"],"every set of nodes, links and monitors, every order of connects and disconnects",
 "tests connect two healthy nodes",
 ["node_registry.rs","node.rs","node_remote.rs"],[("node_register/node_accept/node_remote_supervisor_down","node_registry.rs"),("node_process_link_*/node_process_monitor_*","node_registry.rs")],
 [("NODE_REGISTRATIONS, NODE_MAP","node id <-> name and state","node_registry.rs"),("NODE_MONITORS, NODE_LINKS","per-node links and monitors","node_registry.rs")],["Node::list","received SystemMessage"])
p("C22","Frames from a peer have exactly the local effect the same local call would have",
 "A link, unlink, monitor, demonitor, exit, send, link-down or monitor-down frame received from a connected node acts on exactly the local process it names, attributed to the pid on that node, with the same result as the corresponding local operation: missing targets are answered with noproc downs, down frames fire only the links and monitors recorded for that node. A frame that violates the protocol (a second hello, a zero id) at most ends that connection, and no frame affects processes it does not name.",
 ["inputs","histories"],"every frame, target state and sender node",
 "tests exchange a few well-formed frames",
 ["node_remote.rs"],[("node_remote_receiver","node_remote.rs")],[],["local process state","answering frames"],"frame types are crate-private: reached through the guarded hook module")
p("C23","Pids, references and nodes keep their identity across nodes",
 "A pid, reference or node sent between distributed nodes, to another node and back, or forwarded through a third node, denotes the same process, reference or node everywhere: local ones become remote on the receiver and local again at home, distinct ones stay distinct, and equality, ordering and hashing agree with identity, also where a node or a destination is compared with a pid, a reference, a name or the text of a node, and where it is made from one. Decoding never panics on a value another node can send.",
 ["inputs"],"every id, node name and address, every forwarding path",
 "tests never serialize a pid across nodes",
 ["pid.rs","reference.rs","node.rs"],[("Serialize/Deserialize for Pid, Reference, Node","pid.rs"),("node_lookup_local/node_lookup_remote","node_registry.rs")],[],["decoded values"])
p("C24","Timers deliver once, not before their time, and never after cancellation",
 "send_after delivers the message to its destinations exactly once and not before the given duration, unless cancel_timer was called earlier, after which it is never delivered. read_timer returns the remaining time, never more than the duration, and None once the timer has fired or was cancelled, and timers do not affect each other.",
 ["inputs","histories","schedules"],"every set of timers, durations and cancellation times",
 "tests wait for one timer",
 ["process.rs","process_registry.rs"],[("Process::send_after","process.rs"),("process_register_timer/process_read_timer/process_destroy_timer","process_registry.rs")],
 [("PROCESS_TIMERS","reference -> (deadline, task)","process_registry.rs")],["message receipt times","Process::read_timer"])
p("C25","Tasks return every result in order; semaphores never exceed their permits",
 "Awaiting tasks (one, many, or on shutdown) returns each task's own result in the order the tasks were given, or the error of the first of them that died, and a task that is shut down runs no further. A Semaphore never has more permits outstanding than it was created with plus those released, and every released permit can be acquired again.",
 ["inputs","schedules"],"every number and completion order of tasks, every permit count and acquire/release history",
 "tests await at most two tasks",
 ["task.rs","semaphore.rs"],[("Task::await_many","task.rs"),("Semaphore::acquire","semaphore.rs")],[],["Task results","concurrent holders"])
p("C26","Process, reference and node ids are never reused and never zero",
 "Every spawned process, created reference and registered node gets an id that was never handed out before on this node and is not zero, local values always carry the local node, and Pid/Reference accessors report exactly the id and node they were built from.",
 ["inputs","histories"],"every allocation history up to 2^64 allocations",
 "tests allocate a few ids",
 ["process.rs","reference.rs","pid.rs","node_registry.rs"],[("ID.fetch_add","process.rs"),("Reference::new","reference.rs"),("Pid::local/remote","pid.rs"),("NODE_ID","node_registry.rs")],[],["Pid/Reference values"])
p("C27","A process starts fully registered and leaves nothing behind when it ends",
 "From its first instruction a spawned process is alive, can use every Process function, and has the link or monitor requested at spawn in place; its exit reason is normal if its body returns, the panic message if it panics, and the recorded signal reason otherwise. When it ends its registration, name, links, monitors in both directions and aliases are all gone.",
 ["inputs","schedules","histories"],"every body, spawn flavour and schedule of the runtime's worker threads",
 "tests run on schedules that rarely hit the spawn race and check no cleanup",
 ["process.rs","catch_unwind.rs","exit_reason.rs"],[("spawn_internal","process.rs"),("Drop for Process","process.rs"),("AsyncCatchUnwind","catch_unwind.rs")],[],["Process::list/info/alive","monitors' reasons"])
p("C28","Concurrent use never deadlocks or loses an update",
 "Processes on different worker threads may spawn, link, monitor, register, send and exit concurrently without deadlock, and the combined effect is one some sequential order of the operations would have produced.",
 ["schedules"],"every interleaving of operations on every number of threads","tests run few threads briefly",
 ["process_registry.rs","link.rs","monitor.rs","node_registry.rs"],[("DashMap entry locks","process_registry.rs")],[],["Process API"])
p("C29","Nodes that keep trying eventually connect and deliver",
 "If the network and both nodes stay up, a requested connection is eventually established, heartbeats keep it alive, and every frame queued for a peer is eventually delivered.",
 ["schedules","fault_sequences"],"every fair schedule and transient fault pattern","liveness cannot be sampled",
 ["node_remote.rs","node_local.rs"],[("node_remote_supervisor","node_remote.rs")],[],["Node::list over time"])
p("C30","WebSocket handlers see every message once and terminate exactly once",
 "Each accepted WebSocket connection runs one handler, the one its accept returned (a refused or timed-out handshake runs none): websocket_init comes first, then every message of the client (a ping is answered first) and of other processes is handled exactly once, in the order received, one at a time, and the commands a callback returns are applied in order, up to the first close, before the next callback. When the connection ends because the client closes or fails, a callback returns an error or a close command is applied, terminate is called exactly once with the reason, nothing of the handler runs after it and its process exits.",
 ["inputs","histories","schedules"],"every message sequence, handler behaviour and failure point","there are no tests of it",
 ["../../hydra-websockets/src/websocket_handler.rs","../../hydra-websockets/src/websocket_command.rs","../../hydra-websockets/src/websocket_server.rs","../../hydra-websockets/src/websocket_server_config.rs"],
 [("start_websocket_handler","../../hydra-websockets/src/websocket_handler.rs"),("websocket_process_commands","../../hydra-websockets/src/websocket_handler.rs"),("server_accept","../../hydra-websockets/src/websocket_server.rs")],[],["handler callbacks","frames at the client","exit of the handler's process"])
p("C31","An application runs as long as its main process and shuts down gracefully",
 "Application::run returns when, and not before, the process returned by start has ended (at once if start fails or panics): the end of no other process and no message ends it. With graceful shutdown a SIGTERM or ctrl-c sends that process an exit signal with reason shutdown, and kills it if it has not ended when the configured timeout is over, not earlier; without a signal, or with graceful shutdown off, neither is sent. Application::test panics exactly when the application does not end with reason normal or shutdown, a start that fails or panics included",
 ["inputs","histories","schedules"],"every reason, order and time of exits and signals","no test sends signals or lets an application fail",
 ["application.rs","application_config.rs"],[("Application::run","application.rs"),("Application::test","application.rs"),("signal_handler","application.rs")],[],["return of run","exit signals at the main process","panic of test"])
p("C32","Process introspection reports exactly the current state",
 "Process::list names every running process once and no other, alive and info agree with it, and info reports the registered name, the trap-exit flag, the linked processes (each once) and the watching process of every monitor on it, all as they are at that moment; registered, whereis and flags agree with info. None of these calls changes anything.",
 ["inputs","histories"],"every state of the process tables","tests never query the state of a process",
 ["process.rs","process_registry.rs","process_info.rs","link.rs","monitor.rs"],[("process_info","process_registry.rs"),("link_fill_info","link.rs"),("monitor_fill_info","monitor.rs"),("process_list","process_registry.rs")],[],["Process::info, list, alive, registered, whereis, flags"])
for q in P:
    q["anchors"]["files"]=[f.replace("hydra/src/../../","") for f in q["anchors"]["files"]]
    for m in q["anchors"]["mechanism"]: m["where"]=m["where"].replace("hydra/src/../../","")
    assert len(q["title"])<=80,(q["id"],len(q["title"]))
    assert q["statement"].count(". ")<=2,(q["id"],q["statement"].count(". "))
open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w").write("".join(json.dumps(q)+"\n" for q in P))
