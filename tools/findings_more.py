MORE = {
 "a call that ends with ServerDown leaves no reply of it in the mailbox": ("C10", "a reply that arrived after the ProcessDown of the server stayed in the mailbox when the call returned ServerDown"),
 "clearing a hash ring also clears its overrides": ("C18", "find still returned overridden nodes of a cleared ring"),
 "starting a process in a registry without a start routine returns an error": ("C17", "the registry panicked instead of answering not_supported"),
 "dropping a registry only affects the processes registered by it": ("C17", "dropping an unrelated Registry value removed and killed the children of the running registry"),
 "a registry started under another name uses the table of that name": ("C17", "lookups by the registered name of a registry found nothing"),
 "a frame is decoded from its own bytes only": ("C19", "a frame body that needs more bytes than its length took them from the next frame"),
 "a frame that is too large for its length marker is not sent": ("C19", "the length of a frame over 4 GiB was truncated, which desynchronised the stream"),
 "a remote node without an address is a deserialization error": ("C23", "decoding a node without an address panicked"),
 "the handshake code separates the name from the address": ("C20", "hellos whose name and address concatenate to the same bytes had the same code"),
 "the end of a stopped local node does not affect a local node started since": ("C21", "the late end of an earlier local node process cleared the nodes of the running one"),
 "a remote node supervisor is linked to the local node": ("C21", "remote node supervisors outlived the local node"),
 "disconnecting or forgetting a node reports every link and monitor of it": ("C21", "disconnect/forget dropped links and monitors of the node without signalling"),
 "stopping the local node disconnects every node": ("C21", "stopping the local node left nodes and their links and monitors behind"),
 "a named monitor of a remote process is installed only while the process exists": ("C22", "a remote named monitor of a process that ends meanwhile was never answered"),
 "a timer is registered before it fires and gone once it has fired": ("C24", "a short timer could fire before it was registered and was then reported by read_timer for ever"),
 "a reference of another node does not name a local timer": ("C24", "cancel_timer with a reference of another node cancelled the local timer with the same id"),
 "a restart window longer than the clock does not crash the supervisor": ("C13", "a max_duration longer than the uptime of the clock panicked the supervisor on its first restart"),
 "a terminating registry leaves removed processes running when their key was started again": ("C17", "a process removed by key was shut down with the registry when its key had been started again"),
 "dropping an idle copy of a registry keeps the table of the running one": ("C17", "dropping an unused copy of a registry removed the empty table of the running one, so removed processes were killed with it"),
"a frame with trailing bytes is an error": ("C19", "a complete frame whose body is a valid frame followed by further bytes was decoded and the rest of its body silently dropped"),
 "a length inside a frame cannot ask for more memory than the longest frame": ("C19", "a received frame (also before the handshake) announcing an element count of 2^63 panicked or aborted in the allocator"),
 "the heartbeat timeout option sets the heartbeat timeout": ("C21", "NodeOptions::heartbeat_timeout set the handshake timeout, so a silent node was considered down only after the default 45 s"),
 "the end of the local node's process reports every link and monitor of the nodes": ("C21", "when the local node's process died, links to and monitors of nodes still connecting were dropped without a signal"),
 "a websocket handler does not run any further once its connection has ended": ("C30", "after a failed write or a close command the handler's routine went on to its next callback and could call terminate a second time"),
 "terminate is called when a websocket handler closes the connection": ("C30", "terminate was not called when the connection ended by the handler's own close command"),
 "terminate is called when websocket_init stops the handler": ("C30", "terminate was not called when websocket_init returned an error"),
 "Application::test panics when the application process panics": ("C31", "Application::test went on to its end (or hung) when the application process had panicked, so a failing test passed"),
 "Application::test panics when the application was killed": ("C31", "Application::test reported success when the application was killed before the test had finished"),
 "comparing a reference with an alias destination never returns": ("C23", "`reference == dest` compared the destination with itself over and over when it was an alias, which overflowed the stack"),
}
OPEN = []
