@units ws
@fn websocket_handler::error_to_reason(error) nw
  ensures r == reason_of(*error),
@fn websocket_handler::websocket_process_commands(commands, handler, stream) sendall
  requires !(old(w).sv@ is Up), old(w).ph@ is Cmds, old(w).ph@->Cmds_0 == commands.buffer@, !old(w).ph@->Cmds_2,
  ensures
    *final(w) == (World { ph: final(w).ph, ..*old(w) }),
    r ==> final(w).ph@ is Dead,
    !r ==> due(final(w).ph@) == over(old(w).ph@->Cmds_1),
@entry
  let ghost all = commands.buffer@; let ghost closed = old(w).ph@->Cmds_1; let ghost w0 = *w;
@loop 0
  w.me == w0.me, *w == (World { ph: w.ph, ..w0 }),
  match __snd1 {
    Ok(_) => w.ph@ is Cmds && w.ph@->Cmds_1 == closed && (match close_command {
      None => w.ph@->Cmds_0 =~= all.skip(__it0.pos()),
      Some(c) => c is Close && w.ph@->Cmds_0.len() > 0 && w.ph@->Cmds_0[0] == c }),
    Err(e) => w.ph@ == WPh::Term(reason_of(e)) },
@fn websocket_handler::start_websocket_handler(handler, stream) selects
  requires old(w).ph@ is Begin, !(old(w).sv@ is Up),
  ensures final(w).ph@ is Dead,
@loop 0
  invariant w.me == old(w).me, w.sv == old(w).sv, due(w.ph@) is Idle,
@fn websocket_command::WebsocketCommands::new() nw
  ensures r.buffer@ == Seq::<WebsocketCommand>::empty(),
@fn websocket_command::WebsocketCommands::send(self, message) inst.T=WebsocketMessage
  ensures *final(w) == *old(w),
  final(self).buffer@ == old(self).buffer@.push(WebsocketCommand::Send(message)),
@fn websocket_command::WebsocketCommands::close(self, code, reason) inst.T=String
  ensures *final(w) == *old(w),
  final(self).buffer@ == old(self).buffer@.push(WebsocketCommand::Close(code, reason)),
@fn websocket_command::WebsocketCommands::with_send(message) inst.T=WebsocketMessage
  ensures *final(w) == *old(w),
  r.buffer@ == seq![WebsocketCommand::Send(message)],
@fn websocket_command::WebsocketCommands::with_close(code, reason) inst.T=String
  ensures *final(w) == *old(w),
  r.buffer@ == seq![WebsocketCommand::Close(code, reason)],
@fn websocket_server_config::WebsocketServerConfig::new(address) nw
  ensures r.address == address, r.handshake_timeout is None, r.max_message_size == default_message_size(), r.max_frame_size == default_frame_size(),
@fn websocket_server_config::WebsocketServerConfig::handshake_timeout(self, timeout) nw
  ensures r == (WebsocketServerConfig { handshake_timeout: Some(timeout), ..self }),
@fn websocket_server_config::WebsocketServerConfig::max_message_size(self, size) nw
  ensures r == (WebsocketServerConfig { max_message_size: size, ..self }),
@fn websocket_server_config::WebsocketServerConfig::max_frame_size(self, size) nw
  ensures r == (WebsocketServerConfig { max_frame_size: size, ..self }),
@fn websocket_server::server_accept(stream, address, config) handshake timeouts
  requires old(w).sv@ == SPh::Fresh(any(stream), address, config), old(w).timed@ is None,
  ensures final(w).sv@ is Served || final(w).sv@ is Over,
@fn websocket_server::server_process(server, config) anyloops
  requires old(w).sv@ is Listening, old(w).cfg@ == config,
@loop 0
  invariant listening(w.sv@), w.cfg == old(w).cfg,
@fn websocket_server::WebsocketServer#GenServer::init(self)
  requires old(w).sv@ is Init,
  ensures match r {
    Ok(_) => final(w).trap@ && up(*final(self), final(w).sv@),
    Err(e) => final(w).sv@ is Failed && e == bind_failure(final(w).sv@->Failed_0) },
    final(self).config == old(self).config,
@fn websocket_server::WebsocketServer#GenServer::terminate(self, _reason)
  requires up(*old(self), old(w).sv@),
  ensures final(w).sv@ is Over, final(self).config == old(self).config,
@fn websocket_server::WebsocketServer::new(config) nw
  ensures r.config == config, r.server is None,
@pre
pub open spec fn up<T: WebsocketHandler>(s: WebsocketServer<T>, p: SPh) -> bool { p matches SPh::Up(q, Task::Server(l, c)) && c == s.config && s.server == Some(q) }

// what a handler does with what it does not handle: nothing
@fn websocket_handler::WebsocketHandler::websocket_init(__self)
  ensures r == Ok::<Option<WebsocketCommands>, ExitReason>(None), *final(__self) == *old(__self), *final(w) == *old(w),
@fn websocket_handler::WebsocketHandler::websocket_info(__self, info)
  ensures r == Ok::<Option<WebsocketCommands>, ExitReason>(None), *final(__self) == *old(__self), *final(w) == *old(w),
@fn websocket_handler::WebsocketHandler::terminate(__self, reason)
  ensures *final(__self) == *old(__self), *final(w) == *old(w),
