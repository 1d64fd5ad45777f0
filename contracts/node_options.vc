@fn node_options::NodeOptions::handshake_timeout(self, duration)
  ensures r == (NodeOptions { handshake_timeout: duration, ..self }),
@fn node_options::NodeOptions::heartbeat_interval(self, duration)
  ensures r == (NodeOptions { heartbeat_interval: duration, ..self }),
@fn node_options::NodeOptions::heartbeat_timeout(self, duration)
  ensures r == (NodeOptions { heartbeat_timeout: duration, ..self }),
@fn node_options::NodeOptions::listen_address(self, address) inst.T=SocketAddr
  ensures r == (NodeOptions { listen_address: address, ..self }),
@fn node_options::NodeOptions::broadcast_address(self, address) inst.T=SocketAddr
  ensures r == (NodeOptions { broadcast_address: address, ..self }),
