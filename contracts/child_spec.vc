@fn local::Local::new(local) nw
  ensures r.0 == local,
@fn local::Local::into_inner(self) nw
  ensures r == self.0,
@fn gen_server_options::GenServerOptions::new() nw
  ensures r == (GenServerOptions { name: None, timeout: None }),
@fn gen_server_options::GenServerOptions::name(self, name) nw inst.T=String
  ensures r == (GenServerOptions { name: Some(name), ..self }),
@fn gen_server_options::GenServerOptions::timeout(self, timeout) nw
  ensures r == (GenServerOptions { timeout: Some(timeout), ..self }),
@fn supervisor_options::SupervisorOptions::new() nw
  ensures r == (SupervisorOptions { name: None, timeout: None }),
@fn supervisor_options::SupervisorOptions::name(self, name) nw inst.T=String
  ensures r == (SupervisorOptions { name: Some(name), ..self }),
@fn supervisor_options::SupervisorOptions::timeout(self, timeout) nw
  ensures r == (SupervisorOptions { timeout: Some(timeout), ..self }),
@fn supervisor_options::GenServerOptions#From<SupervisorOptions>::from(value) nw
@from_spec
  GenServerOptions { name: value.name, timeout: value.timeout }
@fn child_spec::ChildSpec::new(id) nw inst.T=String
  ensures r == (ChildSpec { id, start: None, restart: Restart::Permanent, shutdown: None, child_type: ChildType::Worker, significant: false }),
@fn child_spec::ChildSpec::id(self, id) nw inst.T=String
  ensures r == (ChildSpec { id, ..self }),
@fn child_spec::ChildSpec::restart(self, restart) nw
  ensures r == (ChildSpec { restart, ..self }),
@fn child_spec::ChildSpec::shutdown(self, shutdown) nw inst.T=Shutdown
  ensures r == (ChildSpec { shutdown: Some(shutdown), ..self }),
@fn child_spec::ChildSpec::child_type(self, child_type) nw
  ensures r == (ChildSpec { child_type, ..self }),
@fn child_spec::ChildSpec::significant(self, significant) nw panics
  ensures r == (ChildSpec { significant, ..self }), significant ==> !(self.restart is Permanent),
@fn shutdown::Shutdown#From<Duration>::from(value) nw
@from_spec
  Shutdown::Duration(value)
