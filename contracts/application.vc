@units app
@fn application::Application::run(__self) awaits
  requires old(w).caller@ is Begin,
  ensures final(w).caller@ is Heard,
@fn application::Application::run@1(__self: VxS, config: ApplicationConfig, tx: RunTx) future=vx_app_run
  requires old(w).ap@ is Begin, old(w).cfg@ == Some((config.graceful_shutdown, config.graceful_shutdown_timeout)),
  ensures final(w).ap@ is Done,
@loop 0
  invariant_except_break w.cfg == old(w).cfg, w.me == old(w).me, idle(w.ap@, w.cfg@) == Some((pid, spid)),
  ensures w.ap@ is Over,
@fn application::Application::test(__self) awaits panicsat
  requires old(w).caller@ is Begin,
  ensures final(w).caller@ is Heard, !unclean(final(w).caller@),
@fn application::Application::test@1(__self: VxS, tx: OneTx<Option<ExitReason>>) future=vx_app_test
  requires old(w).ap@ is Begin, old(w).cfg@ is None,
  ensures final(w).ap@ is Done,
@loop 0
  invariant_except_break w.cfg == old(w).cfg, w.me == old(w).me, idle(w.ap@, w.cfg@) == Some((pid, None::<Pid>)),
  ensures w.ap@ is Done,
@fn application::signal_handler() selects
  requires old(w).ap@ is Listen,
  ensures !(final(w).ap@ is Listen),
@fn application_config::ApplicationConfig::new() nw
  ensures !r.graceful_shutdown, r.graceful_shutdown_timeout.ns() == 10_000_000_000,
@fn application_config::ApplicationConfig::with_graceful_shutdown(self, value) nw
  ensures r == (ApplicationConfig { graceful_shutdown: value, ..self }),
@fn application_config::ApplicationConfig::with_graceful_shutdown_timeout(self, duration) nw
  ensures r == (ApplicationConfig { graceful_shutdown_timeout: duration, ..self }),
@fn application_config::ApplicationConfig#Default::default() nw
  ensures r.graceful_shutdown, r.graceful_shutdown_timeout.ns() == 10_000_000_000,
