//! Websocket handlers over loopback connections against a model of their events (C30).
use crate::harness::*;
use crate::{rt, Case};
use futures_util::{SinkExt, StreamExt};
use hydra::*;
use hydra_websockets::*;
use std::collections::HashMap;
use std::net::SocketAddr;
use std::sync::{Arc, Mutex};
use std::time::Duration;

const Q: [&str; 1] = ["C30"];

/// what a callback returns
#[derive(Clone, Debug, Default)]
struct React {
    sends: Vec<WebsocketMessage>,
    close: Option<(u16, String)>,
    after: Vec<WebsocketMessage>,
    close2: bool,
    fails: Option<String>,
    commands: bool,
    naps: u64,
}
impl React {
    fn ends(&self) -> Option<ExitReason> {
        if let Some(f) = &self.fails {
            return Some(ExitReason::from(f.as_str()));
        }
        self.close.as_ref().map(|_| ExitReason::Normal)
    }
    fn build(&self) -> Result<Option<WebsocketCommands>, ExitReason> {
        if let Some(f) = &self.fails {
            return Err(ExitReason::from(f.as_str()));
        }
        if !self.commands {
            return Ok(None);
        }
        let mut c = match (self.sends.first(), &self.close) {
            (None, Some((code, why))) if self.after.is_empty() && !self.close2 => return Ok(Some(WebsocketCommands::with_close(CloseCode::from(*code), why.as_str()))),
            (Some(m), _) => WebsocketCommands::with_send(m.clone()),
            _ => WebsocketCommands::new(),
        };
        for m in self.sends.iter().skip(1) {
            c.send(m.clone());
        }
        if let Some((code, why)) = &self.close {
            c.close(CloseCode::from(*code), why.as_str());
            for m in &self.after {
                c.send(m.clone());
            }
            if self.close2 {
                c.close(CloseCode::Away, "second");
            }
        }
        Ok(Some(c))
    }
}
#[derive(Clone, Debug, PartialEq)]
enum Ev {
    Init,
    Handle(WebsocketMessage),
    Info(u64),
    Exit(Pid, ExitReason),
    Other,
    Terminate(ExitReason),
}
#[derive(Default)]
struct Script {
    refuse: bool,
    init: React,
    /// reactions to the client's messages, by position, and to the infos, by value
    msgs: Vec<React>,
    closing: React,
    infos: HashMap<u64, React>,
    log: Vec<Ev>,
    at: usize,
    pid: Option<Pid>,
    peer: Option<SocketAddr>,
    accepts: usize,
    /// the requests of other connections
    strange: usize,
}
type S = Arc<Mutex<Script>>;
static SCRIPTS: Mutex<Option<HashMap<String, S>>> = Mutex::new(None);
fn script(k: &str) -> Option<S> {
    SCRIPTS.lock().unwrap().get_or_insert_with(HashMap::new).get(k).cloned()
}

struct H(S);
impl WebsocketHandler for H {
    type Message = u64;
    fn accept(address: SocketAddr, request: &WebsocketRequest, response: WebsocketResponse) -> Result<(WebsocketResponse, Self), ExitReason> {
        let s = script(request.uri().path()).ok_or(ExitReason::from("unknown path"))?;
        let mut g = s.lock().unwrap();
        g.accepts += 1;
        g.peer = Some(address);
        if g.refuse {
            return Err(ExitReason::from("refused"));
        }
        drop(g);
        Ok((response, H(s)))
    }
    async fn websocket_init(&mut self) -> Result<Option<WebsocketCommands>, ExitReason> {
        let r = {
            let mut g = self.0.lock().unwrap();
            g.log.push(Ev::Init);
            g.pid = Some(Process::current());
            if g.init.naps == 7 {
                Process::set_flags(ProcessFlags::TRAP_EXIT);
            }
            g.init.clone()
        };
        nap(r.naps).await;
        r.build()
    }
    async fn websocket_handle(&mut self, message: WebsocketMessage) -> Result<Option<WebsocketCommands>, ExitReason> {
        let r = {
            let mut g = self.0.lock().unwrap();
            if g.pid != Some(Process::current()) {
                g.strange += 1;
            }
            let r = if message.is_close() { g.closing.clone() } else { g.msgs.get(g.at).cloned().unwrap_or_default() };
            g.at += 1;
            g.log.push(Ev::Handle(message));
            r
        };
        nap(r.naps).await;
        r.build()
    }
    async fn websocket_info(&mut self, info: Message<u64>) -> Result<Option<WebsocketCommands>, ExitReason> {
        let r = {
            let mut g = self.0.lock().unwrap();
            let (e, r) = match info {
                Message::User(v) => (Ev::Info(v), g.infos.get(&v).cloned().unwrap_or_default()),
                Message::System(SystemMessage::Exit(p, r)) => (Ev::Exit(p, r), React::default()),
                Message::System(_) => (Ev::Other, React::default()),
            };
            g.log.push(e);
            r
        };
        nap(r.naps).await;
        r.build()
    }
    async fn terminate(&mut self, reason: ExitReason) {
        self.0.lock().unwrap().log.push(Ev::Terminate(reason));
    }
}
async fn nap(n: u64) {
    match n {
        1 | 7 => tokio::task::yield_now().await,
        2 => tokio::time::sleep(Duration::from_millis(1)).await,
        _ => {}
    }
}
fn message(g: &mut Rng, n: &mut u64) -> WebsocketMessage {
    *n += 1;
    match g.below(5) {
        0 => WebsocketMessage::Binary(vec![*n as u8, (*n >> 8) as u8, 0, 255].into()),
        1 => WebsocketMessage::Ping(n.to_be_bytes().to_vec().into()),
        2 => WebsocketMessage::Text("x".repeat(200 + *n as usize).into()),
        _ => WebsocketMessage::Text(format!("m{n}").into()),
    }
}
fn outgoing(g: &mut Rng, n: &mut u64) -> WebsocketMessage {
    *n += 1;
    if g.chance(20) {
        WebsocketMessage::Binary(n.to_be_bytes().to_vec().into())
    } else {
        WebsocketMessage::Text(format!("s{n}").into())
    }
}
fn react(g: &mut Rng, n: &mut u64, end: usize) -> React {
    let mut r = React { naps: g.below(3) as u64, ..Default::default() };
    if g.chance(end) {
        if g.chance(40) {
            *n += 1;
            r.fails = Some(format!("stop{n}"));
            return r;
        }
        r.close = Some((if g.chance(50) { 1000 } else { 3000 + g.below(900) as u16 }, format!("bye{n}")));
        for _ in 0..g.below(3) {
            r.after.push(outgoing(g, n));
        }
        r.close2 = g.chance(20);
    }
    if g.chance(60) {
        for _ in 0..g.below(9) {
            r.sends.push(outgoing(g, n));
        }
    }
    r.commands = r.close.is_some() || !r.sends.is_empty() || g.chance(30);
    r
}
async fn connect(addr: SocketAddr, path: &str) -> Option<Result<tokio_tungstenite::WebSocketStream<tokio::net::TcpStream>, ()>> {
    let tcp = tokio::net::TcpStream::connect(addr).await.ok()?;
    let r = tokio::time::timeout(Duration::from_secs(10), tokio_tungstenite::client_async(format!("ws://{addr}{path}"), tcp)).await.ok()?;
    Some(r.map(|x| x.0).map_err(|_| ()))
}
fn handler_case(seed: u64) -> R {
    rt(async move {
        let boss = Puppet::spawn();
        boss.call_async(move || Box::pin(scenario(seed))).await.unwrap_or_else(|e| fail(&Q, format!("{e:?}"), &[]))
    })
}
async fn scenario(seed: u64) -> R {
    let g = &mut Rng::new(seed);
    let mut n = 0u64;
    let key = format!("/{seed}/{}", g.next());
    let k = g.below(5);
    let mut sc = Script { refuse: g.chance(5), init: react(g, &mut n, 8), ..Default::default() };
    if g.chance(10) {
        sc.init.naps = 7;
    }
    let traps = sc.init.naps == 7;
    let msgs: Vec<_> = (0..k).map(|_| message(g, &mut n)).collect();
    sc.msgs = msgs.iter().map(|_| react(g, &mut n, 15)).collect();
    if g.chance(30) {
        sc.closing = react(g, &mut n, 30);
    }
    let infos: Vec<u64> = if g.chance(50) { (0..g.below(4) as u64).collect() } else { vec![] };
    for i in &infos {
        let r = react(g, &mut n, 10);
        sc.infos.insert(*i, r);
    }
    let mut t = vec![format!("init {:?}", sc.init), format!("client sends {msgs:?}"), format!("callbacks answer {:?}", sc.msgs), format!("close is answered with {:?}", sc.closing), format!("infos {:?}", sc.infos)];
    let refuse = sc.refuse;
    let s: S = Arc::new(Mutex::new(sc));
    SCRIPTS.lock().unwrap().get_or_insert_with(HashMap::new).insert(key.clone(), s.clone());
    // a server on a free port
    let mut server = None;
    let mut addr = SocketAddr::from(([127, 0, 0, 1], 0));
    for _ in 0..20 {
        addr = std::net::TcpListener::bind("127.0.0.1:0").and_then(|l| l.local_addr()).unwrap();
        let mut config = WebsocketServerConfig::new(addr);
        if g.chance(50) {
            config = config.handshake_timeout(Duration::from_secs(20));
        }
        if let Ok(p) = WebsocketServer::<H>::new(config).start_link(GenServerOptions::new()).await {
            server = Some(p);
            break;
        }
    }
    let Some(server) = server else { return Ok(()) };
    let mut boss_monitor = None;
    let conn = match connect(addr, &key).await {
        None => {
            SCRIPTS.lock().unwrap().as_mut().unwrap().remove(&key);
            return Ok(());
        }
        Some(c) => c,
    };
    if refuse {
        settle().await;
        let log = s.lock().unwrap().log.clone();
        let n = s.lock().unwrap().accepts;
        t.push(format!("refused: {log:?}"));
        ensure!(Q, t, conn.is_err() && log.is_empty() && n == 1, "a refused request was served: {log:?}");
        return stop(server).await;
    }
    ensure!(Q, t, conn.is_ok(), "an accepted request was not answered");
    let mut conn = conn.unwrap();
    let local = conn.get_ref().local_addr().ok();
    // the handler's process
    let s2 = s.clone();
    wait_for(5000, move || s2.lock().unwrap().pid.is_some()).await;
    let pid = s.lock().unwrap().pid;
    ensure!(Q, t, pid.is_some() && s.lock().unwrap().peer == local, "the handler was not started with the client's address");
    let pid = pid.unwrap();
    let boss_ref = Process::monitor(pid);
    let _ = boss_monitor.insert(boss_ref);
    let mut got: Vec<WebsocketMessage> = vec![];
    let pipelined = g.chance(60);
    let early = g.below(infos.len() + 1);
    for i in &infos[..early] {
        Process::send(pid, *i);
    }
    let mut exit_sent = false;
    if traps && g.chance(50) {
        Process::exit(pid, ExitReason::from("asked"));
        exit_sent = true;
    }
    t.push(format!("pipelined {pipelined}, infos first {early}"));
    for m in &msgs {
        if pipelined {
            let _ = conn.feed(m.clone()).await;
        } else {
            let _ = conn.send(m.clone()).await;
            if g.chance(50) {
                settle().await;
            }
        }
    }
    for i in &infos[early..] {
        Process::send(pid, *i);
    }
    let _ = conn.flush().await;
    let abrupt = g.chance(20);
    if abrupt {
        if g.chance(50) {
            settle().await;
        }
        use tokio::io::AsyncWriteExt;
        let _ = conn.get_mut().shutdown().await;
    } else {
        if g.chance(30) {
            tokio::time::sleep(Duration::from_millis(2)).await;
        }
        let _ = conn.send(WebsocketMessage::Close(None)).await;
    }
    // everything the server sends
    let end = tokio::time::timeout(Duration::from_secs(10), async {
        while let Some(Ok(m)) = conn.next().await {
            got.push(m);
        }
    })
    .await;
    ensure!(Q, t, end.is_ok(), "the connection did not end; events {:?}", s.lock().unwrap().log);
    let down = tokio::time::timeout(Duration::from_secs(10), async {
        loop {
            if let Message::System(SystemMessage::ProcessDown(_, r, why)) = Process::receive::<u64>().await {
                if r == boss_ref {
                    return why;
                }
            }
        }
    })
    .await;
    settle().await;
    let log = s.lock().unwrap().log.clone();
    t.push(format!("abrupt {abrupt}"));
    t.push(format!("events {log:?}"));
    t.push(format!("client got {got:?}"));
    ensure!(Q, t, down.is_ok(), "the handler's process did not end with the connection");
    let why = down.unwrap();
    let (strange, accepts, init, reacts, closing, rinfos) = {
        let g = s.lock().unwrap();
        (g.strange, g.accepts, g.init.clone(), g.msgs.clone(), g.closing.clone(), g.infos.clone())
    };
    ensure!(Q, t, strange == 0 && accepts == 1, "callbacks ran in another process");
    ensure!(Q, t, log.first() == Some(&Ev::Init), "websocket_init did not run first");
    let mut want: Vec<WebsocketMessage> = vec![];
    let mut ended: Option<Option<ExitReason>> = None;
    let mut handled = 0;
    let mut noted: Vec<u64> = vec![];
    let mut closed = false;
    let mut exits = 0;
    let mut terminated = false;
    let mut closing_frame = None;
    for (i, e) in log.iter().enumerate() {
        ensure!(Q, t, !terminated, "{e:?} after terminate");
        if ended.is_some() {
            ensure!(Q, t, matches!(e, Ev::Terminate(_)), "{e:?} after the connection had ended");
        }
        let r = match e {
            Ev::Init => {
                ensure!(Q, t, i == 0, "websocket_init ran twice");
                init.clone()
            }
            Ev::Handle(m) if m.is_close() => {
                ensure!(Q, t, handled == msgs.len() && !abrupt, "the close was handled before earlier messages");
                closed = true;
                closing.clone()
            }
            Ev::Handle(m) => {
                ensure!(Q, t, msgs.get(handled) == Some(m), "message {handled} was handled as {m:?}");
                handled += 1;
                if let WebsocketMessage::Ping(d) = m {
                    want.push(WebsocketMessage::Pong(d.clone()));
                }
                reacts[handled - 1].clone()
            }
            Ev::Info(v) => {
                noted.push(*v);
                rinfos.get(v).cloned().unwrap_or_default()
            }
            Ev::Exit(..) => {
                exits += 1;
                React::default()
            }
            Ev::Other => React::default(),
            Ev::Terminate(x) => {
                terminated = true;
                match &ended {
                    // the connection failed: an abrupt end, or a frame that could not be sent any more
                    None => ensure!(Q, t, abrupt, "terminate({x:?}) although nothing had ended the connection"),
                    Some(Some(y)) => ensure!(Q, t, x == y || (abrupt && i > 0), "terminate({x:?}), expected {y:?}"),
                    Some(None) => {}
                }
                ensure!(Q, t, *x == why || why == ExitReason::from("noproc"), "terminate({x:?}) but the process exited with {why:?}");
                continue;
            }
        };
        if r.fails.is_none() && r.commands && !closed {
            want.extend(r.sends.iter().cloned());
            closing_frame = r.close.clone();
        }
        if closed {
            ended = Some(match r.ends() {
                _ if r.fails.is_some() => r.ends(),
                None if r.sends.is_empty() && !r.commands => Some(ExitReason::from("connection_closed")),
                _ => None,
            });
        } else if let Some(y) = r.ends() {
            ended = Some(Some(y));
        }
    }
    ensure!(Q, t, terminated, "terminate was not called");
    ensure!(Q, t, noted.iter().enumerate().all(|(i, v)| infos[i] == *v), "the infos were handled as {noted:?}");
    ensure!(Q, t, exits <= exit_sent as usize, "an exit message was handled twice");
    if ended.is_none() {
        ensure!(Q, t, handled == msgs.len() || abrupt, "only {handled} messages were handled");
    }
    // frames reach the client in order; all of them when nothing was left unread by the server
    let mut seen: Vec<WebsocketMessage> = got.clone();
    let last_close = seen.iter().position(|m| m.is_close());
    let close_got = last_close.map(|i| seen[i].clone());
    if let Some(i) = last_close {
        ensure!(Q, t, i + 1 == seen.len(), "a frame after the close frame");
        seen.truncate(i);
    }
    let prefix = seen.len() <= want.len() && seen.iter().zip(&want).all(|(a, b)| a == b);
    ensure!(Q, t, prefix, "the client got {seen:?}, the commands were {want:?}");
    let reliable = !abrupt && handled == msgs.len() && (closed || ended.is_none());
    if reliable || (closing_frame.is_some() && close_got.is_some()) {
        ensure!(Q, t, seen.len() == want.len(), "the client got {seen:?}, the commands were {want:?}");
    }
    if let (Some(WebsocketMessage::Close(Some(f))), Some((code, reason))) = (&close_got, &closing_frame) {
        ensure!(Q, t, u16::from(f.code) == *code && f.reason.as_str() == reason, "the client got {f:?}");
    }
    SCRIPTS.lock().unwrap().as_mut().unwrap().remove(&key);
    stop(server).await
}
async fn stop(server: Pid) -> R {
    Process::unlink(server);
    Process::exit(server, ExitReason::Kill);
    Ok(())
}
/// the last message of a client that waits for the answers: every command arrives
fn quiet_case(seed: u64) -> R {
    rt(async move {
        let boss = Puppet::spawn();
        boss.call_async(move || Box::pin(quiet(seed))).await.unwrap_or_else(|e| fail(&Q, format!("{e:?}"), &[]))
    })
}
async fn quiet(seed: u64) -> R {
    let g = &mut Rng::new(seed ^ 77);
    let mut n = 0;
    let key = format!("/q{seed}/{}", g.next());
    let m = message(g, &mut n);
    let mut r = react(g, &mut n, 60);
    r.fails = None;
    let mut t = vec![format!("client sends {m:?}"), format!("answered with {r:?}")];
    let s: S = Arc::new(Mutex::new(Script { msgs: vec![r.clone()], ..Default::default() }));
    SCRIPTS.lock().unwrap().get_or_insert_with(HashMap::new).insert(key.clone(), s.clone());
    let addr = std::net::TcpListener::bind("127.0.0.1:0").and_then(|l| l.local_addr()).unwrap();
    let Ok(server) = WebsocketServer::<H>::new(WebsocketServerConfig::new(addr)).start_link(GenServerOptions::new()).await else { return Ok(()) };
    let Some(Ok(mut conn)) = connect(addr, &key).await else { return Ok(()) };
    let _ = conn.send(m.clone()).await;
    let mut want: Vec<WebsocketMessage> = vec![];
    if let WebsocketMessage::Ping(d) = &m {
        want.push(WebsocketMessage::Pong(d.clone()));
    }
    if r.commands {
        want.extend(r.sends.iter().cloned());
    }
    let mut got = vec![];
    for _ in 0..want.len() {
        match tokio::time::timeout(Duration::from_secs(5), conn.next()).await {
            Ok(Some(Ok(x))) => got.push(x),
            _ => break,
        }
    }
    t.push(format!("events {:?}", s.lock().unwrap().log));
    ensure!(Q, t, got == want, "the client got {got:?}, expected {want:?}");
    if let Some((code, reason)) = &r.close {
        let x = tokio::time::timeout(Duration::from_secs(5), conn.next()).await;
        let ok = matches!(&x, Ok(Some(Ok(WebsocketMessage::Close(Some(f))))) if u16::from(f.code) == *code && f.reason.as_str() == reason);
        ensure!(Q, t, ok, "expected the close frame, got {x:?}");
    }
    SCRIPTS.lock().unwrap().as_mut().unwrap().remove(&key);
    stop(server).await
}
pub fn cases(v: &mut Vec<Case>) {
    v.push(Case { name: "websocket_handler", props: &Q, random: true, limit: 0, f: handler_case });
    v.push(Case { name: "websocket_commands", props: &Q, random: true, limit: 0, f: quiet_case });
}
