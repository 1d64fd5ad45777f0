//! Puppet processes and helpers shared by the scenarios.
use futures_util::future::BoxFuture;
use futures_util::FutureExt;
use hydra::*;
use std::panic::AssertUnwindSafe;
use std::time::Duration;
use tokio::sync::mpsc;
use tokio::sync::oneshot;

pub struct Fail {
    pub props: Vec<&'static str>,
    pub what: String,
    pub trace: Vec<String>,
}
pub type R = Result<(), Fail>;

pub fn fail<T>(props: &[&'static str], what: impl Into<String>, trace: &[String]) -> Result<T, Fail> {
    Err(Fail { props: props.to_vec(), what: what.into(), trace: trace.to_vec() })
}
#[macro_export]
macro_rules! ensure {
    ($props:expr, $trace:expr, $c:expr, $($a:tt)*) => { if !($c) { return $crate::harness::fail(&$props, format!($($a)*), &$trace[..]); } };
}

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545F4914F6CDD1D)
    }
    pub fn below(&mut self, n: usize) -> usize {
        ((self.next() >> 33) % (n.max(1) as u64)) as usize
    }
    pub fn chance(&mut self, pct: usize) -> bool {
        self.below(100) < pct
    }
}

type Job = Box<dyn FnOnce() -> BoxFuture<'static, ()> + Send>;
pub enum Cmd {
    Run(Job),
    Finish,
    Panic(String),
    PanicStatic,
    PanicOther,
}
#[derive(Clone)]
pub struct Puppet {
    pub pid: Pid,
    tx: mpsc::UnboundedSender<Cmd>,
}
pub async fn puppet_body(mut rx: mpsc::UnboundedReceiver<Cmd>) {
    loop {
        match rx.recv().await {
            Some(Cmd::Run(j)) => j().await,
            Some(Cmd::Finish) => return,
            Some(Cmd::Panic(m)) => panic!("{}", m),
            Some(Cmd::PanicStatic) => panic!("static panic"),
            Some(Cmd::PanicOther) => std::panic::panic_any(17u8),
            None => std::future::pending().await,
        }
    }
}
fn pmsg(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "?".into()
    }
}
#[derive(Debug, Clone, PartialEq)]
pub enum CallErr {
    Dead,
    Panicked(String),
}
impl Puppet {
    pub fn spawn() -> Puppet {
        let (tx, rx) = mpsc::unbounded_channel();
        let pid = Process::spawn(puppet_body(rx));
        Puppet { pid, tx }
    }
    pub fn cmd(&self, c: Cmd) {
        let _ = self.tx.send(c);
    }
    /// runs f inside the puppet's process
    pub async fn call<T: Send + 'static>(&self, f: impl FnOnce() -> T + Send + 'static) -> Result<T, CallErr> {
        self.call_async(move || async move { f() }.boxed()).await
    }
    pub async fn call_async<T: Send + 'static>(&self, f: impl FnOnce() -> BoxFuture<'static, T> + Send + 'static) -> Result<T, CallErr> {
        let (tx, rx) = oneshot::channel();
        self.cmd(Cmd::Run(Box::new(move || {
            async move {
                let r = AssertUnwindSafe(async move { f().await }).catch_unwind().await;
                let _ = tx.send(r.map_err(pmsg));
            }
            .boxed()
        })));
        match tokio::time::timeout(Duration::from_secs(20), rx).await {
            Ok(Ok(Ok(v))) => Ok(v),
            Ok(Ok(Err(m))) => Err(CallErr::Panicked(m)),
            Ok(Err(_)) => Err(CallErr::Dead),
            Err(_) => Err(CallErr::Panicked("operation did not return within 20 s".into())),
        }
    }
    /// spawns another puppet from inside this one
    pub async fn spawn_from(&self, link: bool, monitor: bool) -> Result<(Puppet, Option<Reference>), CallErr> {
        self.call(move || {
            let (tx, rx) = mpsc::unbounded_channel();
            if monitor {
                let (pid, r) = Process::spawn_monitor(puppet_body(rx));
                (Puppet { pid, tx }, Some(r))
            } else if link {
                (Puppet { pid: Process::spawn_link(puppet_body(rx)), tx }, None)
            } else {
                (Puppet { pid: Process::spawn(puppet_body(rx)), tx }, None)
            }
        })
        .await
    }
    pub async fn drain(&self) -> Result<Vec<Item>, CallErr> {
        self.call(|| {
            let mut v = vec![];
            while let Some(m) = Process::receiver().for_message::<u64>().receive().now_or_never() {
                v.push(Item::from(m));
            }
            v
        })
        .await
    }
}
#[derive(Debug, Clone, PartialEq)]
pub enum Item {
    User(u64),
    Exit(Pid, ExitReason),
    Down(Dest, Reference, ExitReason),
    NodeDown(Node, Reference),
}
impl std::convert::From<Message<u64>> for Item {
    fn from(m: Message<u64>) -> Item {
        match m {
            Message::User(u) => Item::User(u),
            Message::System(SystemMessage::Exit(p, r)) => Item::Exit(p, r),
            Message::System(SystemMessage::ProcessDown(d, r, e)) => Item::Down(d, r, e),
            Message::System(SystemMessage::NodeDown(n, r)) => Item::NodeDown(n, r),
        }
    }
}
pub async fn settle() {
    for _ in 0..40 {
        tokio::task::yield_now().await;
    }
}
/// Waits until c() holds, at most `ms` milliseconds.
pub async fn wait_for(ms: u64, mut c: impl FnMut() -> bool) -> bool {
    let end = std::time::Instant::now() + Duration::from_millis(ms);
    loop {
        if c() {
            return true;
        }
        if std::time::Instant::now() > end {
            return false;
        }
        tokio::time::sleep(Duration::from_millis(1)).await;
    }
}
