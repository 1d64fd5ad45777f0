PRELUDE = r'''#![allow(unused)]
use futures_util::FutureExt;
use hydra::*;
use std::sync::atomic::{AtomicU64, AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub fn one<F: std::future::Future<Output = T>, T>(f: F) -> T {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    rt.block_on(f)
}
pub async fn settle() {
    for _ in 0..40 {
        tokio::task::yield_now().await;
    }
}
pub async fn sleep(ms: u64) {
    tokio::time::sleep(Duration::from_millis(ms)).await
}
macro_rules! check {
    ($c:expr, $($a:tt)*) => { if !$c { println!($($a)*); std::process::exit(1); } };
}
'''
SEEDS = {}
def seed(id, property, needs, breaks, edits, demo):
    SEEDS[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits, demo=demo)

seed("exit-self-trapping", "C01",
     "a process that traps exits and sends itself an exit signal with a custom reason",
     "a trapping process that exits itself with a custom reason receives the signal as a message and stays alive",
     [("process_registry.rs", "if pid == from || !trapping_exits {", "if !trapping_exits {")],
     r'''
fn main() {
    one(async {
        let done = Arc::new(Mutex::new(None));
        let pid = Process::spawn(async {
            Process::set_flags(ProcessFlags::TRAP_EXIT);
            Process::exit(Process::current(), "enough");
            Process::receiver().for_message::<u64>().receive().await;
            std::future::pending::<()>().await;
        });
        let d = done.clone();
        Process::spawn(async move {
            Process::monitor(pid);
            if let Message::System(SystemMessage::ProcessDown(_, _, r)) = Process::receiver().for_message::<u64>().receive().await {
                *d.lock().unwrap() = Some(r);
            }
        });
        settle().await;
        sleep(50).await;
        check!(!Process::alive(pid), "the process survived its own exit signal");
    });
}
''')
seed("register-two-names", "C06",
     "register a live process that already has a name under a second free name, then let it end",
     "a process may hold two names, the first of which keeps existing after the process has ended",
     [("process_registry.rs", "if process.name.is_none() {", "if process.exit_reason.is_none() {")],
     r'''
fn main() {
    one(async {
        let pid = Process::spawn(async { std::future::pending::<()>().await });
        Process::register(pid, "first").unwrap();
        let second = Process::register(pid, "second").is_ok();
        check!(!second, "a second name was accepted");
        check!(Process::whereis("second").is_none(), "second name exists");
        let who = Process::spawn(async move { Process::exit(pid, ExitReason::Kill); });
        settle().await;
        check!(Process::registered().is_empty(), "names left behind: {:?}", Process::registered());
    });
}
''')
seed("unregister-keeps-record", "C06",
     "unregister a name, register another process under it, then end the first process",
     "an unregistered process still believes it holds its old name: it can not be registered again and its end frees a name that meanwhile belongs to another process",
     [("process_registry.rs", "    PROCESS_REGISTRY.alter(&pid, |_, mut process| {\n        process.name = None;\n        process\n    });", "    PROCESS_REGISTRY.alter(&pid, |_, mut process| {\n        if process.exit_reason.is_some() {\n            process.name = None;\n        }\n        process\n    });")],
     r'''
fn main() {
    one(async {
        let a = Process::spawn(async { std::future::pending::<()>().await });
        let b = Process::spawn(async { std::future::pending::<()>().await });
        Process::register(a, "name").unwrap();
        Process::unregister("name");
        Process::register(b, "name").unwrap();
        Process::spawn(async move { Process::exit(a, ExitReason::Kill); });
        settle().await;
        check!(Process::whereis("name") == Some(b), "the name of b was removed when a ended");
    });
}
''')
seed("exit-ignore-reason", "C01",
     "an exit signal with reason ignore from another process to a process that does not trap exits",
     "an ignore signal from another process terminates a process that does not trap exits",
     [("process_registry.rs", "            ExitReason::Normal | ExitReason::Ignore => {\n                if pid == from {", "            ExitReason::Normal | ExitReason::Ignore => {\n                if pid == from || (!trapping_exits && exit_reason.is_ignore()) {")],
     r'''
fn main() {
    one(async {
        let a = Process::spawn(async { std::future::pending::<()>().await });
        Process::spawn(async move { Process::exit(a, ExitReason::Ignore); });
        settle().await;
        check!(Process::alive(a), "ignored signal terminated the process");
    });
}
''')
seed("one-down-per-watcher", "C04",
     "one process monitors the same target twice before the target ends",
     "a process that holds several monitors of one target receives a single DOWN message",
     [("monitor.rs", "    for (reference, (pid, dest)) in references {\n        if pid.is_local() {\n            process_sender(pid).map(|sender| {",
       "    let mut notified: Vec<Pid> = Vec::new();\n\n    for (reference, (pid, dest)) in references {\n        if pid.is_local() {\n            if notified.contains(&pid) {\n                continue;\n            }\n\n            notified.push(pid);\n\n            process_sender(pid).map(|sender| {")],
     r'''
fn main() {
    one(async {
        let a = Process::spawn(async { std::future::pending::<()>().await });
        let seen = Arc::new(AtomicU64::new(0));
        let s = seen.clone();
        Process::spawn(async move {
            Process::monitor(a);
            Process::monitor(a);
            Process::exit(a, ExitReason::Kill);
            loop {
                if let Message::System(SystemMessage::ProcessDown(..)) = Process::receiver().for_message::<u64>().receive().await {
                    s.fetch_add(1, Ordering::SeqCst);
                }
            }
        });
        settle().await;
        sleep(100).await;
        check!(seen.load(Ordering::SeqCst) == 2, "{} DOWN messages for two monitors", seen.load(Ordering::SeqCst));
    });
}
''')
seed("remove-drops-other-types", "C09",
     "ProcessReceiver::remove for one message type while a message of another type has arrived that no receive has looked at yet",
     "remove discards messages of other types that are still in the channel",
     [("process_receiver.rs", "                Ok(None) => continue,\n                Err(_) => {\n                    if self.ignore_type {\n                        PROCESS.with(|process| process.items.borrow_mut().push(item));\n                        continue;",
       "                Ok(None) => continue,\n                Err(_) => {\n                    if self.ignore_type {\n                        continue;")],
     r'''
fn main() {
    one(async {
        let got = Arc::new(Mutex::new(None));
        let g = got.clone();
        Process::spawn(async move {
            Process::send(Process::current(), 1u64);
            Process::send(Process::current(), "text".to_string());
            Process::receiver().for_message::<u64>().remove(|_| true);
            let r = Process::timeout(Duration::from_millis(300), Process::receiver().for_message::<String>().receive()).await;
            *g.lock().unwrap() = Some(matches!(r, Ok(Message::User(ref s)) if s == "text"));
        });
        settle().await;
        sleep(500).await;
        check!(*got.lock().unwrap() == Some(true), "the text was lost");
    });
}
''')
seed("call-takes-foreign-down", "C10",
     "the caller itself monitors the server, and the server ends while a call is under way",
     "a call consumes the DOWN message of a monitor the caller holds on the server, and leaves its own in the mailbox",
     [("gen_server.rs", "            Process::send(server, GenServerMessage::Call(from, message));", "            Process::send(server.clone(), GenServerMessage::Call(from, message));"),
      ("gen_server.rs", "                        Message::System(SystemMessage::ProcessDown(_, tag, _)) => {\n                            // Make sure the tag matches the monitor.\n                            *tag == monitor",
       "                        Message::System(SystemMessage::ProcessDown(dest, tag, _)) => {\n                            // Make sure the tag matches the monitor.\n                            *tag == monitor || *dest == server")],
     r'''
#[derive(serde::Serialize, serde::Deserialize)]
enum M { Die }
struct S;
impl GenServer for S {
    type Message = M;
    async fn init(&mut self) -> Result<(), ExitReason> { Ok(()) }
    async fn handle_call(&mut self, _: M, _: From) -> Result<Option<M>, ExitReason> { Err(ExitReason::from("gone")) }
}
fn main() {
    one(async {
        let got = Arc::new(Mutex::new(None));
        let g = got.clone();
        Process::spawn(async move {
            let s = S.start(GenServerOptions::new()).await.unwrap();
            let own = Process::monitor(s);
            let r = S::call(s, M::Die, None).await;
            let down = matches!(r, Err(CallError::ServerDown(_)));
            let r = Process::timeout(Duration::from_millis(300), Process::receiver().for_message::<u64>().receive()).await;
            let mine = matches!(r, Ok(Message::System(SystemMessage::ProcessDown(_, tag, _))) if tag == own);
            *g.lock().unwrap() = Some((down, mine));
        });
        settle().await;
        sleep(600).await;
        check!(*got.lock().unwrap() == Some((true, true)), "{:?}", got.lock().unwrap());
    });
}
''')
SUP = r'''
type Log = Arc<Mutex<Vec<(String, Pid)>>>;
/// a child that records its starts and ends with `reason` when told to
fn child(id: &'static str, log: Log, fail: Arc<AtomicU64>) -> ChildSpec {
    ChildSpec::new(id).start(move || {
        let log = log.clone();
        let fail = fail.clone();
        async move {
            if fail.fetch_update(Ordering::SeqCst, Ordering::SeqCst, |x| x.checked_sub(1)).is_ok() {
                return Err(ExitReason::from("not yet"));
            }
            let pid = Process::spawn_link(async {
                loop {
                    if let Message::User(reason) = Process::receiver().for_message::<String>().receive().await {
                        let reason = if reason == "ignore" { ExitReason::Ignore } else { ExitReason::from(reason) };
                        Process::exit(Process::current(), reason);
                        std::future::pending::<()>().await;
                    }
                }
            });
            log.lock().unwrap().push((id.to_string(), pid));
            Ok(pid)
        }
    })
}
fn zero() -> Arc<AtomicU64> { Arc::new(AtomicU64::new(0)) }
'''
seed("transient-ignore", "C12",
     "a transient child that ends with the reason ignore",
     "a transient child that ends abnormally with the reason ignore is forgotten instead of restarted",
     [("supervisor.rs", "        if reason.is_normal() || reason == \"shutdown\" {", "        if reason.is_normal() || reason.is_ignore() || reason == \"shutdown\" {")],
     SUP + r'''
fn main() {
    one(async {
        let log: Log = Default::default();
        let l = log.clone();
        Process::spawn(async move {
            let _ = Supervisor::with_children([child("a", l.clone(), zero()).restart(Restart::Transient)]).start_link(SupervisorOptions::new()).await;
            std::future::pending::<()>().await;
        });
        settle().await;
        let first = log.lock().unwrap()[0].1;
        Process::send(first, "ignore".to_string());
        settle().await;
        sleep(100).await;
        check!(!Process::alive(first), "child did not end");
        check!(log.lock().unwrap().len() == 2, "started {} times", log.lock().unwrap().len());
    });
}
''')
seed("no-restarts-allowed", "C13",
     "a supervisor with max_restarts 0 whose permanent child ends",
     "a supervisor that is not allowed any restart makes one",
     [("supervisor.rs", "        if self.restarts.len() > self.max_restarts {", "        if self.restarts.len() > self.max_restarts.max(1) {")],
     SUP + r'''
fn main() {
    one(async {
        let log: Log = Default::default();
        let l = log.clone();
        let down = Arc::new(AtomicBool::new(false));
        let d = down.clone();
        Process::spawn(async move {
            let s = Supervisor::with_children([child("a", l.clone(), zero())]).max_restarts(0).start(SupervisorOptions::new()).await.unwrap();
            Process::monitor(s);
            if let Message::System(SystemMessage::ProcessDown(..)) = Process::receiver().for_message::<u64>().receive().await {
                d.store(true, Ordering::SeqCst);
            }
        });
        settle().await;
        let first = log.lock().unwrap()[0].1;
        Process::send(first, "boom".to_string());
        settle().await;
        sleep(100).await;
        check!(down.load(Ordering::SeqCst), "the supervisor did not give up");
        check!(log.lock().unwrap().len() == 1, "restarted");
    });
}
''')
seed("retry-wrong-child", "C14",
     "rest_for_one: a child ends and the restart of a later sibling fails once",
     "the child that ended is marked restarting and restarted again instead of the sibling whose start failed",
     [("supervisor.rs", "                if let Some((index, reason)) = self.restart_multiple_children(index, false).await {", "                if let Some((_, reason)) = self.restart_multiple_children(index, false).await {")],
     SUP + r'''
fn main() {
    one(async {
        let log: Log = Default::default();
        let l = log.clone();
        let fail = zero();
        let f = fail.clone();
        Process::spawn(async move {
            let _ = Supervisor::with_children([child("a", l.clone(), zero()), child("b", l.clone(), f)])
                .strategy(SupervisionStrategy::RestForOne)
                .max_restarts(10)
                .start_link(SupervisorOptions::new())
                .await;
            std::future::pending::<()>().await;
        });
        settle().await;
        fail.store(1, Ordering::SeqCst);
        let first = log.lock().unwrap()[0].1;
        Process::send(first, "boom".to_string());
        settle().await;
        sleep(200).await;
        let names: Vec<String> = log.lock().unwrap().iter().map(|x| x.0.clone()).collect();
        check!(names == ["a", "b", "a", "b"], "starts: {names:?}");
    });
}
''')
seed("supervisor-default-shutdown", "C16",
     "a child of type supervisor without a shutdown setting that takes longer than five seconds to stop",
     "a child supervisor is killed after five seconds instead of being waited for",
     [("supervisor.rs", "                ChildType::Supervisor => Shutdown::Infinity,", "                ChildType::Supervisor => Shutdown::Duration(Duration::from_secs(5)),")],
     r'''
fn main() {
    one(async {
        let done = Arc::new(AtomicBool::new(false));
        let d = done.clone();
        let sup = Arc::new(Mutex::new(None));
        let s2 = sup.clone();
        Process::spawn(async move {
            let spec = ChildSpec::new("slow").child_type(ChildType::Supervisor).start(move || {
                let d = d.clone();
                async move {
                    Ok(Process::spawn_link(async move {
                        Process::set_flags(ProcessFlags::TRAP_EXIT);
                        Process::receiver().for_message::<u64>().receive().await;
                        sleep(6000).await;
                        d.store(true, Ordering::SeqCst);
                    }))
                }
            });
            let s = Supervisor::with_children([spec]).start(SupervisorOptions::new()).await.unwrap();
            *s2.lock().unwrap() = Some(s);
        });
        settle().await;
        let s = sup.lock().unwrap().unwrap();
        Process::spawn(async move { let _ = Supervisor::stop(s, ExitReason::from("shutdown"), Some(Duration::from_secs(20))).await; });
        sleep(7000).await;
        check!(done.load(Ordering::SeqCst), "the child was not given its time");
    });
}
''')
seed("stop-forgets-wrong-entry", "C17",
     "a process is removed from a registry, its key started again, and then the removed process ends",
     "the end of a process that was removed from the registry takes the entry of its successor with it",
     [("registry.rs", "        Process::unlink(process);\n\n        self.lookup.remove(&process);\n\n        Some(process)", "        Some(process)"),
      ("registry.rs", "            value.remove_if(&key, |_, value| *value == pid);", "            value.remove(&key);")],
     r'''
fn main() {
    one(async {
        let ok = Arc::new(Mutex::new(None));
        let o = ok.clone();
        Process::spawn(async move {
            let reg = Registry::new("reg")
                .with_start(|_key| async { Ok(Process::spawn_link(async { std::future::pending::<()>().await })) })
                .start(RegistryOptions::new())
                .await
                .unwrap();
            let p = Registry::start_process(reg, 1i32, None).await.unwrap();
            check!(Registry::remove(reg, 1i32, None).await.unwrap() == Some(p), "remove");
            let q = Registry::start_process(reg, 1i32, None).await.unwrap();
            Process::exit(p, ExitReason::Kill);
            Process::sleep(Duration::from_millis(100)).await;
            let found = Registry::lookup(reg, 1i32, None).await.unwrap();
            *o.lock().unwrap() = Some((p != q, found == Some(q), Process::alive(q)));
        });
        sleep(500).await;
        check!(*ok.lock().unwrap() == Some((true, true, true)), "{:?}", ok.lock().unwrap());
    });
}
''')
seed("set-nodes-keeps-first", "C18",
     "set_nodes with a list in which one key occurs twice",
     "set_nodes keeps the first node given for a key while adding the nodes one by one keeps the last",
     [("hash_ring.rs", "Vec::with_capacity(nodes.size_hint().0);\n\n        for (key, node) in nodes {\n            let key = self.hash_key(key);\n\n            match new_ring.binary_search_by(|node| node.key.cmp(&key)) {\n                Ok(existing) => {\n                    let _ = std::mem::replace(&mut new_ring[existing], Node::new(key, node));\n                }",
       "Vec::with_capacity(nodes.size_hint().0);\n\n        for (key, node) in nodes {\n            let key = self.hash_key(key);\n\n            match new_ring.binary_search_by(|node| node.key.cmp(&key)) {\n                Ok(_) => {}")],
     r'''
fn main() {
    let ring: HashRing<u32> = HashRing::new();
    ring.set_nodes([("a", 1), ("a", 2)]);
    let other: HashRing<u32> = HashRing::new();
    other.add_node("a", 1);
    other.add_node("a", 2);
    check!(ring.find_node("x") == other.find_node("x"), "{:?} and {:?}", ring.find_node("x"), other.find_node("x"));
}
''')
seed("await-many-last-error", "C25",
     "await_many with two tasks that die",
     "await_many reports the last failing task instead of the first",
     [("task.rs", "        for task in tasks {\n            results.push(\n                task.handle\n                    .await\n                    .map_err(|error| TaskError(error.to_string()))?,\n            );\n        }\n\n        Ok(results)",
       "        let mut failed: Option<TaskError> = None;\n\n        for task in tasks {\n            match task.handle.await {\n                Ok(result) => results.push(result),\n                Err(error) => failed = Some(TaskError(error.to_string())),\n            }\n        }\n\n        match failed {\n            Some(error) => Err(error),\n            None => Ok(results),\n        }")],
     r'''
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    one(async {
        let a = Task::spawn(async { if true { panic!("first"); } 1u64 });
        let b = Task::spawn(async { if true { panic!("second"); } 2u64 });
        let r = Task::await_many([a, b]).await;
        check!(matches!(&r, Err(e) if e.0.contains("first")), "{r:?}");
    });
}
''')
seed("double-mention", "C07",
     "one send to a list that names the same local process twice, the first of its local destinations",
     "a destination mentioned twice receives one copy",
     [("process_kernel.rs", "                if dest.is_local() && first_local_process.is_none() {", "                if dest.is_local() && first_local_process.as_ref().map_or(true, |first| *first == dest) {")],
     r'''
fn main() {
    one(async {
        let n = Arc::new(AtomicU64::new(0));
        let m = n.clone();
        let a = Process::spawn(async move {
            loop {
                if let Message::User(_) = Process::receiver().for_message::<u64>().receive().await {
                    m.fetch_add(1, Ordering::SeqCst);
                }
            }
        });
        Process::spawn(async move { Process::send(vec![a, a], 7u64) });
        settle().await;
        sleep(100).await;
        check!(n.load(Ordering::SeqCst) == 2, "{} copies", n.load(Ordering::SeqCst));
    });
}
''')
seed("timer-reads-forever", "C24",
     "read_timer on a timer that was cancelled before",
     "a cancelled timer still reports a remaining time",
     [("process_registry.rs", "    if let Some((_, (_, handle))) = PROCESS_TIMERS.remove(&timer.id()) {\n        handle.abort();", "    if let Some(entry) = PROCESS_TIMERS.get(&timer.id()) {\n        entry.value().1.abort();")],
     r'''
fn main() {
    one(async {
        let t = Arc::new(Mutex::new(None));
        let u = t.clone();
        Process::spawn(async move {
            let timer = Process::send_after(Process::current(), 1u64, Duration::from_secs(60));
            let before = Process::read_timer(timer).is_some();
            Process::cancel_timer(timer);
            *u.lock().unwrap() = Some((before, Process::read_timer(timer)));
        });
        settle().await;
        check!(*t.lock().unwrap() == Some((true, None)), "{:?}", t.lock().unwrap());
    });
}
''')
seed("reference-same-name", "C23",
     "a reference of a node that has the same name as the local node at another address",
     "a reference of a namesake node is taken for a local one",
     [("reference.rs", "                    if name == node_name && address == node_address {", "                    if name == node_name || address == node_address {")],
     r'''
#[derive(serde::Serialize)]
enum ReferenceWire { WithNode(std::num::NonZeroU64, String, std::net::SocketAddr) }
fn main() {
    one(async {
        Process::spawn(async {
            Node::start("me", NodeOptions::new().listen_address("127.0.0.1:0".parse::<std::net::SocketAddr>().unwrap()).broadcast_address("127.0.0.1:7001".parse::<std::net::SocketAddr>().unwrap()));
            std::future::pending::<()>().await;
        });
        settle().await;
        let read = |name: &str, a: &str| {
            let bytes = rmp_serde::to_vec(&ReferenceWire::WithNode(5.try_into().unwrap(), name.into(), a.parse().unwrap())).unwrap();
            rmp_serde::from_slice::<Reference>(&bytes).unwrap()
        };
        check!(read("me", "127.0.0.1:7001").is_local(), "own reference is not local");
        check!(read("me", "127.0.0.1:7002").is_remote(), "reference of a namesake is local");
        check!(read("you", "127.0.0.1:7001").is_remote(), "reference of another node is local");
    });
}
''')
seed("hello-prefix", "C20",
     "a hello whose challenge is empty",
     "a peer that does not know the cookie is admitted when it sends no challenge at all",
     [("frame/hello.rs", "        wanted.as_slice() == challenge", "        wanted.as_slice().starts_with(&challenge)")],
     r'''
fn main() {
    Node::set_cookie("secret");
    let good = hydra::hydra_verif::Hello::new("a".into(), "127.0.0.1:7001".parse().unwrap());
    for n in 0..=good.challenge.len() {
        let mut h = hydra::hydra_verif::Hello::new("a".into(), "127.0.0.1:7001".parse().unwrap());
        h.challenge.truncate(n);
        check!(h.validate() == (n == good.challenge.len()), "a challenge of {n} bytes: {}", !(n == good.challenge.len()));
    }
}
''')
seed("decode-last-bytes", "C19",
     "a frame of which all but its last one to four bytes have arrived",
     "decoding panics when a read ends within the last four bytes of a frame",
     [("frame/mod.rs", "        if src.len() < MARKER_LENGTH + length {", "        if src.len() < MARKER_LENGTH.max(length) {")],
     r'''
use hydra::hydra_verif::*;
use tokio_util::codec::{Decoder, Encoder};
fn main() {
    let mut whole = bytes::BytesMut::new();
    Codec::new().encode(Exit::new(1u64.try_into().unwrap(), 2u64.try_into().unwrap(), ExitReason::from("why")).into(), &mut whole).unwrap();
    for n in 0..=whole.len() {
        let mut part = bytes::BytesMut::from(&whole[..n]);
        let r = Codec::new().decode(&mut part).unwrap();
        check!(r.is_some() == (n == whole.len()), "{n} of {} bytes", whole.len());
    }
}
''')
seed("start-failure-forgets-id", "C15",
     "start_child whose start fails, then start_child again under the same id",
     "a child whose first start failed stays in the table, but a second one with its id can be added",
     [("supervisor.rs", "            Err(reason) => Err(SupervisorError::StartError(reason)),\n        }\n    }\n\n    /// Checks whether", "            Err(reason) => {\n                let id = self.children[self.children.len() - 1].id();\n\n                self.identifiers.remove(&id);\n\n                Err(SupervisorError::StartError(reason))\n            }\n        }\n    }\n\n    /// Checks whether")],
     r'''
fn main() {
    one(async {
        let bad = Arc::new(AtomicBool::new(true));
        let out = Arc::new(Mutex::new(None));
        let (b, o) = (bad.clone(), out.clone());
        Process::spawn(async move {
            let s = Supervisor::new().start_link(SupervisorOptions::new()).await.unwrap();
            let spec = || {
                let b = b.clone();
                ChildSpec::new("a").start(move || {
                    let b = b.clone();
                    async move {
                        if b.load(Ordering::SeqCst) { return Err(ExitReason::from("no")) }
                        Ok(Process::spawn_link(std::future::pending::<()>()))
                    }
                })
            };
            let first = Supervisor::start_child(s, spec()).await;
            b.store(false, Ordering::SeqCst);
            let second = Supervisor::start_child(s, spec()).await;
            let n = Supervisor::which_children(s).await.unwrap().len();
            *o.lock().unwrap() = Some((first.is_err(), matches!(second, Err(SupervisorError::AlreadyPresent)), n));
        });
        settle().await;
        sleep(100).await;
        check!(*out.lock().unwrap() == Some((true, true, 1)), "{:?}", out.lock().unwrap());
    });
}
''')
seed("server-stops-for-a-linked-kill", "C11",
     "a server that traps exits and is linked to a process, not its parent, which is killed",
     "the server stops instead of handling the exit message of a process that is not its parent",
     [("gen_server.rs", "                    SystemMessage::Exit(epid, reason) if epid == parent => {", "                    SystemMessage::Exit(epid, reason) if epid == parent || reason.is_kill() => {")],
     r'''
struct S(Arc<AtomicU64>);
impl GenServer for S {
    type Message = u64;
    async fn init(&mut self) -> Result<(), ExitReason> {
        Process::set_flags(ProcessFlags::TRAP_EXIT);
        let p = Process::spawn_link(std::future::pending::<()>());
        Process::exit(p, ExitReason::Kill);
        Ok(())
    }
    async fn handle_info(&mut self, m: Message<u64>) -> Result<(), ExitReason> {
        if let Message::System(SystemMessage::Exit(_, _)) = m {
            self.0.fetch_add(1, Ordering::SeqCst);
        }
        Ok(())
    }
}
fn main() {
    one(async {
        let n = Arc::new(AtomicU64::new(0));
        let (n2, alive) = (n.clone(), Arc::new(AtomicBool::new(false)));
        let a = alive.clone();
        Process::spawn(async move {
            let s = S(n2).start_link(GenServerOptions::new()).await.unwrap();
            sleep(50).await;
            a.store(Process::alive(s), Ordering::SeqCst);
        });
        settle().await;
        sleep(150).await;
        check!(n.load(Ordering::SeqCst) == 1 && alive.load(Ordering::SeqCst), "exits handled: {:?}, server alive: {:?}", n, alive);
    });
}
''')
seed("dead-partner-stays-linked", "C02",
     "a trapping process that survives the end of a linked process",
     "the survivor stays linked to a process that has ended",
     [("link.rs", "        if pid.is_local() {\n            LINKS.alter(&pid.id(), |_, mut value| {\n                value.remove(&from);\n                value\n            });\n\n            process_exit_signal_linked(pid", "        if pid.is_local() {\n            process_exit_signal_linked(pid")],
     r'''
fn main() {
    one(async {
        let keeper = Process::spawn(async {
            Process::set_flags(ProcessFlags::TRAP_EXIT);
            Process::spawn_link(async {});
            std::future::pending::<()>().await;
        });
        settle().await;
        sleep(30).await;
        let info = Process::info(keeper).unwrap();
        check!(info.links.is_empty(), "still linked to {:?}", info.links);
    });
}
''')
WS = r'''
use hydra_websockets::*;
use futures_util::{SinkExt, StreamExt};
use tokio_tungstenite::tungstenite::protocol::CloseFrame;
static LOG: Mutex<Vec<String>> = Mutex::new(Vec::new());
fn log(s: String) { LOG.lock().unwrap().push(s) }
struct H;
impl WebsocketHandler for H {
    type Message = u64;
    fn accept(_: std::net::SocketAddr, _: &WebsocketRequest, response: WebsocketResponse) -> Result<(WebsocketResponse, Self), ExitReason> { Ok((response, H)) }
    async fn websocket_handle(&mut self, message: WebsocketMessage) -> Result<Option<WebsocketCommands>, ExitReason> {
        log(format!("handle {message:?}"));
        if message == WebsocketMessage::Text("end".into()) {
            let mut c = WebsocketCommands::with_send(WebsocketMessage::Text("before".into()));
            c.close(CloseCode::from(4000), "over");
            c.send(WebsocketMessage::Text("after".into()));
            return Ok(Some(c));
        }
        Ok(None)
    }
    async fn websocket_info(&mut self, _: Message<u64>) -> Result<Option<WebsocketCommands>, ExitReason> { Ok(None) }
    async fn terminate(&mut self, reason: ExitReason) { log(format!("terminate {reason:?}")) }
}
async fn dial() -> tokio_tungstenite::WebSocketStream<tokio::net::TcpStream> {
    let addr = std::net::TcpListener::bind("127.0.0.1:0").and_then(|l| l.local_addr()).unwrap();
    Process::spawn(async move {
        WebsocketServer::<H>::new(WebsocketServerConfig::new(addr)).start_link(GenServerOptions::new()).await.unwrap();
        std::future::pending::<()>().await;
    });
    sleep(100).await;
    let tcp = tokio::net::TcpStream::connect(addr).await.unwrap();
    tokio_tungstenite::client_async(format!("ws://{addr}/"), tcp).await.unwrap().0
}
'''
seed("ws-sends-after-close", "C30",
     "a callback that returns a message after a close command",
     "a message after the close command is still sent to the client",
     [("../../hydra-websockets/src/websocket_handler.rs", "        if close_command.is_some() {\n            return None;", "        if close_command.is_some() && matches!(command, WebsocketCommand::Close(_, _)) {\n            return None;")],
     WS + r'''
fn main() {
    one(async {
        let mut c = dial().await;
        c.send(WebsocketMessage::Text("end".into())).await.unwrap();
        let mut got = vec![];
        while let Ok(Some(Ok(m))) = tokio::time::timeout(Duration::from_secs(5), c.next()).await {
            got.push(m);
        }
        check!(got.len() == 2 && got[0] == WebsocketMessage::Text("before".into()) && got[1].is_close(), "{got:?}");
    });
}
''')
seed("ws-bare-close", "C30",
     "a client that closes the connection without giving a code",
     "the handler of a client that closes without a code is never terminated",
     [("../../hydra-websockets/src/websocket_handler.rs", "                            WebsocketMessage::Close(_) => {", "                            WebsocketMessage::Close(Some(_)) => {")],
     WS + r'''
fn main() {
    one(async {
        for frame in [None, Some(CloseFrame { code: CloseCode::Normal, reason: "done".into() })] {
            let mut c = dial().await;
            LOG.lock().unwrap().clear();
            c.close(frame).await.unwrap();
            while let Ok(Some(Ok(_))) = tokio::time::timeout(Duration::from_secs(5), c.next()).await {}
            drop(c);
            sleep(100).await;
            let ends = LOG.lock().unwrap().iter().filter(|e| e.starts_with("terminate")).count();
            check!(ends == 1, "{:?}", LOG.lock().unwrap());
        }
    });
}
''')
seed("app-late-kill-ignored", "C31",
     "a main process that traps exits and ignores the graceful shutdown request until its timeout is over",
     "Application::run never returns after a SIGTERM when the main process ignores the request to shut down",
     [("application.rs", "Process::exit(pid, ExitReason::Kill);", "Process::exit(pid, ExitReason::from(\"killed\"));")],
     r'''
struct Stubborn;
impl Application for Stubborn {
    fn config() -> ApplicationConfig {
        ApplicationConfig::default().with_graceful_shutdown_timeout(Duration::from_millis(300))
    }
    async fn start(&self) -> Result<Pid, ExitReason> {
        Ok(Process::spawn_link(async {
            Process::set_flags(ProcessFlags::TRAP_EXIT);
            loop {
                Process::receive::<u64>().await;
            }
        }))
    }
}
fn main() {
    std::thread::spawn(|| {
        std::thread::sleep(Duration::from_millis(700));
        let _ = std::process::Command::new("kill").args(["-TERM", &std::process::id().to_string()]).status();
        std::thread::sleep(Duration::from_secs(10));
        println!("the application is still running");
        std::process::exit(1);
    });
    Stubborn.run();
    std::process::exit(0);
}
''')
seed("info-watchers-once", "C32",
     "one process that monitors another twice",
     "info reports a process that holds two monitors on the process only once",
     [("monitor.rs", "info.monitored_by = monitors.value().values().map(|entry| entry.0).collect();", "let mut watchers: Vec<Pid> = monitors.value().values().map(|entry| entry.0).collect();\n\n    watchers.dedup();\n\n    info.monitored_by = watchers;")],
     r'''
fn main() {
    one(async {
        let target = Process::spawn(async { std::future::pending::<()>().await });
        Process::spawn(async move {
            let a = Process::monitor(target);
            let b = Process::monitor(target);
            let info = Process::info(target).unwrap();
            check!(info.monitored_by == vec![Process::current(), Process::current()], "two monitors are reported as {:?}", info.monitored_by);
            Process::demonitor(a);
            let info = Process::info(target).unwrap();
            check!(info.monitored_by == vec![Process::current()], "one monitor is reported as {:?}", info.monitored_by);
            std::process::exit(0);
        });
        sleep(3000).await;
        std::process::exit(1);
    });
}
''')
seed("slice-mentions-once", "C07",
     "a send to a slice of pids that names the same process twice in a row",
     "a destination listed twice in a row in a slice of pids receives the message once",
     [("dest.rs", "        if value.len() == 1 {\n            Self::Dest(Dest::from(value[0]))\n        } else {\n            Self::Dests(value.iter().copied().map(Into::into).collect())\n        }",
       "        let mut dests: Vec<Dest> = value.iter().copied().map(Into::into).collect();\n\n        dests.dedup();\n\n        if dests.len() == 1 {\n            Self::Dest(dests.remove(0))\n        } else {\n            Self::Dests(dests)\n        }")],
     r'''
fn main() {
    one(async {
        let got = Arc::new(AtomicU64::new(0));
        let g = got.clone();
        let p = Process::spawn(async move {
            loop {
                if let Message::User(n) = Process::receive::<u64>().await {
                    g.fetch_add(n, Ordering::SeqCst);
                }
            }
        });
        let q = Process::spawn(async { std::future::pending::<()>().await });
        Process::send(&[p, q, p][..], 1u64);
        settle().await;
        check!(got.load(Ordering::SeqCst) == 2, "{} copies", got.load(Ordering::SeqCst));
        Process::send(&[p, p][..], 10u64);
        settle().await;
        check!(got.load(Ordering::SeqCst) == 22, "{} after a second send", got.load(Ordering::SeqCst));
    });
}
''')
seed("down-lost-when-skipped", "C04",
     "a selective receive that looks at the DOWN message and leaves it, followed by a receive that takes it",
     "a DOWN message that a selective receive has skipped is never received",
     [("process_receiver.rs", "        ProcessItem::SystemMessage(system) => Ok(Some(Message::System(system.clone()))),\n        ProcessItem::MonitorProcessDown(dest, reference, exit_reason) => {", "        ProcessItem::SystemMessage(SystemMessage::ProcessDown(_, reference, _))\n            if PROCESS.with(|process| !process.monitors.borrow().contains_key(reference)) =>\n        {\n            // The monitor has been removed since, discard the message.\n            Ok(None)\n        }\n        ProcessItem::SystemMessage(system) => Ok(Some(Message::System(system.clone()))),\n        ProcessItem::MonitorProcessDown(dest, reference, exit_reason) => {")],
     r'''
fn main() {
    one(async {
        Process::spawn(async {
            let target = Process::spawn(async {});
            let monitor = Process::monitor(target);
            settle().await;
            Process::send(Process::current(), 7u64);
            // takes the number and looks at the DOWN before it
            let got = Process::receiver().for_message::<u64>().select(|m| matches!(m, Message::User(_))).await;
            check!(matches!(got, Message::User(7)), "the number was lost");
            let down = Process::receiver().for_message::<u64>().receive().await;
            check!(matches!(down, Message::System(SystemMessage::ProcessDown(_, r, _)) if r == monitor), "another message came first");
            std::process::exit(0);
        });
        sleep(3000).await;
        println!("the DOWN message never came");
        std::process::exit(1);
    });
}
''')
seed("frame-empties-early", "C22",
     "a frame of another node that names at least two targets",
     "the last but one target of a received frame takes the message, the last one receives an empty one",
     [("node_kernel.rs", "    let is_single_target = send.targets.len() == 1;\n\n    for target in send.targets {\n        let message = if is_single_target {", "    let mut remaining = send.targets.len();\n\n    for target in send.targets {\n        remaining -= 1;\n\n        let message = if remaining <= 1 {")],
     r'''
const PORT: u16 = 24817;
fn other(port: u16) -> Node {
    Node::from(("other", std::net::SocketAddr::from(([127, 0, 0, 1], port))))
}
fn child(port: u16) {
    one(async move {
        let a = std::net::SocketAddr::from(([127, 0, 0, 1], port));
        Node::set_cookie("demo");
        Node::start("other", NodeOptions::new().listen_address(a).broadcast_address(a));
        let got = Arc::new(AtomicU64::new(0));
        for (name, n) in [("first", 1u64), ("second", 100)] {
            let g = got.clone();
            let p = Process::spawn(async move {
                loop {
                    match Process::receive::<u64>().await {
                        Message::User(5) => { g.fetch_add(n, Ordering::SeqCst); }
                        _ => {}
                    }
                }
            });
            Process::register(p, name).unwrap();
        }
        println!("ready");
        for _ in 0..60 {
            sleep(100).await;
            if got.load(Ordering::SeqCst) == 101 {
                std::process::exit(0);
            }
        }
        eprintln!("received {}", got.load(Ordering::SeqCst));
        std::process::exit(9);
    });
}
fn main() {
    if let Some(p) = std::env::args().nth(1) {
        return child(p.parse().unwrap());
    }
    let port = std::net::TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port();
    let mut c = std::process::Command::new(std::env::current_exe().unwrap()).arg(port.to_string()).stdout(std::process::Stdio::piped()).spawn().unwrap();
    let mut line = String::new();
    std::io::BufRead::read_line(&mut std::io::BufReader::new(c.stdout.take().unwrap()), &mut line).unwrap();
    one(async move {
        let mine = std::net::TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap();
        Node::set_cookie("demo");
        Node::start("me", NodeOptions::new().listen_address(mine).broadcast_address(mine));
        Process::spawn(async move {
            Node::connect(("other".to_string(), other(port).address().unwrap()));
            sleep(500).await;
            Process::send(vec![Dest::from(("first", other(port).name().map(|n| (n.to_string(), other(port).address().unwrap())).unwrap())), Dest::from(("second", ("other".to_string(), other(port).address().unwrap())))], 5u64);
        });
        for _ in 0..80 {
            sleep(100).await;
            if let Some(s) = c.try_wait().unwrap() {
                check!(s.code() == Some(0), "the targets did not each receive the message: {:?}", s.code());
                std::process::exit(0);
            }
        }
        let _ = c.kill();
        println!("no answer");
        std::process::exit(1);
    });
}
''')
REMOTE = r'''
#[derive(serde::Serialize)]
enum Wire {
    #[allow(dead_code)]
    WithNode(std::num::NonZeroU64, String, std::net::SocketAddr),
}
fn foreign(id: u64, name: &str, port: u16) -> Pid {
    let wire = Wire::WithNode(std::num::NonZeroU64::new(id).unwrap(), name.to_string(), std::net::SocketAddr::from(([127, 0, 0, 1], port)));
    rmp_serde::from_slice(&rmp_serde::to_vec(&wire).unwrap()).unwrap()
}
fn start() {
    let mine = std::net::TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap();
    Node::start("me", NodeOptions::new().listen_address(mine).broadcast_address(mine));
}
'''
seed("unlink-takes-namesake", "C03",
     "a process linked to a local and a foreign process that have the same id number, then the local one unlinks",
     "unlinking a local process also drops the record of the link to the process of another node with the same number",
     [("link.rs", "    if process.is_local() {\n        LINKS.alter(&process.id(), |_, mut value| {\n            value.remove(&from);\n            value\n        });\n    } else {",
       "    if process.is_local() {\n        LINKS.alter(&process.id(), |_, mut value| {\n            value.retain(|pid| pid.id() != from.id());\n            value\n        });\n    } else {")],
     REMOTE + r'''
fn main() {
    one(async {
        start();
        let silent = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
        let (tx, rx) = tokio::sync::oneshot::channel::<Pid>();
        let partner = Process::spawn(async move {
            let other = rx.await.unwrap();
            Process::link(other);
            Process::receiver().for_message::<u64>().receive().await;
            Process::unlink(other);
            std::future::pending::<()>().await
        });
        let n: u64 = format!("{:?}", partner).chars().rev().skip(1).take_while(|c| c.is_ascii_digit()).collect::<String>().chars().rev().collect::<String>().parse().unwrap();
        let far = foreign(n, "far", silent.local_addr().unwrap().port());
        let p = Process::spawn(async move {
            Process::set_flags(ProcessFlags::TRAP_EXIT);
            Process::link(far);
            std::future::pending::<()>().await
        });
        settle().await;
        let _ = tx.send(p);
        settle().await;
        let mut before = Process::info(p).unwrap().links;
        before.sort();
        let mut both = vec![partner, far];
        both.sort();
        check!(before == both, "links {:?}", before);
        Process::send(partner, 1u64);
        settle().await;
        let after = Process::info(p).unwrap().links;
        check!(after == vec![far], "after the partner unlinked, the links are {:?}", after);
    });
}
''')
seed("demonitor-leaves-named", "C05",
     "a monitor installed by name on a process of the local node, then demonitored",
     "the target of a monitor by name still holds the monitor after demonitor",
     [("monitor.rs", "                        .insert(reference, ProcessMonitor::ForProcess(Some(pid)))\n                });\n\n                process_exists_lock(pid, |exists| {",
       "                        .insert(reference, ProcessMonitor::ForProcess(None))\n                });\n\n                process_exists_lock(pid, |exists| {")],
     r'''
fn main() {
    one(async {
        let p = Process::spawn(async { std::future::pending::<()>().await });
        Process::register(p, "target").unwrap();
        let done = Arc::new(AtomicBool::new(false));
        let d = done.clone();
        Process::spawn(async move {
            let a = Process::monitor(p);
            let b = Process::monitor("target");
            Process::demonitor(a);
            Process::demonitor(b);
            d.store(true, Ordering::SeqCst);
            std::future::pending::<()>().await
        });
        settle().await;
        check!(done.load(Ordering::SeqCst), "the watcher did not get through");
        let by = Process::info(p).unwrap().monitored_by;
        check!(by.is_empty(), "still monitored by {:?}", by);
    });
}
''')
seed("noproc-monitor-keeps-alias", "C08",
     "monitor_alias of a process that is already gone, then a send to the alias after the DOWN message",
     "the alias of a monitor whose target was already gone stays active after its DOWN message",
     [("monitor.rs", "                ))\n                .unwrap()\n        });\n\n        alias_destroy(reference);\n    };", "                ))\n                .unwrap()\n        });\n    };")],
     r'''
fn main() {
    one(async {
        let gone = Process::spawn(async {});
        settle().await;
        let done = Arc::new(AtomicBool::new(false));
        let d = done.clone();
        Process::spawn(async move {
            let alias = Process::monitor_alias(gone, false);
            let m = Process::receiver().for_message::<u64>().receive().await;
            check!(matches!(m, Message::System(SystemMessage::ProcessDown(_, r, _)) if r == alias), "no DOWN message");
            Process::send(alias, 5u64);
            Process::send(Process::current(), 6u64);
            let m = Process::receiver().for_message::<u64>().receive().await;
            check!(matches!(m, Message::User(6)), "the alias still delivers");
            check!(!Process::unalias(alias), "the alias is still active");
            d.store(true, Ordering::SeqCst);
        });
        settle().await;
        sleep(100).await;
        check!(done.load(Ordering::SeqCst), "the watcher did not get through");
    });
}
''')
seed("unlink-takes-others-of-the-node", "C21",
     "two local processes linked to the same foreign process, one unlinks, then the node is disconnected",
     "the process that stayed linked is not told that the node was lost",
     [("node_registry.rs", "pub fn node_process_link_destroy(node: Node, link: Pid, from: Pid) {\n    NODE_LINKS.alter(&node, |_, mut value| {\n        value.remove(&(link, from.id()));",
       "pub fn node_process_link_destroy(node: Node, link: Pid, from: Pid) {\n    NODE_LINKS.alter(&node, |_, mut value| {\n        value.retain(|(process, linked)| *process != link || *linked > from.id());")],
     REMOTE + r'''
fn main() {
    one(async {
        start();
        let silent = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
        let address = silent.local_addr().unwrap();
        let far = foreign(77, "far", address.port());
        let told = Arc::new(AtomicU64::new(0));
        let t = told.clone();
        Process::spawn(async move {
            Process::set_flags(ProcessFlags::TRAP_EXIT);
            Process::link(far);
            if let Message::System(SystemMessage::Exit(from, reason)) = Process::receiver().for_message::<u64>().receive().await {
                check!(from == far && reason == "noconnection", "wrong signal {:?} {:?}", from, reason);
                t.fetch_add(1, Ordering::SeqCst);
            }
        });
        let p = Process::spawn(async move {
            Process::link(far);
            Process::unlink(far);
            std::future::pending::<()>().await
        });
        for _ in 0..4 { tokio::task::yield_now().await; }
        check!(Process::alive(p), "the second process ended");
        Process::spawn(async move { Node::disconnect(Node::from(("far", address))) });
        settle().await;
        sleep(50).await;
        check!(told.load(Ordering::SeqCst) == 1, "the linked process received {} signals", told.load(Ordering::SeqCst));
    });
}
''')
seed("node-id-returned", "C26",
     "forget the node that was registered last, then hear of another node",
     "the id of a forgotten node is given to the next node, so an old pid names a process of the wrong node",
     [("node_registry.rs", "    let Some((_, registration)) = NODE_REGISTRATIONS.remove(&id) else {\n        return;\n    };\n",
       "    let Some((_, registration)) = NODE_REGISTRATIONS.remove(&id) else {\n        return;\n    };\n\n    // Nothing was registered after it.\n    let _ = NODE_ID.compare_exchange(id + 1, id, Ordering::Relaxed, Ordering::Relaxed);\n")],
     REMOTE + r'''
fn main() {
    one(async {
        start();
        let old = foreign(5, "far", 9);
        Node::forget(Node::from(("far", std::net::SocketAddr::from(([127, 0, 0, 1], 9)))));
        let new = foreign(5, "another", 10);
        check!(old != new, "processes of two nodes are the same value {:?} {:?}", old, new);
    });
}
''')
seed("formatted-panic", "C27",
     "a process that panics with a formatted message",
     "the exit reason of a process that panicked with a formatted message is not the message",
     [("catch_unwind.rs", "                if x.is::<String>() {\n                    return *x.downcast::<String>().unwrap();\n                } else if x.is::<&str>() {",
       "                if x.is::<&str>() {")],
     r'''
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    one(async {
        let got = Arc::new(Mutex::new(None));
        let g = got.clone();
        Process::spawn(async move {
            Process::spawn_monitor(async { let n = std::hint::black_box(3); panic!("stopped at {n}") });
            if let Message::System(SystemMessage::ProcessDown(_, _, r)) = Process::receiver().for_message::<u64>().receive().await {
                *g.lock().unwrap() = Some(r);
            }
        });
        settle().await;
        sleep(50).await;
        let r = got.lock().unwrap().clone();
        check!(r == Some(ExitReason::from("stopped at 3")), "the reason is {:?}", r);
    });
}
''')
