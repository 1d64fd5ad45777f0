From 10d81233cebaacf4e697c9b817398897903b3d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:07 +0000
Subject: [PATCH 01/48] fix: unlink removes both sides of a link

---
 hydra/src/link.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hydra/src/link.rs b/hydra/src/link.rs
index 7ee1e19..90b2758 100644
--- a/hydra/src/link.rs
+++ b/hydra/src/link.rs
@@ -72,6 +72,13 @@ pub fn link_install(process: Pid, from: Pid) {
 
 /// Destroys a link for the given local process.
 pub fn link_destroy(process: Pid, from: Pid) {
+    if from.is_local() {
+        LINKS.alter(&from.id(), |_, mut value| {
+            value.remove(&process);
+            value
+        });
+    }
+
     if process.is_local() {
         LINKS.alter(&process.id(), |_, mut value| {
             value.remove(&from);
-- 
2.43.0


From 7f5226bfd5286eda4831c044ac4b01428f7006c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:07 +0000
Subject: [PATCH 02/48] fix: linking to a process that does not exist leaves no
 link behind

---
 hydra/src/link.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hydra/src/link.rs b/hydra/src/link.rs
index 90b2758..fd5123a 100644
--- a/hydra/src/link.rs
+++ b/hydra/src/link.rs
@@ -49,6 +49,7 @@ pub fn link_install(process: Pid, from: Pid) {
 
     if process.is_local() {
         if !link_create(process, from, false) {
+            link_destroy(process, from);
             process_exit_signal_linked(from, process, ExitReason::from("noproc"));
         }
     } else {
@@ -64,6 +65,7 @@ pub fn link_install(process: Pid, from: Pid) {
                 node_send_frame(link.into(), node);
             }
             None => {
+                link_destroy(process, from);
                 process_exit_signal_linked(from, process, ExitReason::from("noconnection"));
             }
         }
-- 
2.43.0


From 721ced0e08e58643d6ccd1cad8667d7837b5c326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:07 +0000
Subject: [PATCH 03/48] fix: unalias only deactivates aliases of the calling
 process

---
 hydra/src/alias.rs   |  7 +++++++
 hydra/src/process.rs | 11 +++++++++--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/hydra/src/alias.rs b/hydra/src/alias.rs
index 7353c76..91e105f 100644
--- a/hydra/src/alias.rs
+++ b/hydra/src/alias.rs
@@ -28,6 +28,13 @@ pub fn alias_destroy(reference: Reference) -> bool {
     ALIASES.remove(&reference.id()).is_some()
 }
 
+/// Destroys an alias for the given reference if it belongs to `sender`, returning `true` if the alias existed.
+pub fn alias_destroy_owned(sender: &ProcessSend, reference: Reference) -> bool {
+    ALIASES
+        .remove_if(&reference.id(), |_, alias| alias.sender.same_channel(sender))
+        .is_some()
+}
+
 /// Destroys all of the alias for every given reference.
 pub fn alias_destroy_all<'a, A: IntoIterator<Item = &'a u64>>(ids: A) {
     for id in ids {
diff --git a/hydra/src/process.rs b/hydra/src/process.rs
index 5c3e855..e1407da 100644
--- a/hydra/src/process.rs
+++ b/hydra/src/process.rs
@@ -13,6 +13,7 @@ use flume::Sender;
 use crate::alias_create;
 use crate::alias_destroy;
 use crate::alias_destroy_all;
+use crate::alias_destroy_owned;
 use crate::link_create;
 use crate::link_destroy;
 use crate::link_fill_info;
@@ -119,9 +120,15 @@ impl Process {
     ///
     /// Returns `true` if the alias was currently-active for the current process, or `false` otherwise.
     pub fn unalias(alias: Reference) -> bool {
-        PROCESS.with(|process| process.aliases.borrow_mut().remove(&alias.id()));
+        if alias.is_remote() {
+            return false;
+        }
+
+        PROCESS.with(|process| {
+            process.aliases.borrow_mut().remove(&alias.id());
 
-        alias_destroy(alias)
+            alias_destroy_owned(&process.sender, alias)
+        })
     }
 
     /// Returns the current [Pid].
-- 
2.43.0


From 6f9040696bd0a2e860090c41f4cff072b1bfc9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:36 +0000
Subject: [PATCH 04/48] fix: demonitor discards a down message that was already
 looked at

---
 hydra/src/process.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/hydra/src/process.rs b/hydra/src/process.rs
index e1407da..7768997 100644
--- a/hydra/src/process.rs
+++ b/hydra/src/process.rs
@@ -59,6 +59,7 @@ use crate::ProcessReceiver;
 use crate::ProcessRegistration;
 use crate::Receivable;
 use crate::Reference;
+use crate::SystemMessage;
 use crate::Timeout;
 
 /// The send type for a process.
@@ -364,6 +365,16 @@ impl Process {
         let Some(process_monitor) =
             PROCESS.with(|process| process.monitors.borrow_mut().remove(&monitor))
         else {
+            // The monitor may have already fired and been looked at by a selective receive, discard it.
+            PROCESS.with(|process| {
+                process.items.borrow_mut().retain(|item| {
+                    !matches!(
+                        item,
+                        ProcessItem::SystemMessage(SystemMessage::ProcessDown(_, reference, _))
+                            if *reference == monitor
+                    )
+                })
+            });
             return;
         };
 
-- 
2.43.0


From 6869ba2a1eed7b5ae3df3ed836134af0bde10f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:36 +0000
Subject: [PATCH 05/48] fix: demonitor ends the alias of a named monitor that
 was not resolved yet

---
 hydra/src/process.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/hydra/src/process.rs b/hydra/src/process.rs
index 7768997..1acac06 100644
--- a/hydra/src/process.rs
+++ b/hydra/src/process.rs
@@ -382,11 +382,9 @@ impl Process {
             panic!("Invalid process monitor reference!");
         };
 
-        let Some(pid) = pid else {
-            return;
-        };
-
-        monitor_destroy(pid, monitor);
+        if let Some(pid) = pid {
+            monitor_destroy(pid, monitor);
+        }
 
         alias_destroy(monitor);
     }
-- 
2.43.0


From 676758ede40fa671aed2e766a5e17424059eec8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:36 +0000
Subject: [PATCH 06/48] fix: destroying a monitor of a remote process reaches
 the node of that process

---
 hydra/src/monitor.rs     | 19 ++++---------------
 hydra/src/node_remote.rs | 11 ++++++-----
 2 files changed, 10 insertions(+), 20 deletions(-)

diff --git a/hydra/src/monitor.rs b/hydra/src/monitor.rs
index 5bcb11a..ef6dee2 100644
--- a/hydra/src/monitor.rs
+++ b/hydra/src/monitor.rs
@@ -51,9 +51,9 @@ pub fn monitor_destroy(process: Pid, reference: Reference) {
     } else {
         let monitor = Monitor::new(false, Some(process.id()), None, None, reference.id());
 
-        node_send_frame(monitor.into(), reference.node());
+        node_send_frame(monitor.into(), process.node());
 
-        if let Some((name, address)) = node_lookup_remote(reference.node()) {
+        if let Some((name, address)) = node_lookup_remote(process.node()) {
             node_process_monitor_destroy(Node::from((name, address)), reference);
         }
     }
@@ -66,19 +66,8 @@ pub fn monitor_destroy_all<'a, M: IntoIterator<Item = (&'a Reference, &'a Proces
     for (reference, monitor) in monitors {
         match monitor {
             ProcessMonitor::ForProcess(pid) => {
-                let Some(pid) = pid else {
-                    continue;
-                };
-
-                if pid.is_local() {
-                    MONITORS.alter(&pid.id(), |_, mut value| {
-                        value.remove(reference);
-                        value
-                    });
-                } else {
-                    let monitor = Monitor::new(false, Some(pid.id()), None, None, reference.id());
-
-                    node_send_frame(monitor.into(), reference.node());
+                if let Some(pid) = pid {
+                    monitor_destroy(*pid, *reference);
                 }
             }
             ProcessMonitor::ForNode(node) => {
diff --git a/hydra/src/node_remote.rs b/hydra/src/node_remote.rs
index f5edec7..99d8dc9 100644
--- a/hydra/src/node_remote.rs
+++ b/hydra/src/node_remote.rs
@@ -158,14 +158,15 @@ async fn node_remote_receiver(mut reader: Reader, supervisor: Arc<NodeRemoteSupe
             Frame::Monitor(monitor) => {
                 let node = node_register(supervisor.node.clone(), false);
 
-                let from_id = monitor
-                    .from_id
-                    .expect("Must have a from_id for remote monitors!");
-
-                let from = Pid::remote(from_id, node);
                 let reference = Reference::remote(monitor.reference_id, node);
 
                 if monitor.install {
+                    let from_id = monitor
+                        .from_id
+                        .expect("Must have a from_id for remote monitors!");
+
+                    let from = Pid::remote(from_id, node);
+
                     if let Some(id) = monitor.process_id {
                         let process = Pid::local(id);
 
-- 
2.43.0


From b0f262f4e577622efd7a12f2cd5099a71ddbb9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:36 +0000
Subject: [PATCH 07/48] fix: a monitor down frame only ends the alias of a
 monitor installed for that node

---
 hydra/src/node_registry.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hydra/src/node_registry.rs b/hydra/src/node_registry.rs
index ec64274..86b8323 100644
--- a/hydra/src/node_registry.rs
+++ b/hydra/src/node_registry.rs
@@ -512,9 +512,9 @@ pub fn node_process_monitor_down(node: Node, reference: Reference, exit_reason:
         value
     });
 
-    alias_destroy(reference);
-
     if let Some(NodeMonitor::ProcessMonitor(id, dest)) = monitor {
+        alias_destroy(reference);
+
         process_sender(Pid::local(id)).map(|sender| {
             sender.send(ProcessItem::MonitorProcessDown(
                 dest,
-- 
2.43.0


From ce94491f64f7acd85b07bb203f5c43ec01bc52fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:36 +0000
Subject: [PATCH 08/48] fix: a link down frame consumes the link of the local
 process

---
 hydra/src/node_registry.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hydra/src/node_registry.rs b/hydra/src/node_registry.rs
index 86b8323..9aef3b1 100644
--- a/hydra/src/node_registry.rs
+++ b/hydra/src/node_registry.rs
@@ -535,6 +535,8 @@ pub fn node_process_link_down(node: Node, process: Pid, from: Pid, exit_reason:
     });
 
     if found {
+        link_destroy(process, from);
+
         process_exit_signal_linked(process, from, exit_reason);
     }
 }
-- 
2.43.0


From 3498912cdaee8ccca9826367e68ddfa630afd3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:36 +0000
Subject: [PATCH 09/48] fix: keep the process registered for the duration of
 process_exists_lock

---
 hydra/src/process_registry.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/hydra/src/process_registry.rs b/hydra/src/process_registry.rs
index 38929fe..f6f4630 100644
--- a/hydra/src/process_registry.rs
+++ b/hydra/src/process_registry.rs
@@ -30,11 +30,9 @@ static PROCESS_TIMERS: Lazy<DashMap<u64, (Instant, JoinHandle<()>)>> = Lazy::new
 ///
 /// The process will exist for the duration of `callback`.
 pub fn process_exists_lock<C: FnOnce(bool) -> R, R>(pid: Pid, callback: C) -> R {
-    if PROCESS_REGISTRY.get(&pid.id()).is_some() {
-        callback(true)
-    } else {
-        callback(false)
-    }
+    let process = PROCESS_REGISTRY.get(&pid.id());
+
+    callback(process.is_some())
 }
 
 /// Drops a process from the registry.
-- 
2.43.0


From fa7542d881450799c233b5cf0b3f9949ef566aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:06 +0000
Subject: [PATCH 10/48] fix: a process is registered before it runs

---
 hydra/src/process.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/hydra/src/process.rs b/hydra/src/process.rs
index 1acac06..fef472a 100644
--- a/hydra/src/process.rs
+++ b/hydra/src/process.rs
@@ -10,6 +10,8 @@ use std::time::Duration;
 use flume::Receiver;
 use flume::Sender;
 
+use tokio::sync::oneshot;
+
 use crate::alias_create;
 use crate::alias_destroy;
 use crate::alias_destroy_all;
@@ -497,8 +499,13 @@ where
         result = SpawnResult::PidMonitor(pid, monitor);
     }
 
+    // The process must not run before it is registered.
+    let (registered_tx, registered_rx) = oneshot::channel::<()>();
+
     // Spawn the process with the newly created process object in scope.
     let handle = tokio::spawn(PROCESS.scope(process, async move {
+        let _ = registered_rx.await;
+
         if let Err(e) = AsyncCatchUnwind::new(AssertUnwindSafe(function)).await {
             process_set_exit_reason(Process::current(), e.into());
         }
@@ -507,5 +514,7 @@ where
     // Register the process under it's new id.
     process_insert(next_id, ProcessRegistration::new(handle, tx));
 
+    let _ = registered_tx.send(());
+
     result
 }
-- 
2.43.0


From b7a85ace3aa941801cbaa93649d633c75afa0072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:20 +0000
Subject: [PATCH 11/48] fix: AllSignificant shuts down when no significant
 child is running anymore

---
 hydra/src/supervisor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydra/src/supervisor.rs b/hydra/src/supervisor.rs
index 479ff14..6ea5615 100644
--- a/hydra/src/supervisor.rs
+++ b/hydra/src/supervisor.rs
@@ -740,7 +740,7 @@ impl Supervisor {
             return true;
         }
 
-        self.children.iter().any(|child| {
+        !self.children.iter().any(|child| {
             if child.pid.is_none() {
                 return false;
             }
-- 
2.43.0


From 86f48cb34d34348d028eb936b836c176cdf4656a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:20 +0000
Subject: [PATCH 12/48] fix: the id of an ignored temporary child can be used
 again

---
 hydra/src/supervisor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydra/src/supervisor.rs b/hydra/src/supervisor.rs
index 6ea5615..1831ee7 100644
--- a/hydra/src/supervisor.rs
+++ b/hydra/src/supervisor.rs
@@ -717,7 +717,7 @@ impl Supervisor {
                 child.restarting = false;
 
                 if child.is_temporary() && pid.is_none() {
-                    self.children.remove(index);
+                    self.remove_child(index);
                 }
 
                 Ok(pid)
-- 
2.43.0


From 76e9b8b227e1c015ea29c80812d1886124336882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:20 +0000
Subject: [PATCH 13/48] fix: terminating a temporary child removes its
 specification

---
 hydra/src/supervisor.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hydra/src/supervisor.rs b/hydra/src/supervisor.rs
index 1831ee7..2289d00 100644
--- a/hydra/src/supervisor.rs
+++ b/hydra/src/supervisor.rs
@@ -385,6 +385,11 @@ impl Supervisor {
 
         if let Some(index) = index {
             self.terminate_child_by_index(index).await;
+
+            if self.children[index].is_temporary() {
+                self.remove_child(index);
+            }
+
             Ok(())
         } else {
             Err(SupervisorError::NotFound)
-- 
2.43.0


From 350af3750ee932eb0cb3e7c8ddbd0287594dcc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:20 +0000
Subject: [PATCH 14/48] fix: temporary children are not restarted by a restart
 of their siblings

---
 hydra/src/supervisor.rs | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/hydra/src/supervisor.rs b/hydra/src/supervisor.rs
index 2289d00..54ff26b 100644
--- a/hydra/src/supervisor.rs
+++ b/hydra/src/supervisor.rs
@@ -615,25 +615,31 @@ impl Supervisor {
         index: usize,
         all: bool,
     ) -> Option<(usize, ExitReason)> {
-        let mut indices = Vec::new();
+        let start = if all { 0 } else { index };
 
-        let range = if all {
-            0..self.children.len()
-        } else {
-            index..self.children.len()
-        };
+        let mut index = index;
+        let mut tindex = start;
 
-        for tindex in range {
-            indices.push(tindex);
+        while tindex < self.children.len() {
+            if index != tindex {
+                self.terminate_child_by_index(tindex).await;
 
-            if index == tindex {
-                continue;
+                // Temporary children are never restarted.
+                if self.children[tindex].is_temporary() {
+                    self.remove_child(tindex);
+
+                    if tindex < index {
+                        index -= 1;
+                    }
+
+                    continue;
+                }
             }
 
-            self.terminate_child_by_index(tindex).await;
+            tindex += 1;
         }
 
-        for sindex in indices {
+        for sindex in start..self.children.len() {
             match self.start_child_by_index(sindex).await {
                 Ok(pid) => {
                     let child = &mut self.children[sindex];
-- 
2.43.0


From 3c48bf640310a7fb1d1b0ed4a9abc83df6012047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:20 +0000
Subject: [PATCH 15/48] fix: terminating a child that is waiting to be
 restarted cancels the restart

---
 hydra/src/supervisor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hydra/src/supervisor.rs b/hydra/src/supervisor.rs
index 54ff26b..cf62b72 100644
--- a/hydra/src/supervisor.rs
+++ b/hydra/src/supervisor.rs
@@ -462,12 +462,12 @@ impl Supervisor {
     async fn terminate_child_by_index(&mut self, index: usize) {
         let child = &mut self.children[index];
 
+        child.restarting = false;
+
         let Some(pid) = child.pid.take() else {
             return;
         };
 
-        child.restarting = false;
-
         let _ = shutdown(pid, child.shutdown()).await;
     }
 
-- 
2.43.0


From ca6bd60a1401915fce27873695c25c41d640b7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:20 +0000
Subject: [PATCH 16/48] fix: a restart that is no longer needed does not count
 towards the restart intensity

---
 hydra/src/supervisor.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hydra/src/supervisor.rs b/hydra/src/supervisor.rs
index cf62b72..f3d8fa6 100644
--- a/hydra/src/supervisor.rs
+++ b/hydra/src/supervisor.rs
@@ -658,14 +658,14 @@ impl Supervisor {
 
     /// Tries to restart the given child again, returns if an error occured.
     async fn try_again_restart(&mut self, index: usize) -> Result<(), ExitReason> {
-        if self.add_restart() {
-            return Err(ExitReason::from("shutdown"));
-        }
-
         if !self.children[index].restarting {
             return Ok(());
         }
 
+        if self.add_restart() {
+            return Err(ExitReason::from("shutdown"));
+        }
+
         self.restart(index).await;
 
         Ok(())
-- 
2.43.0


From 64cf325d303239fff0930d560052b51129910560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:20 +0000
Subject: [PATCH 17/48] fix: a child that could not be restarted yet is not
 reported as running

---
 hydra/src/supervisor.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hydra/src/supervisor.rs b/hydra/src/supervisor.rs
index f3d8fa6..d38b889 100644
--- a/hydra/src/supervisor.rs
+++ b/hydra/src/supervisor.rs
@@ -552,6 +552,8 @@ impl Supervisor {
     async fn restart(&mut self, index: usize) {
         use SupervisorMessage::*;
 
+        self.children[index].pid = None;
+
         match self.strategy {
             SupervisionStrategy::OneForOne => {
                 match self.start_child_by_index(index).await {
-- 
2.43.0


From 3e4ebf8b6940f9d2320bc52dd1dbbf5d27bdf73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:44 +0000
Subject: [PATCH 18/48] fix: a process that is already exiting keeps its exit
 reason

---
 hydra/src/process_registry.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hydra/src/process_registry.rs b/hydra/src/process_registry.rs
index f6f4630..c37aa9c 100644
--- a/hydra/src/process_registry.rs
+++ b/hydra/src/process_registry.rs
@@ -148,6 +148,8 @@ pub fn process_exit(pid: Pid, from: Pid, exit_reason: ExitReason) {
         let trapping_exits = process.flags.contains(ProcessFlags::TRAP_EXIT);
 
         match exit_reason {
+            // The process is already exiting.
+            _ if process.exit_reason.is_some() => {}
             ExitReason::Normal | ExitReason::Ignore => {
                 if pid == from {
                     process.exit_reason = Some(exit_reason);
@@ -189,7 +191,9 @@ pub fn process_exit(pid: Pid, from: Pid, exit_reason: ExitReason) {
 /// Forwards an exit signal to the linked [Pid] from the given [Pid] with the `exit_reason`.
 pub fn process_exit_signal_linked(pid: Pid, from: Pid, exit_reason: ExitReason) {
     PROCESS_REGISTRY.alter(&pid.id(), |_, mut process| {
-        if process.flags.contains(ProcessFlags::TRAP_EXIT) {
+        if process.exit_reason.is_some() {
+            // The process is already exiting.
+        } else if process.flags.contains(ProcessFlags::TRAP_EXIT) {
             process
                 .sender
                 .send(ProcessItem::SystemMessage(SystemMessage::Exit(
-- 
2.43.0


From 24099b0d85c6ac64f02da5a4c4b698f7a4a29ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:32 +0000
Subject: [PATCH 19/48] fix: clearing a hash ring also clears its overrides

---
 hydra/src/hash_ring.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hydra/src/hash_ring.rs b/hydra/src/hash_ring.rs
index d620e36..907eade 100644
--- a/hydra/src/hash_ring.rs
+++ b/hydra/src/hash_ring.rs
@@ -205,7 +205,8 @@ where
     pub fn clear(&self) {
         let _ring_lock = self.ring_lock.lock().unwrap();
 
-        self.ring.store(Arc::new(Vec::new()))
+        self.ring.store(Arc::new(Vec::new()));
+        self.overrides.clear();
     }
 
     /// Hashes the given key using the selected hasher.
-- 
2.43.0


From 63ef629f260e7c4c366ea21b45a5e7846f09359b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:31 +0000
Subject: [PATCH 20/48] fix: starting a process in a registry without a start
 routine returns an error

---
 hydra/src/registry.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hydra/src/registry.rs b/hydra/src/registry.rs
index 889c238..af56fa6 100644
--- a/hydra/src/registry.rs
+++ b/hydra/src/registry.rs
@@ -360,7 +360,11 @@ impl Registry {
             return Err(RegistryError::AlreadyStarted(process));
         }
 
-        let start_child = Pin::from(self.start.as_ref().unwrap()(key.clone())).await;
+        let Some(start) = self.start.as_ref() else {
+            return Err(RegistryError::StartNotSupported);
+        };
+
+        let start_child = Pin::from(start(key.clone())).await;
 
         match start_child {
             Ok(pid) => {
-- 
2.43.0


From a460b1b461098027bcee0f53f43abf9454e29c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:34 +0000
Subject: [PATCH 21/48] fix: dropping a registry only affects the processes
 registered by it

---
 hydra/src/registry.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/hydra/src/registry.rs b/hydra/src/registry.rs
index af56fa6..417a9d7 100644
--- a/hydra/src/registry.rs
+++ b/hydra/src/registry.rs
@@ -473,11 +473,25 @@ impl Registry {
 
 impl Drop for Registry {
     fn drop(&mut self) {
-        REGISTRY.remove(&self.name);
+        // Without processes of its own this instance must not touch the table of a running registry.
+        if self.lookup.is_empty() {
+            REGISTRY.remove_if(&self.name, |_, registry| registry.is_empty());
+            return;
+        }
+
+        let registry = REGISTRY.remove(&self.name).map(|(_, registry)| registry);
 
-        for process in self.lookup.keys() {
+        for (process, key) in &self.lookup {
             Process::unlink(*process);
-            Process::exit(*process, ExitReason::Kill);
+
+            // A removed process remains running.
+            let registered = registry.as_ref().map_or(true, |registry| {
+                registry.get(key).is_some_and(|entry| *entry == *process)
+            });
+
+            if registered {
+                Process::exit(*process, ExitReason::Kill);
+            }
         }
     }
 }
-- 
2.43.0


From 6b7c0e968c5e31ee220f3bc1024e1e70673182a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:55 +0000
Subject: [PATCH 22/48] fix: a registry started under another name uses the
 table of that name

---
 hydra/src/registry.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/hydra/src/registry.rs b/hydra/src/registry.rs
index 417a9d7..7fa4ec8 100644
--- a/hydra/src/registry.rs
+++ b/hydra/src/registry.rs
@@ -315,9 +315,11 @@ impl Registry {
     }
 
     /// Create a registry proces not linked to a supervision tree.
-    pub async fn start(self, mut options: RegistryOptions) -> Result<Pid, ExitReason> {
-        if options.name.is_none() {
-            options = options.name(self.name.clone());
+    pub async fn start(mut self, mut options: RegistryOptions) -> Result<Pid, ExitReason> {
+        // The table is looked up by the name of the registry process.
+        match &options.name {
+            Some(name) => self.name.clone_from(name),
+            None => options = options.name(self.name.clone()),
         }
 
         GenServer::start(self, options.into()).await
@@ -326,18 +328,22 @@ impl Registry {
     /// Creates a registry process as part of a supervision tree.
     ///
     /// For example, this function ensures that the registry is linked to the calling process (its supervisor).
-    pub async fn start_link(self, mut options: RegistryOptions) -> Result<Pid, ExitReason> {
-        if options.name.is_none() {
-            options = options.name(self.name.clone());
+    pub async fn start_link(mut self, mut options: RegistryOptions) -> Result<Pid, ExitReason> {
+        // The table is looked up by the name of the registry process.
+        match &options.name {
+            Some(name) => self.name.clone_from(name),
+            None => options = options.name(self.name.clone()),
         }
 
         GenServer::start_link(self, options.into()).await
     }
 
     /// Builds a child specification for this [Registry] process.
-    pub fn child_spec(self, mut options: RegistryOptions) -> ChildSpec {
-        if options.name.is_none() {
-            options = options.name(self.name.clone());
+    pub fn child_spec(mut self, mut options: RegistryOptions) -> ChildSpec {
+        // The table is looked up by the name of the registry process.
+        match &options.name {
+            Some(name) => self.name.clone_from(name),
+            None => options = options.name(self.name.clone()),
         }
 
         ChildSpec::new("Registry")
-- 
2.43.0


From 42020ff07b2f2366efc751bf50b31f10bbc7e243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:28 +0000
Subject: [PATCH 23/48] fix: a frame is decoded from its own bytes only

---
 hydra/src/frame/mod.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/hydra/src/frame/mod.rs b/hydra/src/frame/mod.rs
index 1a95b71..bd42274 100644
--- a/hydra/src/frame/mod.rs
+++ b/hydra/src/frame/mod.rs
@@ -8,7 +8,6 @@ use bincode::config;
 use bincode::config::Configuration;
 use bincode::config::Fixint;
 use bincode::config::LittleEndian;
-use bincode::error::DecodeError;
 
 use bytes::Buf;
 use bytes::BufMut;
@@ -170,17 +169,13 @@ impl Decoder for Codec {
             return Ok(None);
         }
 
-        let result = bincode::decode_from_slice(&src[4..], FRAME_CONFIG);
+        let result = bincode::decode_from_slice(&src[MARKER_LENGTH..MARKER_LENGTH + length], FRAME_CONFIG);
 
         match result {
             Ok((frame, _)) => {
                 src.advance(MARKER_LENGTH + length);
                 Ok(Some(frame))
             }
-            Err(DecodeError::UnexpectedEnd { additional }) => {
-                src.reserve(additional);
-                Ok(None)
-            }
             Err(e) => Err(Error::new(ErrorKind::InvalidData, e)),
         }
     }
-- 
2.43.0


From e318c0791a8a5f83d1ece96c03b89fe368347a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:29 +0000
Subject: [PATCH 24/48] fix: a frame that is too large for its length marker is
 not sent

---
 hydra/src/frame/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hydra/src/frame/mod.rs b/hydra/src/frame/mod.rs
index bd42274..842a0ce 100644
--- a/hydra/src/frame/mod.rs
+++ b/hydra/src/frame/mod.rs
@@ -143,7 +143,12 @@ impl Encoder<Frame> for Codec {
         let size = bincode::encode_into_std_write(item, &mut dst.writer(), FRAME_CONFIG)
             .map_err(|e| Error::new(ErrorKind::InvalidInput, e))?;
 
-        dst[marker..marker + MARKER_LENGTH].copy_from_slice(&(size as u32).to_le_bytes());
+        let Ok(length) = u32::try_from(size) else {
+            dst.truncate(marker);
+            return Err(Error::new(ErrorKind::InvalidInput, "Frame is too large!"));
+        };
+
+        dst[marker..marker + MARKER_LENGTH].copy_from_slice(&length.to_le_bytes());
 
         Ok(())
     }
-- 
2.43.0


From 5626ee7d53261cae2d489c8dc43ec7581a617741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:30 +0000
Subject: [PATCH 25/48] fix: a remote node without an address is a
 deserialization error

---
 hydra/src/node.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hydra/src/node.rs b/hydra/src/node.rs
index 1f47476..d6b7453 100644
--- a/hydra/src/node.rs
+++ b/hydra/src/node.rs
@@ -323,7 +323,11 @@ impl<'de> Deserialize<'de> for Node {
                 {
                     Ok(Node::Local)
                 } else {
-                    Ok(Node::Remote(node.name, node.address.unwrap()))
+                    let address = node.address.ok_or_else(|| {
+                        serde::de::Error::custom("Missing address for a remote node!")
+                    })?;
+
+                    Ok(Node::Remote(node.name, address))
                 }
             }
             None => Ok(Node::Local),
-- 
2.43.0


From ebfe29b6735ed8639c0c3b89f5c11fbb02296abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:31 +0000
Subject: [PATCH 26/48] fix: the handshake code separates the name from the
 address

---
 hydra/src/frame/hello.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hydra/src/frame/hello.rs b/hydra/src/frame/hello.rs
index 8239e33..9baa80b 100644
--- a/hydra/src/frame/hello.rs
+++ b/hydra/src/frame/hello.rs
@@ -35,6 +35,7 @@ impl Hello {
         };
 
         challenge.update(name.as_bytes());
+        challenge.update(&[0]);
         challenge.update(broadcast_address.to_string().as_bytes());
 
         Self {
@@ -57,6 +58,7 @@ impl Hello {
         };
 
         challenge.update(self.name.as_bytes());
+        challenge.update(&[0]);
         challenge.update(self.broadcast_address.to_string().as_bytes());
 
         let wanted = challenge.finalize().into_bytes();
-- 
2.43.0


From 85aed0f8d3c760abbd96e48e79b5001ed85bb1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:34 +0000
Subject: [PATCH 27/48] fix: the end of a stopped local node does not affect a
 local node started since

---
 hydra/src/node_local.rs    | 3 +--
 hydra/src/node_registry.rs | 7 ++++++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/hydra/src/node_local.rs b/hydra/src/node_local.rs
index 3449f11..263c8f9 100644
--- a/hydra/src/node_local.rs
+++ b/hydra/src/node_local.rs
@@ -25,13 +25,12 @@ pub enum NodeLocalSupervisorMessage {
 pub struct NodeLocalSupervisor {
     pub name: String,
     pub options: NodeOptions,
-    #[allow(dead_code)]
     pub process: Pid,
 }
 
 impl Drop for NodeLocalSupervisor {
     fn drop(&mut self) {
-        node_local_panic();
+        node_local_panic(self.process);
     }
 }
 
diff --git a/hydra/src/node_registry.rs b/hydra/src/node_registry.rs
index 9aef3b1..48a27f6 100644
--- a/hydra/src/node_registry.rs
+++ b/hydra/src/node_registry.rs
@@ -120,7 +120,12 @@ pub fn node_local_stop() {
 }
 
 /// Cleans up distribution information when the local node goes down unexpectedly.
-pub fn node_local_panic() {
+pub fn node_local_panic(process: Pid) {
+    // Another local node may have been started since.
+    if !NODE_MAP.contains_key(&Node::Local) || node_local_process() != Some(process) {
+        return;
+    }
+
     NODE_MAP.clear();
     NODE_REGISTRATIONS.clear();
     NODE_PENDING_MESSAGES.clear();
-- 
2.43.0


From 696faaecac02bb0de27d670e9f1631d9ed4cec63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:36 +0000
Subject: [PATCH 28/48] fix: a remote node supervisor is linked to the local
 node

---
 hydra/src/node_remote.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydra/src/node_remote.rs b/hydra/src/node_remote.rs
index 99d8dc9..36832a9 100644
--- a/hydra/src/node_remote.rs
+++ b/hydra/src/node_remote.rs
@@ -292,7 +292,7 @@ async fn node_remote_supervisor(
         local_supervisor: supervisor,
     });
 
-    Process::link(supervisor.process);
+    Process::link(supervisor.local_supervisor.process);
 
     if !node_accept(node.clone(), Process::current()) {
         panic!("Not accepting node supervisor!");
-- 
2.43.0


From b154984517d4d4ceba66b35412ae515d8eb43bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:37 +0000
Subject: [PATCH 29/48] fix: disconnecting or forgetting a node reports every
 link and monitor of it

---
 hydra/src/node_registry.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/hydra/src/node_registry.rs b/hydra/src/node_registry.rs
index 48a27f6..4b8c3c7 100644
--- a/hydra/src/node_registry.rs
+++ b/hydra/src/node_registry.rs
@@ -380,20 +380,31 @@ pub fn node_disconnect(node: Node) {
         return;
     };
 
+    let mut disconnected: Option<Pid> = None;
+
     NODE_REGISTRATIONS.alter(&id, |_, mut value| {
         NODE_PENDING_MESSAGES.remove(&node);
 
         if let Some(supervisor) = value.supervisor.take() {
             Process::exit(supervisor, ExitReason::Kill);
+            disconnected = Some(supervisor);
         }
 
         value.state = NodeState::Known;
         value
     });
+
+    drop(id);
+
+    if let Some(supervisor) = disconnected {
+        node_remote_supervisor_down(node, supervisor);
+    }
 }
 
 /// Disconnects and forgets a node completely.
 pub fn node_forget(node: Node) {
+    node_disconnect(node.clone());
+
     let Some((_, id)) = NODE_MAP.remove(&node) else {
         return;
     };
-- 
2.43.0


From 952d838ce7c0cb4c3e68e746047e9cfcc6d907a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:39 +0000
Subject: [PATCH 30/48] fix: stopping the local node disconnects every node

---
 hydra/src/node_registry.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hydra/src/node_registry.rs b/hydra/src/node_registry.rs
index 4b8c3c7..b09d6b9 100644
--- a/hydra/src/node_registry.rs
+++ b/hydra/src/node_registry.rs
@@ -107,6 +107,10 @@ pub fn node_local_stop() {
         panic!("Local node not started!");
     };
 
+    for node in node_list() {
+        node_disconnect(node);
+    }
+
     NODE_MAP.clear();
 
     if let Some(entry) = NODE_REGISTRATIONS.get(&LOCAL_NODE_ID) {
-- 
2.43.0


From 875ff12c412cf92893affb7abe021e3bc90e5a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:41 +0000
Subject: [PATCH 31/48] fix: a named monitor of a remote process is installed
 only while the process exists

---
 hydra/src/node_remote.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/hydra/src/node_remote.rs b/hydra/src/node_remote.rs
index 36832a9..4aa433f 100644
--- a/hydra/src/node_remote.rs
+++ b/hydra/src/node_remote.rs
@@ -187,14 +187,26 @@ async fn node_remote_receiver(mut reader: Reader, supervisor: Arc<NodeRemoteSupe
                             }
                         });
                     } else if let Some(name) = monitor.process_name {
-                        if let Some(id) = process_name_lookup(&name) {
-                            monitor_create(id, reference, from, None);
+                        let installed = process_name_lookup(&name).filter(|id| {
+                            process_exists_lock(*id, |exists| {
+                                if exists {
+                                    monitor_create(*id, reference, from, None);
+                                    node_process_monitor_cleanup(
+                                        supervisor.node.clone(),
+                                        reference,
+                                        *id,
+                                    );
+                                }
+
+                                exists
+                            })
+                        });
 
+                        if let Some(id) = installed {
                             let monitor_update =
                                 MonitorUpdate::new(from_id, id.id(), reference.id());
 
                             node_send_frame(monitor_update.into(), node);
-                            node_process_monitor_cleanup(supervisor.node.clone(), reference, id);
                         } else {
                             let mut monitor_down = MonitorDown::new(ExitReason::from("noproc"));
 
-- 
2.43.0


From b72e9c44ee6a336ce60c570489c82b5d1740ad0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:50 +0000
Subject: [PATCH 32/48] fix: a timer is registered before it fires and gone
 once it has fired

---
 hydra/src/process.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/hydra/src/process.rs b/hydra/src/process.rs
index fef472a..2e81674 100644
--- a/hydra/src/process.rs
+++ b/hydra/src/process.rs
@@ -184,15 +184,23 @@ impl Process {
 
         let reference = Reference::new();
 
+        // The timer must not fire before it is registered.
+        let (registered_tx, registered_rx) = oneshot::channel::<()>();
+
         let handle = tokio::spawn(async move {
+            let _ = registered_rx.await;
+
             Process::sleep(duration).await;
-            Process::send(dest, message);
 
             process_destroy_timer(reference);
+
+            Process::send(dest, message);
         });
 
         process_register_timer(reference, duration, handle);
 
+        let _ = registered_tx.send(());
+
         reference
     }
 
-- 
2.43.0


From 21765fe3a03cd4439fbe9eb00d4bb6236b1468a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:50 +0000
Subject: [PATCH 33/48] fix: a reference of another node does not name a local
 timer

---
 hydra/src/process_registry.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/hydra/src/process_registry.rs b/hydra/src/process_registry.rs
index c37aa9c..fba91ca 100644
--- a/hydra/src/process_registry.rs
+++ b/hydra/src/process_registry.rs
@@ -254,6 +254,10 @@ pub fn process_register_timer(timer: Reference, duration: Duration, handle: Join
 
 /// Reads a timer.
 pub fn process_read_timer(timer: Reference) -> Option<Duration> {
+    if timer.is_remote() {
+        return None;
+    }
+
     let time = PROCESS_TIMERS.get(&timer.id())?;
 
     let now = Instant::now();
@@ -268,6 +272,10 @@ pub fn process_read_timer(timer: Reference) -> Option<Duration> {
 
 /// Unregisters and kills a timer.
 pub fn process_destroy_timer(timer: Reference) {
+    if timer.is_remote() {
+        return;
+    }
+
     if let Some((_, (_, handle))) = PROCESS_TIMERS.remove(&timer.id()) {
         handle.abort();
     }
-- 
2.43.0


From 9fbba92f30bdb591e77305fd37c29396aa8c0384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:50 +0000
Subject: [PATCH 34/48] fix: a restart window longer than the clock does not
 crash the supervisor

---
 hydra/src/supervisor.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hydra/src/supervisor.rs b/hydra/src/supervisor.rs
index d38b889..da37f18 100644
--- a/hydra/src/supervisor.rs
+++ b/hydra/src/supervisor.rs
@@ -765,9 +765,12 @@ impl Supervisor {
     /// Adds another restart to the backlog and returns `true` if we've exceeded our quota of restarts.
     fn add_restart(&mut self) -> bool {
         let now = Instant::now();
-        let threshold = now - self.max_duration;
 
-        self.restarts.retain(|restart| *restart >= threshold);
+        // A window that reaches further back than the clock does forgets nothing.
+        if let Some(threshold) = now.checked_sub(self.max_duration) {
+            self.restarts.retain(|restart| *restart >= threshold);
+        }
+
         self.restarts.push(now);
 
         if self.restarts.len() > self.max_restarts {
-- 
2.43.0


From e8af6d1ff6b24226610f75d77a54756482571b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:09 +0000
Subject: [PATCH 35/48] fix: a call that ends with ServerDown leaves no reply
 of it in the mailbox

---
 hydra/src/gen_server.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hydra/src/gen_server.rs b/hydra/src/gen_server.rs
index 3609167..04d899e 100644
--- a/hydra/src/gen_server.rs
+++ b/hydra/src/gen_server.rs
@@ -254,6 +254,11 @@ pub trait GenServer: Sized + Send + 'static {
                     Ok(message)
                 }
                 Ok(Message::System(SystemMessage::ProcessDown(_, _, reason))) => {
+                    // Drop a stale reply that may already be in the process message inbox.
+                    Process::receiver()
+                        .for_message::<GenServerMessage<Self::Message>>()
+                        .remove(|message| matches!(message, Message::User(GenServerMessage::CallReply(tag, _)) if *tag == monitor));
+
                     Err(CallError::ServerDown(reason))
                 }
                 Err(timeout) => {
-- 
2.43.0


From 093b04085530fa214208848c9b982222343caf59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:27 +0000
Subject: [PATCH 36/48] fix: a terminating registry leaves removed processes
 running when their key was started again

---
 hydra/src/registry.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hydra/src/registry.rs b/hydra/src/registry.rs
index 7fa4ec8..d2377b2 100644
--- a/hydra/src/registry.rs
+++ b/hydra/src/registry.rs
@@ -406,10 +406,13 @@ impl Registry {
                 let mut monitors: Vec<(Pid, Reference)> = Vec::with_capacity(registry.len());
 
                 for (process, key) in &self.lookup {
-                    if registry.contains_key(key) {
+                    // A removed process remains running, even if its key was started again.
+                    if registry.get(key).is_some_and(|entry| *entry == *process) {
                         monitors.push((*process, Process::monitor(*process)));
 
                         Process::exit(*process, ExitReason::from("shutdown"));
+                    } else {
+                        Process::unlink(*process);
                     }
                 }
 
-- 
2.43.0


From 2f266280293268ee8cc1f5ade65f62299fbca34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:48 +0000
Subject: [PATCH 37/48] fix: dropping an idle copy of a registry keeps the
 table of the running one

---
 hydra/src/registry.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/hydra/src/registry.rs b/hydra/src/registry.rs
index d2377b2..3b756f6 100644
--- a/hydra/src/registry.rs
+++ b/hydra/src/registry.rs
@@ -484,7 +484,6 @@ impl Drop for Registry {
     fn drop(&mut self) {
         // Without processes of its own this instance must not touch the table of a running registry.
         if self.lookup.is_empty() {
-            REGISTRY.remove_if(&self.name, |_, registry| registry.is_empty());
             return;
         }
 
-- 
2.43.0


From 6ed3f0c7394e68a3dce3bcce053b58811fecf667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:12 +0000
Subject: [PATCH 38/48] fix: a frame with trailing bytes is an error

---
 hydra/src/frame/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hydra/src/frame/mod.rs b/hydra/src/frame/mod.rs
index 842a0ce..5cd424b 100644
--- a/hydra/src/frame/mod.rs
+++ b/hydra/src/frame/mod.rs
@@ -177,6 +177,10 @@ impl Decoder for Codec {
         let result = bincode::decode_from_slice(&src[MARKER_LENGTH..MARKER_LENGTH + length], FRAME_CONFIG);
 
         match result {
+            Ok((_, size)) if size != length => Err(Error::new(
+                ErrorKind::InvalidData,
+                "Frame has trailing bytes!",
+            )),
             Ok((frame, _)) => {
                 src.advance(MARKER_LENGTH + length);
                 Ok(Some(frame))
-- 
2.43.0


From 1fcc2ed0e9b487f42fa2a048fa4e638bdcf13eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:12 +0000
Subject: [PATCH 39/48] fix: a length inside a frame cannot ask for more memory
 than the longest frame

---
 hydra/src/frame/mod.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/hydra/src/frame/mod.rs b/hydra/src/frame/mod.rs
index 5cd424b..3246347 100644
--- a/hydra/src/frame/mod.rs
+++ b/hydra/src/frame/mod.rs
@@ -7,6 +7,7 @@ use bincode::Encode;
 use bincode::config;
 use bincode::config::Configuration;
 use bincode::config::Fixint;
+use bincode::config::Limit;
 use bincode::config::LittleEndian;
 
 use bytes::Buf;
@@ -38,10 +39,15 @@ pub use ping::*;
 pub use pong::*;
 pub use send::*;
 
+/// The most bytes a frame can announce, also for any length inside of it.
+const MAX_FRAME_LENGTH: usize = u32::MAX as usize;
+
 /// Bincode configuration for the frame codec.
-const FRAME_CONFIG: Configuration<LittleEndian, Fixint> = config::standard()
-    .with_fixed_int_encoding()
-    .with_little_endian();
+const FRAME_CONFIG: Configuration<LittleEndian, Fixint, Limit<MAX_FRAME_LENGTH>> =
+    config::standard()
+        .with_fixed_int_encoding()
+        .with_little_endian()
+        .with_limit::<MAX_FRAME_LENGTH>();
 
 /// The size of the marker.
 const MARKER_LENGTH: usize = std::mem::size_of::<u32>();
-- 
2.43.0


From 398a0f86c622f29fc6b34bc9bfa2d5e37189a3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:12 +0000
Subject: [PATCH 40/48] hook: expose the frames and their codec under
 cfg(hydra_verif)

---
 hydra/src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/hydra/src/lib.rs b/hydra/src/lib.rs
index e8ebdd3..568edaf 100644
--- a/hydra/src/lib.rs
+++ b/hydra/src/lib.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)]
+
 mod alias;
 mod application;
 mod application_config;
@@ -112,3 +114,10 @@ pub(crate) use process_monitor::*;
 pub(crate) use process_registration::*;
 pub(crate) use process_registry::*;
 pub(crate) use serialize::*;
+
+/// The frames and their codec, for verification harnesses.
+#[cfg(hydra_verif)]
+#[doc(hidden)]
+pub mod hydra_verif {
+    pub use crate::frame::*;
+}
-- 
2.43.0


From 259d288c76282bee1d39eff8aecbdb71b411be3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:17 +0000
Subject: [PATCH 41/48] fix: the heartbeat timeout option sets the heartbeat
 timeout

---
 hydra/src/node_options.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydra/src/node_options.rs b/hydra/src/node_options.rs
index cffa824..9a99132 100644
--- a/hydra/src/node_options.rs
+++ b/hydra/src/node_options.rs
@@ -51,7 +51,7 @@ impl NodeOptions {
 
     /// Sets the time it takes to consider a remote node down when not receiving any data.
     pub fn heartbeat_timeout(mut self, duration: Duration) -> Self {
-        self.handshake_timeout = duration;
+        self.heartbeat_timeout = duration;
         self
     }
 }
-- 
2.43.0


From ed84a1bb82e784a25b3b1166660e04dc34b6cfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:17 +0000
Subject: [PATCH 42/48] fix: the end of the local node's process reports every
 link and monitor of the nodes

---
 hydra/src/node_registry.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/hydra/src/node_registry.rs b/hydra/src/node_registry.rs
index b09d6b9..e2d4119 100644
--- a/hydra/src/node_registry.rs
+++ b/hydra/src/node_registry.rs
@@ -130,11 +130,27 @@ pub fn node_local_panic(process: Pid) {
         return;
     }
 
+    // The processes serving these nodes may only end once the nodes are no longer registered.
+    for node in node_list() {
+        if let Some(supervisor) = node_supervisor(&node) {
+            node_remote_supervisor_down(node, supervisor);
+        }
+    }
+
     NODE_MAP.clear();
     NODE_REGISTRATIONS.clear();
     NODE_PENDING_MESSAGES.clear();
 }
 
+/// Returns the process currently responsible for the given node.
+fn node_supervisor(node: &Node) -> Option<Pid> {
+    let id = *NODE_MAP.get(node)?;
+
+    NODE_REGISTRATIONS
+        .get(&id)
+        .and_then(|registration| registration.supervisor)
+}
+
 /// Returns the process responsible for the local node.
 pub fn node_local_process() -> Option<Pid> {
     NODE_REGISTRATIONS
-- 
2.43.0


From 8df80739f05925a1d8676837b8f242c6747f6e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:24 +0000
Subject: [PATCH 43/48] fix: a websocket handler does not run any further once
 its connection has ended

---
 hydra-websockets/src/websocket_handler.rs | 25 ++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/hydra-websockets/src/websocket_handler.rs b/hydra-websockets/src/websocket_handler.rs
index a9ca593..53728d2 100644
--- a/hydra-websockets/src/websocket_handler.rs
+++ b/hydra-websockets/src/websocket_handler.rs
@@ -84,11 +84,14 @@ where
 }
 
 /// Internal routine to process commands from a [WebsocketHandler] callback.
+///
+/// Returns `true` when the connection has ended, the handler must not run any further.
 async fn websocket_process_commands<T, S>(
     commands: WebsocketCommands,
     handler: &mut T,
     stream: &mut WebSocketStream<S>,
-) where
+) -> bool
+where
     T: WebsocketHandler + Send + 'static,
     S: AsyncRead + AsyncWrite + Unpin + Send + 'static,
 {
@@ -113,7 +116,9 @@ async fn websocket_process_commands<T, S>(
     if let Err(error) = stream.send_all(&mut sends).await {
         handler.terminate(error_to_reason(&error)).await;
 
-        Process::exit(Process::current(), error_to_reason(&error))
+        Process::exit(Process::current(), error_to_reason(&error));
+
+        return true;
     }
 
     if let Some(WebsocketCommand::Close(code, reason)) = close_command {
@@ -130,7 +135,11 @@ async fn websocket_process_commands<T, S>(
         } else {
             Process::exit(Process::current(), ExitReason::Normal);
         }
+
+        return true;
     }
+
+    false
 }
 
 /// Internal [WebsocketHandler] start routine.
@@ -142,7 +151,9 @@ where
     match handler.websocket_init().await {
         Ok(commands) => {
             if let Some(commands) = commands {
-                websocket_process_commands(commands, &mut handler, &mut stream).await;
+                if websocket_process_commands(commands, &mut handler, &mut stream).await {
+                    return;
+                }
             }
         }
         Err(reason) => {
@@ -156,7 +167,9 @@ where
                 match handler.websocket_info(message).await {
                     Ok(commands) => {
                         if let Some(commands) = commands {
-                            websocket_process_commands(commands, &mut handler, &mut stream).await;
+                            if websocket_process_commands(commands, &mut handler, &mut stream).await {
+                                return;
+                            }
                         }
                     }
                     Err(reason) => {
@@ -194,7 +207,9 @@ where
                         match handler.websocket_handle(message).await {
                             Ok(commands) => {
                                 if let Some(commands) = commands {
-                                    websocket_process_commands(commands, &mut handler, &mut stream).await;
+                                    if websocket_process_commands(commands, &mut handler, &mut stream).await {
+                                        return;
+                                    }
                                 }
                             }
                             Err(reason) => {
-- 
2.43.0


From eeb73c08cd4a16305ea74cebf505f795f9fbb56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:24 +0000
Subject: [PATCH 44/48] fix: terminate is called when a websocket handler
 closes the connection

---
 hydra-websockets/src/websocket_handler.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hydra-websockets/src/websocket_handler.rs b/hydra-websockets/src/websocket_handler.rs
index 53728d2..4c8cb4b 100644
--- a/hydra-websockets/src/websocket_handler.rs
+++ b/hydra-websockets/src/websocket_handler.rs
@@ -133,6 +133,8 @@ where
 
             Process::exit(Process::current(), error_to_reason(&error));
         } else {
+            handler.terminate(ExitReason::Normal).await;
+
             Process::exit(Process::current(), ExitReason::Normal);
         }
 
-- 
2.43.0


From 38a94049c0f43c5b722164117665eb4f5ac55623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:44 +0000
Subject: [PATCH 45/48] fix: terminate is called when websocket_init stops the
 handler

---
 hydra-websockets/src/websocket_handler.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hydra-websockets/src/websocket_handler.rs b/hydra-websockets/src/websocket_handler.rs
index 4c8cb4b..be0e0bd 100644
--- a/hydra-websockets/src/websocket_handler.rs
+++ b/hydra-websockets/src/websocket_handler.rs
@@ -159,6 +159,8 @@ where
             }
         }
         Err(reason) => {
+            handler.terminate(reason.clone()).await;
+
             return Process::exit(Process::current(), reason);
         }
     }
-- 
2.43.0


From f46aa543e868223494a05d1491c81b6902422850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:23 +0000
Subject: [PATCH 46/48] fix: Application::test panics when the application
 process panics

---
 hydra/src/application.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/hydra/src/application.rs b/hydra/src/application.rs
index 47148d5..96cdfa0 100644
--- a/hydra/src/application.rs
+++ b/hydra/src/application.rs
@@ -185,10 +185,12 @@ pub trait Application: Sized + Send + 'static {
                 }
             });
 
-            if let Ok(Some(reason)) = rx.await {
-                if reason.is_custom() && reason != "shutdown" {
-                    panic!("Exited: {:?}", reason);
-                }
+            let Ok(Some(reason)) = rx.await else {
+                panic!("Exited: application process has panicked");
+            };
+
+            if reason.is_custom() && reason != "shutdown" {
+                panic!("Exited: {:?}", reason);
             }
         });
     }
-- 
2.43.0


From 70f2f07406a8aa7e3c58804fbf93548479328737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:23 +0000
Subject: [PATCH 47/48] fix: Application::test panics when the application was
 killed

---
 hydra/src/application.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydra/src/application.rs b/hydra/src/application.rs
index 96cdfa0..79f94ee 100644
--- a/hydra/src/application.rs
+++ b/hydra/src/application.rs
@@ -189,7 +189,7 @@ pub trait Application: Sized + Send + 'static {
                 panic!("Exited: application process has panicked");
             };
 
-            if reason.is_custom() && reason != "shutdown" {
+            if !reason.is_normal() && reason != "shutdown" {
                 panic!("Exited: {:?}", reason);
             }
         });
-- 
2.43.0


From 11ad8a52b6ea811db6432c3e8c807ee770d2abfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:01 +0000
Subject: [PATCH 48/48] fix: comparing a reference with an alias destination
 never returns

---
 hydra/src/dest.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydra/src/dest.rs b/hydra/src/dest.rs
index b7504be..d419981 100644
--- a/hydra/src/dest.rs
+++ b/hydra/src/dest.rs
@@ -137,7 +137,7 @@ impl PartialEq<Reference> for Dest {
 impl PartialEq<Dest> for Reference {
     fn eq(&self, other: &Dest) -> bool {
         match other {
-            Dest::Alias(reference) => reference == other,
+            Dest::Alias(reference) => self == reference,
             _ => false,
         }
     }
-- 
2.43.0

