From c63685dbe58a187190181e663986a81916ef9ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:40 +0000
Subject: [PATCH 01/20] fix: do not print the set of existing drains on stdout
 when adding exit spies

---
 src/config_manip.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/config_manip.rs b/src/config_manip.rs
index fcce13a..f19835a 100644
--- a/src/config_manip.rs
+++ b/src/config_manip.rs
@@ -651,7 +651,6 @@ fn add_launch_exit_spies(config: &mut Config, to_add: Vec<String>) {
 
     let mut existing_connection_keys = config.connection.keys().map(|x| x.clone()).collect();
     let mut existing_drains = config.drain.keys().map(|x| x.clone()).collect();
-    println!("{:?}", existing_drains);
 
     for launch_name in to_add {
         let new_drain_key = generate_new_key("dyn_drain", &existing_drains);
-- 
2.43.0


From 6b279e6f9844009996a11479cef2de667d8e244a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:46 +0000
Subject: [PATCH 02/20] fix: keep junction inputs of equal priority in one
 group

---
 src/junction.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/junction.rs b/src/junction.rs
index 6ffd1ed..36b6ece 100644
--- a/src/junction.rs
+++ b/src/junction.rs
@@ -88,6 +88,7 @@ impl Junction {
                 self.stdin.push(vec![])
             }
             if priority > old_priority {
+                old_priority = priority;
                 self.stdin.push(vec![])
             }
             if let Some(v) = self.stdin.last_mut() {
-- 
2.43.0


From 1afd6af08320e9c1deb7639bcc6c6c3ba920b3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:50 +0000
Subject: [PATCH 03/20] fix: close a junction's outputs when it stops with an
 error, so the components after it end too

---
 src/junction.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/junction.rs b/src/junction.rs
index 36b6ece..5e83d92 100644
--- a/src/junction.rs
+++ b/src/junction.rs
@@ -177,6 +177,7 @@ impl StartableControl for Junction {
                 Ok((false, n)) => { read_count += n }
                 Err(e) => {
                     self.stdin.clear();
+                    self.stdout.clear();
                     return MotionResult::Err(e);
                 }
             }
-- 
2.43.0


From c6c7f2af6f7ca58e9264b960035e1c7d8d67d95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:54 +0000
Subject: [PATCH 04/20] fix: wait for a launch which has no outputs to exit

---
 src/config_manip.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/config_manip.rs b/src/config_manip.rs
index f19835a..49d5557 100644
--- a/src/config_manip.rs
+++ b/src/config_manip.rs
@@ -568,15 +568,19 @@ fn identify_required_spies_for_launch_exits(connections: &BTreeMap<String, Deser
         }
     }).collect();
 
-    let all_launch = connection_pairs.into_iter().fold(HashSet::new(), |mut acc, (first, _last)| {
-        match first {
-            Connection::StartConnection { component_type, component_name, .. }
-                if component_type == ComponentType::Launch => {
-                    acc.insert(component_name.clone());
-                    acc
-                },
-            _ => acc,
+    // A launch may only be at the end of a connection, in which case it still needs to be waited for
+    let all_launch = connection_pairs.into_iter().fold(HashSet::new(), |mut acc, (first, last)| {
+        for connection in [first, last] {
+            match connection {
+                Connection::StartConnection { component_type, component_name, .. } |
+                Connection::EndConnection { component_type, component_name, .. }
+                    if component_type == ComponentType::Launch => {
+                        acc.insert(component_name);
+                    },
+                _ => (),
+            }
         }
+        acc
     });
 
     all_launch.into_iter().filter_map(|name| {
-- 
2.43.0


From 16bac814831a2edf8c2eb53a159c3e8babecfa13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:25 +0000
Subject: [PATCH 05/20] fix: allow a buffer to be monitored by more than one
 regulator

---
 src/buffer.rs | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 9dbb728..bddde5d 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -24,7 +24,7 @@ pub struct Buffer {
     stdout_size: usize,
     stdout: Option<Push>,
     stdin: Option<Pull>,
-    buffer_size_monitor: Option<Sender<BufferSizeMessage>>,
+    buffer_size_monitors: Vec<Sender<BufferSizeMessage>>,
 }
 
 
@@ -58,14 +58,13 @@ impl Buffer {
             stdout_size: 8,
             stdin: None,
             stdout: None,
-            buffer_size_monitor: None,
+            buffer_size_monitors: vec![],
         }
     }
 
     pub fn add_buffer_size_monitor(&mut self) -> Receiver<BufferSizeMessage> {
-        assert!(self.buffer_size_monitor.is_none(), "Each buffer can only be monitored once");
         let (tx, rx) = bounded(self.stdout_size);
-        self.buffer_size_monitor = Some(tx);
+        self.buffer_size_monitors.push(tx);
         rx
     }
 
@@ -109,7 +108,7 @@ impl StartableControl for Buffer {
             stdout,
         );
 
-        async fn total_in_buffer(sender: Option<Sender<BufferSizeMessage>>, m_in: Receiver<MonitorMessage>, m_out: Receiver<MonitorMessage>) -> Result<usize, SendError<BufferSizeMessage>> {
+        async fn total_in_buffer(senders: Vec<Sender<BufferSizeMessage>>, m_in: Receiver<MonitorMessage>, m_out: Receiver<MonitorMessage>) -> Result<usize, SendError<BufferSizeMessage>> {
             let mut size: usize = 0;
             let mut back_off = BackOff::new();
             let mut last = 0;
@@ -141,13 +140,12 @@ impl StartableControl for Buffer {
                         panic!("SHOULD NOT BE HERE");
                     }
                 }
-                match (last != size, &sender) {
-                    (true, Some(s)) => {
-                        last = size;
-                        s.send(BufferSizeMessage(size)).await
-                    },
-                    _ => Ok(()),
-                }?;
+                if last != size {
+                    last = size;
+                    for s in senders.iter() {
+                        s.send(BufferSizeMessage(size)).await?;
+                    }
+                }
                 if m_in.is_empty() && m_in.is_closed() && m_out.is_empty() && m_out.is_closed() {
                     return Ok(size as usize);
                 }
@@ -163,7 +161,7 @@ impl StartableControl for Buffer {
         }
 
         let r_out_prep = r_a.join(r_b).join(
-            total_in_buffer(std::mem::take(&mut self.buffer_size_monitor), monitor_i_rcv, monitor_o_rcv)
+            total_in_buffer(std::mem::take(&mut self.buffer_size_monitors), monitor_i_rcv, monitor_o_rcv)
         ).await;
 
         fn structure_motion_result(input: ((MotionResult<usize>, MotionResult<usize>), Result<usize, SendError<BufferSizeMessage>>)) -> MotionResult<usize> {
-- 
2.43.0


From 2f20978afe94cc1622a80bc1633ca46a61743857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:31 +0000
Subject: [PATCH 06/20] fix: do not block on resuming a regulator which has not
 seen the pause

---
 src/regulator.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/regulator.rs b/src/regulator.rs
index 512f0c1..ac2f639 100644
--- a/src/regulator.rs
+++ b/src/regulator.rs
@@ -41,10 +41,11 @@ impl Regulator {
     pub fn get_control(&mut self) -> RegulatorControl {
         assert!(self.control.is_none(), "Each regulator can only have one control");
         let (send, recv) = bounded(1);
-        self.control = Some(recv);
+        self.control = Some(recv.clone());
         RegulatorControl {
             paused: false,
             control: send,
+            unseen: recv,
         }
     }
 
@@ -161,6 +162,7 @@ impl Regulator {
 pub struct RegulatorControl {
     paused: bool,
     control: async_std::channel::Sender<()>,
+    unseen: async_std::channel::Receiver<()>,
 }
 
 
@@ -176,6 +178,9 @@ impl RegulatorControl {
     pub async fn resume(&mut self) -> Result<bool, SendError<()>> {
         if !self.paused { return Ok(false); }
         self.paused = false;
+        // A regulator which is waiting for input has not seen the pause yet and would not make room
+        // for the resume until it gets some, so take the pause back instead.
+        if self.unseen.try_recv().is_ok() { return Ok(true); }
         self.control.send(()).await.map(|_x| true).or(Ok(false))
     }
 
-- 
2.43.0


From 5a2edec8a657185d68ca95fc60de4211ef24bd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:36 +0000
Subject: [PATCH 07/20] fix: close the output of a faucet which could not be
 opened

---
 src/faucet.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/faucet.rs b/src/faucet.rs
index ef5142d..c26cb81 100644
--- a/src/faucet.rs
+++ b/src/faucet.rs
@@ -91,9 +91,14 @@ impl StartableControl for Faucet {
         self.stdin = Some(match (self.pull_journey, read_location) {
             (Some(journey), Some(f)) if f == "-" => Pull::Stdin(journey, async_std::io::stdin(), ReadSplitControl::new()),
             (Some(journey), Some(filename)) => {
-                let file = async_std::fs::File::open(filename).await
-                    .map_err(|e| MotionError::OpenIOError(journey, Instant::now(), e))?;
-                Pull::File(journey, file, ReadSplitControl::new())
+                match async_std::fs::File::open(filename).await {
+                    Ok(file) => Pull::File(journey, file, ReadSplitControl::new()),
+                    Err(e) => {
+                        // Nothing will ever be sent, so let those downstream finish
+                        self.stdout = None;
+                        return Err(MotionError::OpenIOError(journey, Instant::now(), e));
+                    }
+                }
             },
             _ => Pull::None,
         });
-- 
2.43.0


From a71c5cab9f4fdf37a92ef56f4077a0261391918d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:41 +0000
Subject: [PATCH 08/20] fix: close the output of a buffer which has no input

---
 src/buffer.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index bddde5d..ccec4c5 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -83,8 +83,9 @@ impl StartableControl for Buffer {
         let (monitor_i_snd, monitor_i_rcv): (Sender<MonitorMessage>, Receiver<MonitorMessage>) = bounded(8);
         let (monitor_o_snd, monitor_o_rcv): (Sender<MonitorMessage>, Receiver<MonitorMessage>) = bounded(8);
 
-        let stdin = std::mem::take(&mut self.stdin).ok_or(MotionError::NoneError)?;
-        let stdout = std::mem::take(&mut self.stdout).ok_or(MotionError::NoneError)?;
+        let (stdin, stdout) = (std::mem::take(&mut self.stdin), std::mem::take(&mut self.stdout));
+        let stdin = stdin.ok_or(MotionError::NoneError)?;
+        let stdout = stdout.ok_or(MotionError::NoneError)?;
 
         let push_a = Push::Sender(
             Journey { src: 0, dst: 0, src_port: None, breakable: stdout.journey().ok_or(MotionError::NoneError)?.breakable },
-- 
2.43.0


From ad0eb052e5e0ba7f7705956bbc7d0b4e92fff6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:03 +0000
Subject: [PATCH 09/20] fix: report connections which cannot be understood
 instead of panicking

---
 src/bin/pa2.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/bin/pa2.rs b/src/bin/pa2.rs
index 33ce179..be14a59 100644
--- a/src/bin/pa2.rs
+++ b/src/bin/pa2.rs
@@ -463,6 +463,16 @@ enum UserResponse {
 }
 
 
+/// The manipulation of connections relies on all of them being understood
+fn with_converted_connections(mut config: Config) -> Result<Config, Vec<String>> {
+    let errs = Config::convert_connections(&mut config.connection);
+    if errs.is_empty() {
+        return Ok(config);
+    }
+    Err(errs.into_iter().map(|c| c.to_string()).collect())
+}
+
+
 fn process_user_config_action(result_config: Result<UserRequest, String>) -> Result<UserResponse, String> {
 
     match result_config {
@@ -510,11 +520,14 @@ fn process_user_config_action(result_config: Result<UserRequest, String>) -> Res
             return Err(format!("We found the following warnings / errors: \n\n * {}\n", errs.join("\n * ")));
         },
         Ok(UserRequest::Manipulate { config_in, config_format }) => {
-            let config = read_config(&config_format, &config_in)?;
+            let config = with_converted_connections(read_config(&config_format, &config_in)?)
+                .map_err(|errs| format!("Manipulate {}", errs.join("\n * ")))?;
             Ok(connection_manipulation_light(config)).map(UserResponse::Config)
         },
         Ok(UserRequest::Process { config_in, config_format }) => {
-            let mut config = connection_manipulation(read_config(&config_format, &config_in)?);
+            let config = with_converted_connections(read_config(&config_format, &config_in)?)
+                .map_err(|errs| format!("Process {}", errs.join("\n * ")))?;
+            let mut config = connection_manipulation(config);
 
             let errs = Config::lint(&mut config).into_iter()
                 .filter(|lint_err| !matches!(lint_err, ConfigLintWarning::InConfigButMissingFlowConnection { .. }))
-- 
2.43.0


From dc4bb5d05a6511289b31f231d0f1d6488e6f695c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:22 +0000
Subject: [PATCH 10/20] fix: refuse explicit connection lists which are not a
 flow instead of panicking

---
 src/config.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/config.rs b/src/config.rs
index 21c3203..1236bc9 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -438,6 +438,17 @@ impl Config {
 
     }
 
+    /// A list of connections begins with a start, finishes with an end and has only middles in between
+    fn is_flow(connections: &[Connection]) -> bool {
+        match connections {
+            [] => true,
+            [Connection::StartConnection { .. }, middle @ .., Connection::EndConnection { .. }] => {
+                middle.iter().all(|c| matches!(c, Connection::MiddleConnection { .. }))
+            },
+            _ => false,
+        }
+    }
+
     /// Goes through and converts DeserializedConnection::JoinString to DeserializedConnection::Connections
     pub fn convert_connections(connections: &mut BTreeMap<String, DeserializedConnection>) -> HashSet<ConfigLintWarning> {
 
@@ -453,7 +464,12 @@ impl Config {
                                 }
                             }
                         },
-                        DeserializedConnection::Connections(_) => None
+                        DeserializedConnection::Connections(x) => {
+                            if !Config::is_flow(x) {
+                                return Some(ConfigLintWarning::InvalidConnection { id: k.to_string(), join: format!("{:?}", x) });
+                            }
+                            None
+                        }
                     };
                     if let Some(x) = replace_with {
                         let mut d = DeserializedConnection::Connections(x);
-- 
2.43.0


From 5fc3287b1a0c8c3fa17f26e35630f41197ed1970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:20 +0000
Subject: [PATCH 11/20] fix: stop counting a buffer whose output has gone, so a
 regulator does not wait for it forever

---
 src/buffer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index ccec4c5..0c5825f 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -109,7 +109,7 @@ impl StartableControl for Buffer {
             stdout,
         );
 
-        async fn total_in_buffer(senders: Vec<Sender<BufferSizeMessage>>, m_in: Receiver<MonitorMessage>, m_out: Receiver<MonitorMessage>) -> Result<usize, SendError<BufferSizeMessage>> {
+        async fn total_in_buffer(mut senders: Vec<Sender<BufferSizeMessage>>, m_in: Receiver<MonitorMessage>, m_out: Receiver<MonitorMessage>) -> Result<usize, SendError<BufferSizeMessage>> {
             let mut size: usize = 0;
             let mut back_off = BackOff::new();
             let mut last = 0;
@@ -147,6 +147,10 @@ impl StartableControl for Buffer {
                         s.send(BufferSizeMessage(size)).await?;
                     }
                 }
+                if m_out.is_empty() && m_out.is_closed() {
+                    // What is left will never leave, so nothing should wait for it to do so.
+                    senders.clear();
+                }
                 if m_in.is_empty() && m_in.is_closed() && m_out.is_empty() && m_out.is_closed() {
                     return Ok(size as usize);
                 }
-- 
2.43.0


From 7e99b0828790aa7ab2dd1e2a006308e8421b3192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:37 +0000
Subject: [PATCH 12/20] fix: report a program which cannot be started instead
 of panicking

---
 src/launch.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/launch.rs b/src/launch.rs
index bc254fb..c9b2067 100644
--- a/src/launch.rs
+++ b/src/launch.rs
@@ -180,11 +180,16 @@ impl <E: IntoIterator<Item = (K, V)>,
             false => { child_builder.stderr(async_std::process::Stdio::null()); }
         }
 
-        let mut child = child_builder.spawn().map_err(
-            |_c| {
-                MotionError::LaunchSpawnError(self.command.as_ref().to_str().map(|s| s.to_owned()))
+        let mut child = match child_builder.spawn() {
+            Ok(child) => child,
+            Err(_) => {
+                // Nothing will ever be sent, so let those downstream finish
+                self.stdout = None;
+                self.stderr = None;
+                self.exit_status = None;
+                return Err(MotionError::LaunchSpawnError(self.command.as_ref().to_str().map(|s| s.to_owned())));
             }
-        ).unwrap();
+        };
 
         let child_stdin_push = match std::mem::take(&mut child.stdin) {
             Some(stdin) => {
-- 
2.43.0


From 7efcd2bd1c2769d152f49b7b03cbca77221bd945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:25 +0000
Subject: [PATCH 13/20] fix: order errors consistently, so many of them do not
 end in a panic

---
 src/waiter.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/waiter.rs b/src/waiter.rs
index 5a22ba4..09ec240 100644
--- a/src/waiter.rs
+++ b/src/waiter.rs
@@ -409,12 +409,8 @@ impl Waiter {
 
         l.into_iter().fold(Ok(0), folder)
             .map_err(|mut v| {
-                v.sort_by(|e1, e2| {
-                    if let (Some(i1), Some(i2)) = (e1.instant(), e2.instant()) {
-                        return i1.duration_since(start_instant).cmp(&i2.duration_since(start_instant));
-                    }
-                    std::cmp::Ordering::Equal
-                });
+                // Those without an instant come first: every pair needs to be comparable the same way
+                v.sort_by_key(|e| e.instant().map(|i| i.duration_since(start_instant)));
                 v
             })
 
-- 
2.43.0


From 8e6efa5029f12bff1f3f9717b26e895f6352833b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:41 +0000
Subject: [PATCH 14/20] fix: name the drain whose destination could not be
 opened

---
 src/bin_support.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/bin_support.rs b/src/bin_support.rs
index 97440c5..94b0e74 100644
--- a/src/bin_support.rs
+++ b/src/bin_support.rs
@@ -1,5 +1,5 @@
 use std::collections::HashMap;
-use crate::{waiter::WaiterError, config::ComponentType, motion::Journey};
+use crate::{waiter::WaiterError, config::ComponentType};
 
 pub fn waiter_error_to_string(waiter_err: WaiterError, id_to_component_type_name: &HashMap<usize, (ComponentType, String)>) -> String {
 
@@ -12,10 +12,9 @@ pub fn waiter_error_to_string(waiter_err: WaiterError, id_to_component_type_name
         Some(journey_source) => id_to_component_type_name.get(journey_source),
         _ => None
     };
-    let motion_dst: Option<&(ComponentType, String)> = match waiter_err.caused_by_error().map(|err| err.journey()).flatten() {
-        Some(Journey { dst, .. }) => id_to_component_type_name.get(&dst),
-        _ => None
-    };
+    let motion_dst: Option<&(ComponentType, String)> = waiter_err.caused_by_error()
+        .and_then(|err| err.journey().map(|j| j.dst).or_else(|| err.pull_journey().map(|j| j.dst)))
+        .and_then(|dst| id_to_component_type_name.get(&dst));
 
     let (src, dst) = match (waiter_src, motion_src, motion_dst) {
         (_, Some(motion_src), Some(motion_dst)) => (component_type_name_to_string(&motion_src.0, &motion_src.1), component_type_name_to_string(&motion_dst.0, &motion_dst.1)),
-- 
2.43.0


From 880775d38a3e0fe7099f7a63979da0e131910095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:05 +0000
Subject: [PATCH 15/20] fix: quote names in the graph, so those which are not
 plain identifiers do not make it invalid

---
 src/graph.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/graph.rs b/src/graph.rs
index a48f415..db80fb6 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -124,8 +124,12 @@ pub fn get_diagram(components: HashMap<&ComponentType, Vec<&str>>, connections:
         }
     }
 
+    fn quoted(s: &str) -> String {
+        format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\""))
+    }
+
     fn node_id(component_type: &ComponentType, name: &str) -> NodeId {
-        NodeId(Id::Plain(format!("{}_{}", component_type_to_letter(component_type), name)), None)
+        NodeId(Id::Escaped(quoted(&format!("{}_{}", component_type_to_letter(component_type), name))), None)
     }
 
     fn get_connection_set_name(possible_graph_connection_for_connection_set: Option<&GraphConnection>, component_type: &ComponentType, component_name: &str) -> String {
@@ -169,7 +173,7 @@ pub fn get_diagram(components: HashMap<&ComponentType, Vec<&str>>, connections:
         BTreeMap::new(),
         |mut acc, (component_type, component_names)| {
             for component_name in component_names {
-                let label = component_name;
+                let label = quoted(component_name);
                 let connection_set_graph_connection: Option<&GraphConnection> = connections.iter().find(|connection| {
                     (
                         (connection.src.1 == *component_name) && (connection.src.0 == *component_type)
@@ -221,7 +225,7 @@ pub fn get_diagram(components: HashMap<&ComponentType, Vec<&str>>, connections:
     }
 
     let mut stmts: Vec<Stmt> = graph_components.into_iter().fold(FrontAndBack::new(), |mut acc, (connection_set, nodes)| {
-        let title = format!("\"{}:\"", connection_set);
+        let title = quoted(&format!("{}:", connection_set));
         let rank = if connection_set_with_faucet.contains(&connection_set) { "min" }
             else if connection_set_with_drain.contains(&connection_set) { "max" }
             else { "same" };
@@ -233,7 +237,7 @@ pub fn get_diagram(components: HashMap<&ComponentType, Vec<&str>>, connections:
         }
         stmts.append(&mut stmts_to_add.into_iter().collect::<Vec<Stmt>>());
         let subgraph = Stmt::Subgraph(Subgraph {
-            id: id!(format!("cluster_nodes_{}", connection_set)),
+            id: Id::Escaped(quoted(&format!("cluster_nodes_{}", connection_set))),
             stmts
         });
         if connection_set_with_faucet.contains(&connection_set) {
-- 
2.43.0


From 863221c4f74870fc99ca8703fb750dd76c75aac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:10 +0000
Subject: [PATCH 16/20] fix: draw every connection between the same two
 components

---
 src/graph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph.rs b/src/graph.rs
index db80fb6..71b4180 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -80,7 +80,7 @@ pub fn get_graph(subgraph: Vec<Subgraph>) -> String {
 
     let graph = Graph::DiGraph {
         id: Id::Plain("g_get_graph".to_string()),
-        strict: true,
+        strict: false,
         stmts
     };
 
-- 
2.43.0


From 226142d3db6417146a79ef2985d06c7b89dc7fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:46 +0000
Subject: [PATCH 17/20] fix: do not give a drain of our own the name of one
 which is used but not configured

---
 src/config_manip.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/config_manip.rs b/src/config_manip.rs
index 49d5557..e023fc2 100644
--- a/src/config_manip.rs
+++ b/src/config_manip.rs
@@ -654,7 +654,16 @@ fn test_identify_required_spies_for_launch_exits() {
 fn add_launch_exit_spies(config: &mut Config, to_add: Vec<String>) {
 
     let mut existing_connection_keys = config.connection.keys().map(|x| x.clone()).collect();
-    let mut existing_drains = config.drain.keys().map(|x| x.clone()).collect();
+    let mut existing_drains: HashSet<String> = config.drain.keys().map(|x| x.clone()).collect();
+    for deserialized_connection in config.connection.values() {
+        if let DeserializedConnection::Connections(connections) = deserialized_connection {
+            for connection in connections {
+                if let Connection::EndConnection { component_type: ComponentType::Drain, component_name, .. } = connection {
+                    existing_drains.insert(component_name.to_owned());
+                }
+            }
+        }
+    }
 
     for launch_name in to_add {
         let new_drain_key = generate_new_key("dyn_drain", &existing_drains);
-- 
2.43.0


From d7bea8a0cd998791265331a79bda245141bf9c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:22 +0000
Subject: [PATCH 18/20] fix: a failing buffer says which receiver has gone

---
 src/buffer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 0c5825f..36fbeb2 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -172,7 +172,9 @@ impl StartableControl for Buffer {
         fn structure_motion_result(input: ((MotionResult<usize>, MotionResult<usize>), Result<usize, SendError<BufferSizeMessage>>)) -> MotionResult<usize> {
             match input {
                 ((MotionResult::Ok(stdin_count), MotionResult::Ok(_)), _x) => Ok(stdin_count),
-                _ => Err(MotionError::NoneError),
+                // The way out is the one which knows who has gone, the way in just follows it
+                ((_, MotionResult::Err(e)), _x) => Err(e),
+                ((MotionResult::Err(e), _), _x) => Err(e),
             }
         }
 
-- 
2.43.0


From 63d9e0ea7d39c52f80a5dc5366bcab13834794a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:30 +0000
Subject: [PATCH 19/20] fix: close the channel of the exit status also when the
 spy has left

---
 src/launch.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/launch.rs b/src/launch.rs
index c9b2067..b6482a9 100644
--- a/src/launch.rs
+++ b/src/launch.rs
@@ -251,11 +251,12 @@ impl <E: IntoIterator<Item = (K, V)>,
                 match msg {
                     Some(m) => {
                         exit_status_tx.send(m.clone()).await.map_err(|e| MotionError::SendError(*journey, Instant::now(), e))?;
+                        // There is no more to come, also when the spy has gone
+                        exit_status_tx.close();
                         if let (Some(spy), src, dst, Some(src_port)) = (spy, journey.src, journey.dst, journey.src_port) {
                             let spy_msg = SpyMessage { src, msg: IODataWrapper::IOData(m), dst, src_port };
                             spy.send(spy_msg).await.map_err(|e| MotionError::SpyWriteError(Instant::now(), e))?;
                         }
-                        exit_status_tx.close();
                         break;
                     },
                     None => { async_std::task::sleep(std::time::Duration::from_millis(100)).await; }
-- 
2.43.0


From a29ba12d1ebc17f991e6122a4414e1162710ce31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:06 +0000
Subject: [PATCH 20/20] fix: refuse priorities which are too big instead of
 taking them for 0

---
 src/config.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/config.rs b/src/config.rs
index 1236bc9..d49d4f9 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -749,7 +749,8 @@ pub fn load_connection_from_string(s: &str) -> Result<Vec<Connection>, ParseErro
                 = s:$(['a'..='z' | 'A'..='Z' | '0'..='9' | '_' ]+) { s.to_string() }
 
             rule port_preference() -> isize
-                = n:$("-"?['0'..='9']*) { n.parse().unwrap_or(0) }
+                = n:$("-"?['0'..='9']+) {? n.parse().or(Err("a priority which is not too big")) }
+                / "-"? { 0 }
 
             rule in_port() -> InputPort
                 = "[" p:port_preference() "]" { InputPort { breakable: Breakable::Terminate, priority: p } }
-- 
2.43.0

