From b0c6735bb5d8d9ef833e1ce02a90b934bdea266b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:56 +0000
Subject: [PATCH 01/19] fix: first update of a store that is already at the
 node's tip (CONFIRMATIONS=1)

---
 src/state.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/state.rs b/src/state.rs
index af43455..076a6fd 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -64,8 +64,11 @@ impl State {
         let mut augmentations = self.augmentations.write().await;
         match update {
             Update::LastAugmentationUpdate(augmentation) => {
-                let index = augmentations.len() - 1;
-                augmentations[index] = augmentation;
+                match augmentations.last_mut() {
+                    Some(last_augmentation) => *last_augmentation = augmentation,
+                    None => augmentations.push(augmentation),
+                }
+                assert!(augmentations.len() >= self.confirmations);
                 false
             }
             Update::AugmentationsUpdate(updated_augmentations, blocks) => {
-- 
2.43.0


From 50419ee7fc5b5df90897690448590ecacd3a8ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:56 +0000
Subject: [PATCH 02/19] fix: hold the lock while the store is written, keep
 final blocks in the tail meanwhile

---
 src/state.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/state.rs b/src/state.rs
index 076a6fd..2a11a75 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -53,7 +53,7 @@ impl State {
             } else {
                 tail_blocks.augmentations(&store)
             };
-            assert!(augmentations.len() == self.confirmations);
+            assert!(augmentations.len() >= self.confirmations);
             Update::AugmentationsUpdate(augmentations, blocks)
         } else {
             Update::LastAugmentationUpdate(tail_blocks.last_augmentation(&store))
@@ -167,7 +167,7 @@ impl State {
     }
 
     pub async fn write(&self, file: &str) {
-        let _ = self.mutex.lock().await;
+        let _guard = self.mutex.lock().await;
         let store = self.store.read().await;
         let logger = Logger::new();
         store.to_file(file, &logger);
-- 
2.43.0


From 701414b12afd4069e4fe43a0a8008c84db11a746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:56 +0000
Subject: [PATCH 03/19] fix: replace the store file atomically

---
 src/store/store.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/store/store.rs b/src/store/store.rs
index 20e635d..d512217 100644
--- a/src/store/store.rs
+++ b/src/store/store.rs
@@ -3,6 +3,10 @@ use super::{
     IntermediaryTransactionStore, IntermediaryTransactionStoreBackend, TransactionStore, TransactionStoreBackendTrait,
 };
 use crate::{Batcher, BlockHeader, BlockTrait, BufferWriter, HashingBufferReader, Logger, PartialLogger, SequentialThreadPool, TryInto};
+use std::{
+    fs::{rename, File},
+    io::Write,
+};
 
 #[derive(Debug)]
 pub struct Store<T: TransactionStoreBackendTrait> {
@@ -140,7 +144,11 @@ impl IndexedStore {
         let mut writer = BufferWriter::new();
         self.to_writer(&mut writer, logger);
         logger.log("writing buffer to file...");
-        std::fs::write(path, writer.buffer()).unwrap();
+        let temporary_path = format!("{}.tmp", path);
+        let mut file = File::create(&temporary_path).unwrap();
+        file.write_all(&writer.buffer()).unwrap();
+        file.sync_all().unwrap();
+        rename(&temporary_path, path).unwrap();
         logger.log("writing buffer to file done!");
         logger.log("writing store to file done!");
     }
-- 
2.43.0


From 2addf8e704d2928ffb975fb46ffffa3029ae57a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:56 +0000
Subject: [PATCH 04/19] fix: accept zero padding of any length at the end of a
 block file

---
 src/block_file_reader.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/block_file_reader.rs b/src/block_file_reader.rs
index e390488..635647e 100644
--- a/src/block_file_reader.rs
+++ b/src/block_file_reader.rs
@@ -111,8 +111,14 @@ impl BlockFileReader {
         let mut offset = 0;
         let mut blocks = Vec::new();
         loop {
-            let bytes = file.read(&mut buffer).unwrap();
-            if bytes == 0 {
+            let mut bytes = 0;
+            while bytes < buffer.len() {
+                match file.read(&mut buffer[bytes..]).unwrap() {
+                    0 => break,
+                    n => bytes += n,
+                }
+            }
+            if buffer[..bytes].iter().all(|&byte| byte == 0) {
                 break;
             }
             assert!(bytes == 88);
-- 
2.43.0


From 12d06a7eaacc1f152d6046fc971d457df8cc0f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:56 +0000
Subject: [PATCH 05/19] fix: pass the panic of a pool's worker on to the
 consumer

---
 src/thread_pool.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/thread_pool.rs b/src/thread_pool.rs
index bd02761..742111b 100644
--- a/src/thread_pool.rs
+++ b/src/thread_pool.rs
@@ -3,11 +3,12 @@ use std::{
         mpsc::{channel, Receiver},
         Arc, Mutex,
     },
-    thread::spawn,
+    thread::{spawn, JoinHandle},
 };
 
 pub struct ThreadPool<Output> {
     output_receiver: Receiver<Output>,
+    threads: Vec<JoinHandle<()>>,
 }
 
 impl<Output> ThreadPool<Output>
@@ -24,11 +25,12 @@ where
         let (output_sender, output_receiver) = channel();
 
         let process_fn = Arc::new(process_fn);
+        let mut handles = Vec::new();
         for _ in 0..threads {
             let input_receiver = input_receiver.clone();
             let output_sender = output_sender.clone();
             let process_fn = process_fn.clone();
-            spawn(move || loop {
+            handles.push(spawn(move || loop {
                 let input = input_receiver.lock().unwrap().recv();
                 match input {
                     Ok(input) => {
@@ -39,12 +41,15 @@ where
                         break;
                     }
                 }
-            });
+            }));
         }
         for input in inputs {
             input_sender.send(input).unwrap()
         }
-        Self { output_receiver }
+        Self {
+            output_receiver,
+            threads: handles,
+        }
     }
 }
 
@@ -52,6 +57,14 @@ impl<Output> Iterator for ThreadPool<Output> {
     type Item = Output;
 
     fn next(&mut self) -> Option<Self::Item> {
-        self.output_receiver.recv().ok()
+        match self.output_receiver.recv() {
+            Ok(output) => Some(output),
+            Err(_) => {
+                for thread in self.threads.drain(..) {
+                    thread.join().unwrap();
+                }
+                None
+            }
+        }
     }
 }
-- 
2.43.0


From 62cbc4107a3423467fd02b0201a220a3a20bb05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:56 +0000
Subject: [PATCH 06/19] fix: refuse BATCH_SIZE=0 and CONFIRMATIONS=0

---
 src/configuration.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/configuration.rs b/src/configuration.rs
index 3126388..51b0026 100644
--- a/src/configuration.rs
+++ b/src/configuration.rs
@@ -1,4 +1,4 @@
-use std::{env, error, net::IpAddr};
+use std::{env, error, net::IpAddr, num::NonZeroUsize};
 
 #[derive(Debug, Clone)]
 pub struct Configuration {
@@ -35,11 +35,19 @@ impl Configuration {
         let host = var_map("HOST", |host| host.parse(), Some("127.0.0.1".parse().unwrap())).unwrap();
         let port = var_map("PORT", |port| port.parse(), Some(8000)).unwrap();
         let threads = var_map("THREADS", |threads| threads.parse(), None).unwrap();
-        let batch_size = var_map("BATCH_SIZE", |threads| threads.parse(), None).unwrap();
+        let batch_size = var_map("BATCH_SIZE", |batch_size| batch_size.parse::<NonZeroUsize>(), None)
+            .unwrap()
+            .get();
         let store_file_path = var("STORE_FILE_PATH", None).unwrap();
         let block_files_path = var("BLOCK_FILES_PATH", None).unwrap();
         let update_interval = var_map("UPDATE_INTERVAL", |interval| interval.parse(), Some(1000)).unwrap();
-        let confirmations = var_map("CONFIRMATIONS", |confirmations| confirmations.parse(), Some(6)).unwrap();
+        let confirmations = var_map(
+            "CONFIRMATIONS",
+            |confirmations| confirmations.parse::<NonZeroUsize>(),
+            NonZeroUsize::new(6),
+        )
+        .unwrap()
+        .get();
         let rpc_server_host = var("RPC_SERVER_HOST", None).unwrap();
         let rpc_server_port = var_map("RPC_SERVER_PORT", |port| port.parse(), None).unwrap();
         let rpc_server_user = var("RPC_SERVER_USER", None).unwrap();
-- 
2.43.0


From 99c0069a62bc3e8a9a3a480fb54f4d32ee4a3b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:56 +0000
Subject: [PATCH 07/19] fix: do not panic when the system clock steps backwards

---
 src/chronometer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chronometer.rs b/src/chronometer.rs
index aaeee76..e14896d 100644
--- a/src/chronometer.rs
+++ b/src/chronometer.rs
@@ -11,7 +11,7 @@ impl Chronometer {
     }
 
     pub fn elapsed(&self) -> String {
-        let elapsed = SystemTime::now().duration_since(self.start).unwrap().as_millis();
+        let elapsed = SystemTime::now().duration_since(self.start).unwrap_or_default().as_millis();
         format!("{:02}:{:02}.{:03}", elapsed / 60000, (elapsed % 60000) / 1000, elapsed % 1000)
     }
 }
-- 
2.43.0


From ab226f08559d7f91a8e2bbc0846d3741aa395263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:56 +0000
Subject: [PATCH 08/19] fix: base58 encoding into a larger, reused buffer

---
 src/base58/encode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base58/encode.rs b/src/base58/encode.rs
index b1ffedd..220cad7 100644
--- a/src/base58/encode.rs
+++ b/src/base58/encode.rs
@@ -49,7 +49,7 @@ impl<'a> Encoder<'a> {
             *output.get_mut(index).ok_or(Error::BufferTooSmall)? = 0;
             index += 1;
         }
-        for value in &mut output[..] {
+        for value in &mut output[..index] {
             *value = self.alphabet.encode(*value as usize);
         }
         output[0..index].reverse();
-- 
2.43.0


From 24b4408e89f8a592c9e3e1736d69e9666c5c7711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:18 +0000
Subject: [PATCH 09/19] fix: base64 decoding returns an error on malformed text

---
 src/base_binary/decode.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/base_binary/decode.rs b/src/base_binary/decode.rs
index abf55a3..0d00087 100644
--- a/src/base_binary/decode.rs
+++ b/src/base_binary/decode.rs
@@ -7,6 +7,7 @@ pub enum Error {
     BufferTooSmall,
     NonAsciiCharacter { character: u8, index: usize },
     InvalidCharacter { character: char, index: usize },
+    InvalidTrailingBits,
 }
 
 impl error::Error for Error {}
@@ -17,6 +18,7 @@ impl fmt::Display for Error {
             Self::BufferTooSmall => write!(f, "Output buffer too small"),
             Self::InvalidCharacter { character, index } => write!(f, "Invalid character '{}' at index {}", character, index),
             Self::NonAsciiCharacter { character, index } => write!(f, "Non-ascii character {:#02x} at index {}", character, index),
+            Self::InvalidTrailingBits => write!(f, "Invalid trailing bits"),
         }
     }
 }
@@ -46,10 +48,18 @@ impl<'a, const N: usize> Decoder<'a, N> {
         let mut accumulator: usize = 0;
         let mut bits: usize = 0;
         let mut output_index = 0;
+        let mut padding = false;
         for (input_index, &value) in input.as_ref().iter().enumerate() {
             if value == 0x3d {
+                padding = true;
                 continue;
             }
+            if padding {
+                return Err(Error::InvalidCharacter {
+                    character: '=',
+                    index: input_index - 1,
+                });
+            }
             let byte = self.alphabet.decode(value, input_index)?;
             accumulator = (accumulator << self.bits) | (byte as usize);
             bits += self.bits;
@@ -60,7 +70,9 @@ impl<'a, const N: usize> Decoder<'a, N> {
                 accumulator = accumulator & ((1 << bits) - 1);
             }
         }
-        assert!(accumulator == 0);
+        if accumulator != 0 || bits >= self.bits {
+            return Err(Error::InvalidTrailingBits);
+        }
         Ok(output_index)
     }
 
-- 
2.43.0


From 09bc40d0fea2ed28863cbb66a504fd084ce55ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:18 +0000
Subject: [PATCH 10/19] fix: a query parameter does not replace the path
 parameter of the same name

---
 src/server.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index 4fe8f7c..bc4637a 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -129,7 +129,8 @@ impl<S> Router<S> {
     pub async fn route(&self, request: Request<Body>, body: Vec<u8>) -> Response<Body> {
         println!("{} {}", request.method(), request.uri());
         for route in &self.routes {
-            if let Some(mut parameters) = route.check(&request) {
+            if let Some(path_parameters) = route.check(&request) {
+                let mut parameters = HashMap::new();
                 if let Some(query) = request.uri().query() {
                     for part in query.split('&') {
                         let parts: Vec<&str> = part.split('=').collect();
@@ -138,6 +139,7 @@ impl<S> Router<S> {
                         }
                     }
                 }
+                parameters.extend(path_parameters);
                 return (route.handler)(request, parameters, body, self.state.clone()).await;
             }
         }
-- 
2.43.0


From 24316d94f79e0acb5097da2761994ace5a4ff4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:36 +0000
Subject: [PATCH 11/19] fix: ignore repeated copies of a block in the block
 files

---
 src/block_file_reader.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/block_file_reader.rs b/src/block_file_reader.rs
index 635647e..84a2e09 100644
--- a/src/block_file_reader.rs
+++ b/src/block_file_reader.rs
@@ -61,6 +61,9 @@ impl BlockFileReader {
         let mut hashmap = HashMap::with_capacity(blocks.len());
         let mut reverse_hashmap = HashMap::with_capacity(blocks.len());
         for block in blocks {
+            if hashmap.contains_key(&block.hash()) {
+                continue;
+            }
             match reverse_hashmap.get_mut(&block.previous_block_hash()) {
                 None => {
                     reverse_hashmap.insert(block.previous_block_hash(), vec![block.hash()]);
-- 
2.43.0


From 51936ea0bcf879753840e8a0e19782a25b7f0847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:38 +0000
Subject: [PATCH 12/19] fix: ignore files of the block directory whose name is
 not UTF-8

---
 src/block_file_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/block_file_reader.rs b/src/block_file_reader.rs
index 84a2e09..0b93677 100644
--- a/src/block_file_reader.rs
+++ b/src/block_file_reader.rs
@@ -49,7 +49,7 @@ impl BlockFileReader {
         let regex = Regex::new(r"^blk[0-9]{5}\.dat$").unwrap();
         let mut file_names: Vec<_> = read_dir(&self.path)
             .expect(&format!("Could not list files of directory {}", &self.path))
-            .map(|entry| entry.unwrap().file_name().into_string().unwrap())
+            .filter_map(|entry| entry.unwrap().file_name().into_string().ok())
             .filter(|file_name| regex.is_match(file_name))
             .collect();
         file_names.sort();
-- 
2.43.0


From ea796f562480f768be100c1d4fcdc80628b13781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:39 +0000
Subject: [PATCH 13/19] fix: refuse settings that are not UTF-8 instead of
 using the default

---
 src/configuration.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/configuration.rs b/src/configuration.rs
index 51b0026..92322f3 100644
--- a/src/configuration.rs
+++ b/src/configuration.rs
@@ -19,14 +19,15 @@ pub struct Configuration {
 fn var(key: &str, default: Option<String>) -> Result<String, String> {
     match env::var(key) {
         Ok(value) => Ok(value),
-        Err(_) => default.ok_or(format!("Missing {}", key)),
+        Err(env::VarError::NotPresent) => default.ok_or(format!("Missing {}", key)),
+        Err(env::VarError::NotUnicode(value)) => Err(format!("Invalid {} {:?}", key, value)),
     }
 }
 
 fn var_map<T, E: error::Error>(key: &str, mut f: impl FnMut(&str) -> Result<T, E>, default: Option<T>) -> Result<T, String> {
-    match var(key, None) {
-        Ok(value) => f(&value).map_err(|_| format!("Invalid {} {}", key, value)),
-        Err(err) => default.ok_or(err),
+    match default {
+        Some(default) if env::var(key) == Err(env::VarError::NotPresent) => Ok(default),
+        _ => var(key, None).and_then(|value| f(&value).map_err(|_| format!("Invalid {} {}", key, value))),
     }
 }
 
-- 
2.43.0


From d6fa476d61e505fd285f55089fd4e22ef963fe4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:40 +0000
Subject: [PATCH 14/19] fix: report a runtime that cannot be created to the
 executor

---
 src/executor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/executor.rs b/src/executor.rs
index 22c85d1..c17b8e3 100644
--- a/src/executor.rs
+++ b/src/executor.rs
@@ -1,5 +1,6 @@
 use std::{
     future::Future,
+    panic::{catch_unwind, AssertUnwindSafe},
     sync::mpsc::{channel, Receiver, Sender},
     thread::{spawn, Result},
 };
@@ -24,8 +25,7 @@ impl Executor {
     {
         let sender = self.sender.clone();
         spawn(move || {
-            let runtime = Runtime::new().unwrap();
-            let result = spawn(move || runtime.block_on(f(state))).join();
+            let result = catch_unwind(AssertUnwindSafe(|| Runtime::new().unwrap().block_on(f(state))));
             #[allow(unused_must_use)]
             {
                 sender.send(result);
-- 
2.43.0


From e8e2d5ad752ff34b21807ed701e187f2b135d114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:42 +0000
Subject: [PATCH 15/19] fix: do not ignore query parameters without a '=' or
 with several

---
 src/server.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index bc4637a..6d51fc8 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -133,10 +133,10 @@ impl<S> Router<S> {
                 let mut parameters = HashMap::new();
                 if let Some(query) = request.uri().query() {
                     for part in query.split('&') {
-                        let parts: Vec<&str> = part.split('=').collect();
-                        if parts.len() == 2 {
-                            parameters.insert(parts[0].to_string(), parts[1].to_string());
-                        }
+                        let mut parts = part.splitn(2, '=');
+                        let name = parts.next().unwrap_or("");
+                        let value = parts.next().unwrap_or("");
+                        parameters.insert(name.to_string(), value.to_string());
                     }
                 }
                 parameters.extend(path_parameters);
-- 
2.43.0


From e8ad285814ddef1cc27c6463788f3112b420456a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:43 +0000
Subject: [PATCH 16/19] fix: refuse mempool transaction ids of the wrong length

---
 src/client.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/client.rs b/src/client.rs
index 32f56a3..600ad1c 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -76,7 +76,8 @@ impl Client {
             .iter()
             .map(|hash| {
                 let mut result = [0u8; 32];
-                reverse_hex::decode_into(hash, &mut result).unwrap();
+                let len = reverse_hex::decode_into(hash, &mut result).unwrap();
+                assert_eq!(len, result.len());
                 result
             })
             .collect()
-- 
2.43.0


From 048fc1838b9524a1732e818b198ad2342e961a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:00 +0000
Subject: [PATCH 17/19] fix: refuse an unusable RPC_SERVER_HOST at start

---
 src/configuration.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/configuration.rs b/src/configuration.rs
index 92322f3..c03de41 100644
--- a/src/configuration.rs
+++ b/src/configuration.rs
@@ -1,3 +1,5 @@
+use crate::Error;
+use hyper::Uri;
 use std::{env, error, net::IpAddr, num::NonZeroUsize};
 
 #[derive(Debug, Clone)]
@@ -49,7 +51,15 @@ impl Configuration {
         )
         .unwrap()
         .get();
-        let rpc_server_host = var("RPC_SERVER_HOST", None).unwrap();
+        let rpc_server_host = var_map(
+            "RPC_SERVER_HOST",
+            |host| match format!("http://{}:0", host).parse::<Uri>() {
+                Ok(uri) if !host.is_empty() && uri.host() == Some(host) => Ok(host.to_string()),
+                _ => Err(Error::new("not a host")),
+            },
+            None,
+        )
+        .unwrap();
         let rpc_server_port = var_map("RPC_SERVER_PORT", |port| port.parse(), None).unwrap();
         let rpc_server_user = var("RPC_SERVER_USER", None).unwrap();
         let rpc_server_password = var("RPC_SERVER_PASSWORD", None).unwrap();
-- 
2.43.0


From cec06364c054917c16beec23b4633c5dc15ec6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:01 +0000
Subject: [PATCH 18/19] fix: refuse a STORE_FILE_PATH that cannot be a file

---
 src/configuration.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/configuration.rs b/src/configuration.rs
index c03de41..c61c345 100644
--- a/src/configuration.rs
+++ b/src/configuration.rs
@@ -1,6 +1,6 @@
 use crate::Error;
 use hyper::Uri;
-use std::{env, error, net::IpAddr, num::NonZeroUsize};
+use std::{env, error, net::IpAddr, num::NonZeroUsize, path::Path};
 
 #[derive(Debug, Clone)]
 pub struct Configuration {
@@ -41,7 +41,15 @@ impl Configuration {
         let batch_size = var_map("BATCH_SIZE", |batch_size| batch_size.parse::<NonZeroUsize>(), None)
             .unwrap()
             .get();
-        let store_file_path = var("STORE_FILE_PATH", None).unwrap();
+        let store_file_path = var_map(
+            "STORE_FILE_PATH",
+            |path| match path.is_empty() || path.ends_with('/') || Path::new(path).is_dir() {
+                true => Err(Error::new("not a file path")),
+                false => Ok(path.to_string()),
+            },
+            None,
+        )
+        .unwrap();
         let block_files_path = var("BLOCK_FILES_PATH", None).unwrap();
         let update_interval = var_map("UPDATE_INTERVAL", |interval| interval.parse(), Some(1000)).unwrap();
         let confirmations = var_map(
-- 
2.43.0


From 569cf546374dce840f219be11762934f7c10ace5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:38 +0000
Subject: [PATCH 19/19] fix: accept block files numbered beyond 99999

---
 src/block_file_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/block_file_reader.rs b/src/block_file_reader.rs
index 0b93677..9686e7e 100644
--- a/src/block_file_reader.rs
+++ b/src/block_file_reader.rs
@@ -46,7 +46,7 @@ impl BlockFileReader {
     }
 
     fn file_names(&self) -> Vec<String> {
-        let regex = Regex::new(r"^blk[0-9]{5}\.dat$").unwrap();
+        let regex = Regex::new(r"^blk([0-9]{5}|[1-9][0-9]{5,})\.dat$").unwrap();
         let mut file_names: Vec<_> = read_dir(&self.path)
             .expect(&format!("Could not list files of directory {}", &self.path))
             .filter_map(|entry| entry.unwrap().file_name().into_string().ok())
-- 
2.43.0

