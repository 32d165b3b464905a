From 79232a963756e774b20e04b281e0a8ce786b9506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:15 +0000
Subject: [PATCH 01/16] fix: base58 encode_into only touches the bytes it
 produced

Mapping the whole output buffer through the alphabet panicked or depended on
the buffer's earlier content when it was larger than the text.
---
 src/base58/encode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base58/encode.rs b/src/base58/encode.rs
index b1ffedd..220cad7 100644
--- a/src/base58/encode.rs
+++ b/src/base58/encode.rs
@@ -49,7 +49,7 @@ impl<'a> Encoder<'a> {
             *output.get_mut(index).ok_or(Error::BufferTooSmall)? = 0;
             index += 1;
         }
-        for value in &mut output[..] {
+        for value in &mut output[..index] {
             *value = self.alphabet.encode(*value as usize);
         }
         output[0..index].reverse();
-- 
2.43.0


From fe93e4bf03b45c3094dc9f08b606cfaf0297c2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:00 +0000
Subject: [PATCH 02/16] fix: base64 decoding reports non-zero trailing bits as
 an error instead of panicking

---
 src/base_binary/decode.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/base_binary/decode.rs b/src/base_binary/decode.rs
index abf55a3..86f6020 100644
--- a/src/base_binary/decode.rs
+++ b/src/base_binary/decode.rs
@@ -7,6 +7,7 @@ pub enum Error {
     BufferTooSmall,
     NonAsciiCharacter { character: u8, index: usize },
     InvalidCharacter { character: char, index: usize },
+    InvalidTrailingBits,
 }
 
 impl error::Error for Error {}
@@ -17,6 +18,7 @@ impl fmt::Display for Error {
             Self::BufferTooSmall => write!(f, "Output buffer too small"),
             Self::InvalidCharacter { character, index } => write!(f, "Invalid character '{}' at index {}", character, index),
             Self::NonAsciiCharacter { character, index } => write!(f, "Non-ascii character {:#02x} at index {}", character, index),
+            Self::InvalidTrailingBits => write!(f, "Invalid trailing bits"),
         }
     }
 }
@@ -60,7 +62,9 @@ impl<'a, const N: usize> Decoder<'a, N> {
                 accumulator = accumulator & ((1 << bits) - 1);
             }
         }
-        assert!(accumulator == 0);
+        if accumulator != 0 {
+            return Err(Error::InvalidTrailingBits);
+        }
         Ok(output_index)
     }
 
-- 
2.43.0


From 473b825fad75ff01cf4f7d622234489b17fb85fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:25 +0000
Subject: [PATCH 03/16] fix: save the index through a temporary file so that a
 crash never loses it

---
 src/store/store.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/store/store.rs b/src/store/store.rs
index 20e635d..1860f1a 100644
--- a/src/store/store.rs
+++ b/src/store/store.rs
@@ -3,6 +3,7 @@ use super::{
     IntermediaryTransactionStore, IntermediaryTransactionStoreBackend, TransactionStore, TransactionStoreBackendTrait,
 };
 use crate::{Batcher, BlockHeader, BlockTrait, BufferWriter, HashingBufferReader, Logger, PartialLogger, SequentialThreadPool, TryInto};
+use std::{fs::File, io::Write};
 
 #[derive(Debug)]
 pub struct Store<T: TransactionStoreBackendTrait> {
@@ -140,7 +141,11 @@ impl IndexedStore {
         let mut writer = BufferWriter::new();
         self.to_writer(&mut writer, logger);
         logger.log("writing buffer to file...");
-        std::fs::write(path, writer.buffer()).unwrap();
+        let temporary_path = format!("{}.tmp", path);
+        let mut file = File::create(&temporary_path).unwrap();
+        file.write_all(&writer.buffer()).unwrap();
+        file.sync_all().unwrap();
+        std::fs::rename(&temporary_path, path).unwrap();
         logger.log("writing buffer to file done!");
         logger.log("writing store to file done!");
     }
-- 
2.43.0


From 1450111a294c0917c3d1d417394113ce333aa45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:12 +0000
Subject: [PATCH 04/16] fix: a panic in a worker thread reaches the consumer of
 the pool instead of silently ending its results

---
 src/thread_pool.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/thread_pool.rs b/src/thread_pool.rs
index bd02761..84888e5 100644
--- a/src/thread_pool.rs
+++ b/src/thread_pool.rs
@@ -1,13 +1,15 @@
 use std::{
+    panic::resume_unwind,
     sync::{
         mpsc::{channel, Receiver},
         Arc, Mutex,
     },
-    thread::spawn,
+    thread::{spawn, JoinHandle},
 };
 
 pub struct ThreadPool<Output> {
     output_receiver: Receiver<Output>,
+    workers: Vec<JoinHandle<()>>,
 }
 
 impl<Output> ThreadPool<Output>
@@ -24,11 +26,12 @@ where
         let (output_sender, output_receiver) = channel();
 
         let process_fn = Arc::new(process_fn);
+        let mut workers = Vec::with_capacity(threads);
         for _ in 0..threads {
             let input_receiver = input_receiver.clone();
             let output_sender = output_sender.clone();
             let process_fn = process_fn.clone();
-            spawn(move || loop {
+            workers.push(spawn(move || loop {
                 let input = input_receiver.lock().unwrap().recv();
                 match input {
                     Ok(input) => {
@@ -39,12 +42,12 @@ where
                         break;
                     }
                 }
-            });
+            }));
         }
         for input in inputs {
             input_sender.send(input).unwrap()
         }
-        Self { output_receiver }
+        Self { output_receiver, workers }
     }
 }
 
@@ -52,6 +55,16 @@ impl<Output> Iterator for ThreadPool<Output> {
     type Item = Output;
 
     fn next(&mut self) -> Option<Self::Item> {
-        self.output_receiver.recv().ok()
+        match self.output_receiver.recv() {
+            Ok(output) => Some(output),
+            Err(_) => {
+                for worker in self.workers.drain(..) {
+                    if let Err(error) = worker.join() {
+                        resume_unwind(error);
+                    }
+                }
+                None
+            }
+        }
     }
 }
-- 
2.43.0


From 40a4d41eb6e3d921cd104330d4f882d77cf5cab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:03 +0000
Subject: [PATCH 05/16] fix: first update without new blocks no longer panics
 when one confirmation is configured

---
 src/state.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/state.rs b/src/state.rs
index af43455..890c7d4 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -64,8 +64,8 @@ impl State {
         let mut augmentations = self.augmentations.write().await;
         match update {
             Update::LastAugmentationUpdate(augmentation) => {
-                let index = augmentations.len() - 1;
-                augmentations[index] = augmentation;
+                augmentations.pop();
+                augmentations.push(augmentation);
                 false
             }
             Update::AugmentationsUpdate(updated_augmentations, blocks) => {
-- 
2.43.0


From 95e8ff15adaf2c974ea7ad0b920b3f55460ebca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:33 +0000
Subject: [PATCH 06/16] fix: an update during a save keeps its blocks for later
 instead of panicking, and the save really holds its lock

---
 src/state.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/state.rs b/src/state.rs
index 890c7d4..7b80044 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -53,7 +53,7 @@ impl State {
             } else {
                 tail_blocks.augmentations(&store)
             };
-            assert!(augmentations.len() == self.confirmations);
+            assert!(augmentations.len() >= self.confirmations);
             Update::AugmentationsUpdate(augmentations, blocks)
         } else {
             Update::LastAugmentationUpdate(tail_blocks.last_augmentation(&store))
@@ -164,7 +164,7 @@ impl State {
     }
 
     pub async fn write(&self, file: &str) {
-        let _ = self.mutex.lock().await;
+        let _guard = self.mutex.lock().await;
         let store = self.store.read().await;
         let logger = Logger::new();
         store.to_file(file, &logger);
-- 
2.43.0


From 9337abd22f5555aa7bcbba75ca608771bf9cb813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:28 +0000
Subject: [PATCH 07/16] fix: a block stored several times counts once when the
 longest chain is searched

---
 src/block_file_reader.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/block_file_reader.rs b/src/block_file_reader.rs
index e390488..fd22182 100644
--- a/src/block_file_reader.rs
+++ b/src/block_file_reader.rs
@@ -61,6 +61,9 @@ impl BlockFileReader {
         let mut hashmap = HashMap::with_capacity(blocks.len());
         let mut reverse_hashmap = HashMap::with_capacity(blocks.len());
         for block in blocks {
+            if hashmap.contains_key(&block.hash()) {
+                continue;
+            }
             match reverse_hashmap.get_mut(&block.previous_block_hash()) {
                 None => {
                     reverse_hashmap.insert(block.previous_block_hash(), vec![block.hash()]);
-- 
2.43.0


From 4b68275e3453eebb1257787b19b7132c7d54babe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:53 +0000
Subject: [PATCH 08/16] fix: zero padding shorter than a block header ends a
 block file instead of stopping the start-up

---
 src/block_file_reader.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/block_file_reader.rs b/src/block_file_reader.rs
index fd22182..2002f49 100644
--- a/src/block_file_reader.rs
+++ b/src/block_file_reader.rs
@@ -114,8 +114,14 @@ impl BlockFileReader {
         let mut offset = 0;
         let mut blocks = Vec::new();
         loop {
-            let bytes = file.read(&mut buffer).unwrap();
-            if bytes == 0 {
+            let mut bytes = 0;
+            while bytes < buffer.len() {
+                match file.read(&mut buffer[bytes..]).unwrap() {
+                    0 => break,
+                    count => bytes += count,
+                }
+            }
+            if buffer[..bytes].iter().all(|&byte| byte == 0) {
                 break;
             }
             assert!(bytes == 88);
-- 
2.43.0


From 7e69bf66fbf2de06f98aec80f8d766ea5ae026b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:53 +0000
Subject: [PATCH 09/16] fix: a file whose name is not valid text is ignored
 like other files that are not block files

---
 src/block_file_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/block_file_reader.rs b/src/block_file_reader.rs
index 2002f49..2475381 100644
--- a/src/block_file_reader.rs
+++ b/src/block_file_reader.rs
@@ -49,7 +49,7 @@ impl BlockFileReader {
         let regex = Regex::new(r"^blk[0-9]{5}\.dat$").unwrap();
         let mut file_names: Vec<_> = read_dir(&self.path)
             .expect(&format!("Could not list files of directory {}", &self.path))
-            .map(|entry| entry.unwrap().file_name().into_string().unwrap())
+            .filter_map(|entry| entry.unwrap().file_name().into_string().ok())
             .filter(|file_name| regex.is_match(file_name))
             .collect();
         file_names.sort();
-- 
2.43.0


From 041eda2c46d247397c7efc37dced9b0c4ed8329c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:48 +0000
Subject: [PATCH 10/16] fix: a system clock that is set back no longer stops
 whatever is being logged

---
 src/chronometer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chronometer.rs b/src/chronometer.rs
index aaeee76..e14896d 100644
--- a/src/chronometer.rs
+++ b/src/chronometer.rs
@@ -11,7 +11,7 @@ impl Chronometer {
     }
 
     pub fn elapsed(&self) -> String {
-        let elapsed = SystemTime::now().duration_since(self.start).unwrap().as_millis();
+        let elapsed = SystemTime::now().duration_since(self.start).unwrap_or_default().as_millis();
         format!("{:02}:{:02}.{:03}", elapsed / 60000, (elapsed % 60000) / 1000, elapsed % 1000)
     }
 }
-- 
2.43.0


From 1de3589dbf1e4dc9dcb572ed85aafbcaab06673d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:00 +0000
Subject: [PATCH 11/16] fix: a setting whose value is not valid text stops the
 start instead of being replaced by its default

---
 src/configuration.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/configuration.rs b/src/configuration.rs
index 3126388..c0ff830 100644
--- a/src/configuration.rs
+++ b/src/configuration.rs
@@ -26,7 +26,10 @@ fn var(key: &str, default: Option<String>) -> Result<String, String> {
 fn var_map<T, E: error::Error>(key: &str, mut f: impl FnMut(&str) -> Result<T, E>, default: Option<T>) -> Result<T, String> {
     match var(key, None) {
         Ok(value) => f(&value).map_err(|_| format!("Invalid {} {}", key, value)),
-        Err(err) => default.ok_or(err),
+        Err(err) => match env::var_os(key) {
+            Some(_) => Err(format!("Invalid {}", key)),
+            None => default.ok_or(err),
+        },
     }
 }
 
-- 
2.43.0


From 1cb45d9170b12e61829bfeea48676c3f8c4267ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:35 +0000
Subject: [PATCH 12/16] fix: a query parameter no longer replaces the address
 of the path

---
 src/server.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index 4fe8f7c..bc4637a 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -129,7 +129,8 @@ impl<S> Router<S> {
     pub async fn route(&self, request: Request<Body>, body: Vec<u8>) -> Response<Body> {
         println!("{} {}", request.method(), request.uri());
         for route in &self.routes {
-            if let Some(mut parameters) = route.check(&request) {
+            if let Some(path_parameters) = route.check(&request) {
+                let mut parameters = HashMap::new();
                 if let Some(query) = request.uri().query() {
                     for part in query.split('&') {
                         let parts: Vec<&str> = part.split('=').collect();
@@ -138,6 +139,7 @@ impl<S> Router<S> {
                         }
                     }
                 }
+                parameters.extend(path_parameters);
                 return (route.handler)(request, parameters, body, self.state.clone()).await;
             }
         }
-- 
2.43.0


From 4b5e9ee920867e66c98339b1975198366e0a54f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:05 +0000
Subject: [PATCH 13/16] fix: a query parameter without a value or with a second
 = is no longer ignored

---
 src/server.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index bc4637a..92866d6 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -133,10 +133,8 @@ impl<S> Router<S> {
                 let mut parameters = HashMap::new();
                 if let Some(query) = request.uri().query() {
                     for part in query.split('&') {
-                        let parts: Vec<&str> = part.split('=').collect();
-                        if parts.len() == 2 {
-                            parameters.insert(parts[0].to_string(), parts[1].to_string());
-                        }
+                        let (name, value) = part.split_once('=').unwrap_or((part, ""));
+                        parameters.insert(name.to_string(), value.to_string());
                     }
                 }
                 parameters.extend(path_parameters);
-- 
2.43.0


From 679a65ff6e46962e2a5476cc7b672d38b97d2138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:01 +0000
Subject: [PATCH 14/16] fix: block files with fewer blocks than are left out no
 longer stop the start

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 6debe75..55d3ae3 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -77,7 +77,7 @@ fn main() {
         None => {
             let reader = BlockFileReader::new(configuration.block_files_path());
             let mut blocks = reader.blocks(configuration.threads(), &logger);
-            blocks.truncate(blocks.len() - configuration.confirmations() + 1);
+            blocks.truncate((blocks.len() + 1).saturating_sub(configuration.confirmations()));
             let store = IndexedStore::from_blocks(blocks, configuration.threads(), configuration.batch_size(), logger);
             store.to_file(configuration.store_file_path(), &logger);
             store
-- 
2.43.0


From 8d3a72cadb271bc36e867b3845a59445521946c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:02 +0000
Subject: [PATCH 15/16] fix: the first update of an empty index starts at the
 first block instead of panicking

---
 src/last_blocks.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/last_blocks.rs b/src/last_blocks.rs
index 68f2650..eb1ccb6 100644
--- a/src/last_blocks.rs
+++ b/src/last_blocks.rs
@@ -38,7 +38,7 @@ impl<'a> BlockUpdater<'a> {
 
     fn last_block_hash(&self) -> [u8; 32] {
         match self.blocks.len() {
-            0 => self.store.last_block_hash().unwrap(),
+            0 => self.store.last_block_hash().unwrap_or([0; 32]),
             n => self.blocks[n - 1].hash(),
         }
     }
-- 
2.43.0


From 44fa3f8316694ab2c959af592c458158cb04b2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:02 +0000
Subject: [PATCH 16/16] fix: a task whose thread or runtime cannot be started
 is a failed task, not a lost one

---
 src/executor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/executor.rs b/src/executor.rs
index 22c85d1..c17b8e3 100644
--- a/src/executor.rs
+++ b/src/executor.rs
@@ -1,5 +1,6 @@
 use std::{
     future::Future,
+    panic::{catch_unwind, AssertUnwindSafe},
     sync::mpsc::{channel, Receiver, Sender},
     thread::{spawn, Result},
 };
@@ -24,8 +25,7 @@ impl Executor {
     {
         let sender = self.sender.clone();
         spawn(move || {
-            let runtime = Runtime::new().unwrap();
-            let result = spawn(move || runtime.block_on(f(state))).join();
+            let result = catch_unwind(AssertUnwindSafe(|| Runtime::new().unwrap().block_on(f(state))));
             #[allow(unused_must_use)]
             {
                 sender.send(result);
-- 
2.43.0

