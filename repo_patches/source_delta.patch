From a19ad258ac34f441581968320ad4756e127e686e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:52 +0000
Subject: [PATCH 01/14] fix: keep buffer and address in sync when a write
 callback panics

---
 measureme/src/serialization.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/measureme/src/serialization.rs b/measureme/src/serialization.rs
index 487504e..18fe1c4 100644
--- a/measureme/src/serialization.rs
+++ b/measureme/src/serialization.rs
@@ -172,6 +172,18 @@ struct SerializationSinkInner {
     addr: u64,
 }
 
+/// Truncates `buffer` back to `len` bytes when dropped.
+struct TruncateOnDrop<'a> {
+    buffer: &'a mut Vec<u8>,
+    len: usize,
+}
+
+impl<'a> Drop for TruncateOnDrop<'a> {
+    fn drop(&mut self) {
+        self.buffer.truncate(self.len);
+    }
+}
+
 /// This state is shared between all `SerializationSink`s writing to the same
 /// backing storage (e.g. the same file).
 #[derive(Clone, Debug)]
@@ -323,8 +335,17 @@ impl SerializationSink {
 
         let buf_start = buffer.len();
         let buf_end = buf_start + num_bytes;
-        buffer.resize(buf_end, 0u8);
-        write(&mut buffer[buf_start..buf_end]);
+
+        // If `write` panics, the space reserved for it must be given back.
+        // Otherwise `buffer` would get out of sync with `addr`, and all data
+        // written later would end up at a different address than reported.
+        let guard = TruncateOnDrop {
+            buffer,
+            len: buf_start,
+        };
+        guard.buffer.resize(buf_end, 0u8);
+        write(&mut guard.buffer[buf_start..buf_end]);
+        std::mem::forget(guard);
 
         *addr += num_bytes as u64;
 
-- 
2.43.0


From 5bc98cfd2b98d0e2538a372ea3bfa45fa801831b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:52 +0000
Subject: [PATCH 02/14] fix: never append pages to a storage that may end in a
 torn page

---
 measureme/src/serialization.rs | 36 +++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/measureme/src/serialization.rs b/measureme/src/serialization.rs
index 18fe1c4..06c8fb6 100644
--- a/measureme/src/serialization.rs
+++ b/measureme/src/serialization.rs
@@ -118,6 +118,10 @@ impl SerializationSinkBuilder {
 enum BackingStorage {
     File(fs::File),
     Memory(Vec<u8>),
+    /// Writing a page has failed, so the storage might end in the middle of a
+    /// page. Nothing may be appended anymore because readers would take it for
+    /// the missing part of that page.
+    Failed,
 }
 
 impl Write for BackingStorage {
@@ -126,6 +130,7 @@ impl Write for BackingStorage {
         match *self {
             BackingStorage::File(ref mut file) => file.write(buf),
             BackingStorage::Memory(ref mut vec) => vec.write(buf),
+            BackingStorage::Failed => Err(storage_failed()),
         }
     }
 
@@ -136,10 +141,18 @@ impl Write for BackingStorage {
                 // Nothing to do
                 Ok(())
             }
+            BackingStorage::Failed => Err(storage_failed()),
         }
     }
 }
 
+fn storage_failed() -> std::io::Error {
+    std::io::Error::new(
+        std::io::ErrorKind::Other,
+        "a previous write to the backing storage has failed",
+    )
+}
+
 /// This struct allows to treat `SerializationSink` as `std::io::Write`.
 pub struct StdWriteAdapter<'a>(&'a SerializationSink);
 
@@ -197,7 +210,7 @@ impl SharedState {
     fn copy_bytes_with_page_tag(&self, page_tag: PageTag) -> Vec<u8> {
         let data = self.0.lock();
         let data = match *data {
-            BackingStorage::File(_) => panic!(),
+            BackingStorage::File(_) | BackingStorage::Failed => panic!(),
             BackingStorage::Memory(ref data) => data,
         };
 
@@ -260,11 +273,17 @@ impl SerializationSink {
 
             let mut file = self.shared_state.0.lock();
 
-            file.write_all(&[self.page_tag as u8]).unwrap();
-
             let page_size: [u8; 4] = (bytes.len() as u32).to_le_bytes();
-            file.write_all(&page_size).unwrap();
-            file.write_all(&bytes[..]).unwrap();
+
+            let result = file
+                .write_all(&[self.page_tag as u8])
+                .and_then(|()| file.write_all(&page_size))
+                .and_then(|()| file.write_all(&bytes[..]));
+
+            if let Err(error) = result {
+                *file = BackingStorage::Failed;
+                panic!("failed to write a page of profiling data: {}", error);
+            }
         }
     }
 
@@ -427,6 +446,13 @@ impl SerializationSink {
 
 impl Drop for SerializationSink {
     fn drop(&mut self) {
+        // If the storage has failed then that has been reported already, so
+        // don't turn a panic in progress into an abort by reporting it again.
+        if std::thread::panicking() && matches!(*self.shared_state.0.lock(), BackingStorage::Failed)
+        {
+            return;
+        }
+
         let mut data = self.data.lock();
         let SerializationSinkInner {
             ref mut buffer,
-- 
2.43.0


From 6113cdfe78abc0c50c81f24e33b154787edfc3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:52 +0000
Subject: [PATCH 03/14] fix: recognize single-reference strings by their
 length, not by their position

---
 decodeme/src/stringtable.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decodeme/src/stringtable.rs b/decodeme/src/stringtable.rs
index b600937..9476994 100644
--- a/decodeme/src/stringtable.rs
+++ b/decodeme/src/stringtable.rs
@@ -65,7 +65,7 @@ impl<'st> StringRef<'st> {
 
         // Check if this is a string containing a single StringId component
         let first_byte = self.table.string_data[pos];
-        if first_byte == STRING_REF_TAG && terminator_pos == pos + STRING_REF_ENCODED_SIZE {
+        if first_byte == STRING_REF_TAG && terminator_pos == STRING_REF_ENCODED_SIZE {
             let id = decode_string_ref_from_data(&self.table.string_data[pos..]);
             return StringRef {
                 id,
-- 
2.43.0


From 7858210d74cb91f45e4d9be9558d6dfd13d4f4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:52 +0000
Subject: [PATCH 04/14] fix: write the command line as valid JSON, whatever it
 contains

---
 measureme/src/profiler.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/measureme/src/profiler.rs b/measureme/src/profiler.rs
index 0fdf417..3c233ff 100644
--- a/measureme/src/profiler.rs
+++ b/measureme/src/profiler.rs
@@ -53,8 +53,8 @@ impl Profiler {
         };
 
         let mut args = String::new();
-        for arg in std::env::args() {
-            args.push_str(&arg.escape_default().to_string());
+        for arg in std::env::args_os() {
+            escape_json_into(&arg.to_string_lossy(), &mut args);
             args.push(' ');
         }
 
@@ -179,6 +179,21 @@ impl Profiler {
     }
 }
 
+/// Appends `text` to `output`, escaped such that it can be put between the
+/// quotes of a JSON string.
+fn escape_json_into(text: &str, output: &mut String) {
+    for c in text.chars() {
+        match c {
+            '"' | '\\' => {
+                output.push('\\');
+                output.push(c);
+            }
+            '\0'..='\u{1f}' => output.push_str(&format!("\\u{:04x}", c as u32)),
+            _ => output.push(c),
+        }
+    }
+}
+
 /// Created by `Profiler::start_recording_interval_event_detached`.
 /// Must be passed to `finish_recording_interval_event` to record an
 /// "end" event.
-- 
2.43.0


From c7f6504aa30a6c23d9052de40093933da7e33848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:57 +0000
Subject: [PATCH 05/14] fix: mmview lists traces that only contain integer
 events

---
 mmview/src/main.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mmview/src/main.rs b/mmview/src/main.rs
index 79989f9..f3715c4 100644
--- a/mmview/src/main.rs
+++ b/mmview/src/main.rs
@@ -18,7 +18,14 @@ fn main() -> Result<(), Box<dyn Error + Send + Sync>> {
 
     let data = ProfilingData::new(&opt.file_prefix)?;
 
-    if let Some(global_start_time) = data.iter().filter_map(|e| e.start()).min() {
+    if data.num_events() > 0 {
+        // Integer events do not have a timestamp, so there might be no start time at all.
+        let global_start_time = data
+            .iter()
+            .filter_map(|e| e.start())
+            .min()
+            .unwrap_or(SystemTime::UNIX_EPOCH);
+
         for event in data.iter() {
             if let Some(thread_id) = opt.thread_id {
                 if event.thread_id != thread_id {
-- 
2.43.0


From 6f63aedd6f0ed6c40cf220417968429a6a4f869e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:57 +0000
Subject: [PATCH 06/14] fix: summarize does not hide the incremental hashing
 column if it has values

---
 summarize/src/main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/summarize/src/main.rs b/summarize/src/main.rs
index 9c3ce65..e97273d 100644
--- a/summarize/src/main.rs
+++ b/summarize/src/main.rs
@@ -214,7 +214,11 @@ fn summarize(opt: SummarizeOpt) -> Result<(), Box<dyn Error + Send + Sync>> {
             has_incremental_hashing_time = true;
         }
 
-        if has_cache_hits && has_blocked_time && has_incremental_load_time {
+        if has_cache_hits
+            && has_blocked_time
+            && has_incremental_load_time
+            && has_incremental_hashing_time
+        {
             break;
         }
     }
-- 
2.43.0


From 435e50c26a4e58e0bad0f29edb4ade6d3bf7c42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:57 +0000
Subject: [PATCH 07/14] fix: summarize diff reads previously written JSON
 summaries

---
 summarize/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/summarize/src/main.rs b/summarize/src/main.rs
index e97273d..09a5955 100644
--- a/summarize/src/main.rs
+++ b/summarize/src/main.rs
@@ -60,7 +60,7 @@ enum Opt {
 }
 
 fn process_results(file: &PathBuf) -> Result<AnalysisResults, Box<dyn Error + Send + Sync>> {
-    if file.ends_with("json") {
+    if file.extension().map_or(false, |e| e == "json") {
         let reader = BufReader::new(File::open(&file)?);
 
         let results: AnalysisResults = serde_json::from_reader(reader)?;
-- 
2.43.0


From 58ecfc25127005328a22822cdcd7f1d1973ac7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:57 +0000
Subject: [PATCH 08/14] fix: summarize diff reports no change instead of NaN
 for equal zero times

---
 summarize/src/diff.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/summarize/src/diff.rs b/summarize/src/diff.rs
index d044b89..1091bcc 100644
--- a/summarize/src/diff.rs
+++ b/summarize/src/diff.rs
@@ -126,6 +126,10 @@ impl QueryDataDiff {
 
         fn percentage_change(base: Duration, change: Duration) -> f64 {
             let nanos = change.as_nanos() as i128 - base.as_nanos() as i128;
+            if nanos == 0 {
+                // Also if both are zero
+                return 0.0;
+            }
             nanos as f64 / base.as_nanos() as f64 * 100.0
         }
 
-- 
2.43.0


From af034e76874482977f8ba0c24b987c8248e7e502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:57 +0000
Subject: [PATCH 09/14] fix: the tools report output that could not be written

---
 crox/src/main.rs           | 8 +++++---
 flamegraph/src/main.rs     | 9 ++++++---
 stack_collapse/src/main.rs | 3 +++
 summarize/src/main.rs      | 8 +++++---
 4 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/crox/src/main.rs b/crox/src/main.rs
index f4063a1..8e534e0 100644
--- a/crox/src/main.rs
+++ b/crox/src/main.rs
@@ -1,6 +1,6 @@
 use rustc_hash::FxHashMap;
 use std::fs;
-use std::io::BufWriter;
+use std::io::{BufWriter, Write};
 use std::path::PathBuf;
 use std::time::{Duration, SystemTime, UNIX_EPOCH};
 
@@ -137,8 +137,8 @@ fn get_args(full_event: &analyzeme::Event<'_>) -> Option<FxHashMap<String, Strin
 fn main() -> Result<(), Box<dyn std::error::Error + Send + Sync>> {
     let opt = Opt::parse();
 
-    let chrome_file = BufWriter::new(fs::File::create("chrome_profiler.json")?);
-    let mut serializer = serde_json::Serializer::new(chrome_file);
+    let mut chrome_file = BufWriter::new(fs::File::create("chrome_profiler.json")?);
+    let mut serializer = serde_json::Serializer::new(&mut chrome_file);
 
     let mut seq = serializer.serialize_seq(None)?;
 
@@ -212,6 +212,8 @@ fn main() -> Result<(), Box<dyn std::error::Error + Send + Sync>> {
     }
 
     seq.end()?;
+    // Dropping the `BufWriter` would ignore write errors
+    chrome_file.flush()?;
 
     Ok(())
 }
diff --git a/flamegraph/src/main.rs b/flamegraph/src/main.rs
index 7e9a236..e846c03 100644
--- a/flamegraph/src/main.rs
+++ b/flamegraph/src/main.rs
@@ -1,6 +1,6 @@
 use std::error::Error;
 use std::fs::File;
-use std::io::BufWriter;
+use std::io::{BufWriter, Write};
 use std::path::PathBuf;
 
 use analyzeme::{collapse_stacks, ProfilingData};
@@ -22,18 +22,21 @@ fn main() -> Result<(), Box<dyn Error + Send + Sync>> {
         .map(|(unique_stack, count)| format!("{} {}", unique_stack, count))
         .collect::<Vec<_>>();
 
-    let file = BufWriter::new(File::create("rustc.svg")?);
+    let mut file = BufWriter::new(File::create("rustc.svg")?);
     let mut flamegraph_options = FlamegraphOptions::default();
 
     from_lines(
         &mut flamegraph_options,
         recorded_stacks.iter().map(|s| s.as_ref()),
-        file,
+        &mut file,
     )
     .expect(
         "unable to generate a flamegraph \
          from the collapsed stack data",
     );
 
+    // Dropping the `BufWriter` would ignore write errors
+    file.flush()?;
+
     Ok(())
 }
diff --git a/stack_collapse/src/main.rs b/stack_collapse/src/main.rs
index e243c92..bd7dcc7 100644
--- a/stack_collapse/src/main.rs
+++ b/stack_collapse/src/main.rs
@@ -25,5 +25,8 @@ fn main() -> Result<(), Box<dyn Error + Send + Sync>> {
         writeln!(file, "{} {}", unique_stack, count)?;
     }
 
+    // Dropping the `BufWriter` would ignore write errors
+    file.flush()?;
+
     Ok(())
 }
diff --git a/summarize/src/main.rs b/summarize/src/main.rs
index 09a5955..79d3704 100644
--- a/summarize/src/main.rs
+++ b/summarize/src/main.rs
@@ -5,7 +5,7 @@ use analyzeme::AnalysisResults;
 use analyzeme::ProfilingData;
 use std::error::Error;
 use std::fs::File;
-use std::io::{BufReader, BufWriter};
+use std::io::{BufReader, BufWriter, Write};
 use std::{path::PathBuf, time::Duration};
 
 use clap::Parser;
@@ -76,8 +76,10 @@ fn write_results_json(
     file: &PathBuf,
     results: impl Serialize,
 ) -> Result<(), Box<dyn Error + Send + Sync>> {
-    let file = BufWriter::new(File::create(file.with_extension("json"))?);
-    serde_json::to_writer(file, &results)?;
+    let mut file = BufWriter::new(File::create(file.with_extension("json"))?);
+    serde_json::to_writer(&mut file, &results)?;
+    // Dropping the `BufWriter` would ignore write errors
+    file.flush()?;
     Ok(())
 }
 
-- 
2.43.0


From 3186519936ab80e9a55f492150fd1bc54daf64f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:10 +0000
Subject: [PATCH 10/14] fix: summarize reports tables that could not be printed

---
 summarize/src/main.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/summarize/src/main.rs b/summarize/src/main.rs
index 79d3704..c8c3237 100644
--- a/summarize/src/main.rs
+++ b/summarize/src/main.rs
@@ -142,7 +142,7 @@ fn diff(opt: DiffOpt) -> Result<(), Box<dyn Error + Send + Sync>> {
         ]);
     }
 
-    table.printstd();
+    table.print_tty(false)?;
 
     println!("Total cpu time: {:?}", results.total_time);
 
@@ -162,7 +162,7 @@ fn diff(opt: DiffOpt) -> Result<(), Box<dyn Error + Send + Sync>> {
         ]);
     }
 
-    table.printstd();
+    table.print_tty(false)?;
 
     Ok(())
 }
@@ -290,7 +290,7 @@ fn summarize(opt: SummarizeOpt) -> Result<(), Box<dyn Error + Send + Sync>> {
         ])));
     }
 
-    table.printstd();
+    table.print_tty(false)?;
 
     println!("Total cpu time: {:?}", results.total_time);
 
@@ -312,7 +312,7 @@ fn summarize(opt: SummarizeOpt) -> Result<(), Box<dyn Error + Send + Sync>> {
         ]);
     }
 
-    table.printstd();
+    table.print_tty(false)?;
 
     Ok(())
 }
-- 
2.43.0


From d3f2710856a3d4c8cb8fa285f6525a7f44dd0ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:49 +0000
Subject: [PATCH 11/14] fix: report why perf_event_open failed

---
 measureme/src/counters.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/measureme/src/counters.rs b/measureme/src/counters.rs
index 18d5e63..2470a2c 100644
--- a/measureme/src/counters.rs
+++ b/measureme/src/counters.rs
@@ -373,7 +373,7 @@ mod hw {
                 let fd =
                     perf_event_open(&mut attrs, pid, cpu, group_fd, PERF_FLAG_FD_CLOEXEC.into());
                 if fd < 0 {
-                    Err(std::io::Error::from_raw_os_error(-fd))
+                    Err(std::io::Error::last_os_error())
                 } else {
                     Ok(fs::File::from_raw_fd(fd))
                 }
-- 
2.43.0


From 0c997e0ff0af066be9ca641049a4ef20d688c7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:07 +0000
Subject: [PATCH 12/14] fix: leave flamegraph as it was, inferno already
 flushes its output

---
 flamegraph/src/main.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/flamegraph/src/main.rs b/flamegraph/src/main.rs
index e846c03..7e9a236 100644
--- a/flamegraph/src/main.rs
+++ b/flamegraph/src/main.rs
@@ -1,6 +1,6 @@
 use std::error::Error;
 use std::fs::File;
-use std::io::{BufWriter, Write};
+use std::io::BufWriter;
 use std::path::PathBuf;
 
 use analyzeme::{collapse_stacks, ProfilingData};
@@ -22,21 +22,18 @@ fn main() -> Result<(), Box<dyn Error + Send + Sync>> {
         .map(|(unique_stack, count)| format!("{} {}", unique_stack, count))
         .collect::<Vec<_>>();
 
-    let mut file = BufWriter::new(File::create("rustc.svg")?);
+    let file = BufWriter::new(File::create("rustc.svg")?);
     let mut flamegraph_options = FlamegraphOptions::default();
 
     from_lines(
         &mut flamegraph_options,
         recorded_stacks.iter().map(|s| s.as_ref()),
-        &mut file,
+        file,
     )
     .expect(
         "unable to generate a flamegraph \
          from the collapsed stack data",
     );
 
-    // Dropping the `BufWriter` would ignore write errors
-    file.flush()?;
-
     Ok(())
 }
-- 
2.43.0


From 9f632b0e530d3c7ba2f10183fc21b148695ed4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:54 +0000
Subject: [PATCH 13/14] fix: list artifact sizes of equal change in the same
 order on every run

---
 summarize/src/diff.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/summarize/src/diff.rs b/summarize/src/diff.rs
index 1091bcc..6d559a5 100644
--- a/summarize/src/diff.rs
+++ b/summarize/src/diff.rs
@@ -2,7 +2,7 @@ use analyzeme::{AnalysisResults, ArtifactSize, QueryData};
 use rustc_hash::{FxHashMap, FxHashSet};
 use serde::{Deserialize, Serialize};
 use std::cmp::Ordering;
-use std::collections::HashSet;
+use std::collections::BTreeSet;
 use std::fmt;
 use std::time::Duration;
 
@@ -72,7 +72,7 @@ pub fn calculate_diff(base: AnalysisResults, change: AnalysisResults) -> DiffRes
         .iter()
         .chain(&change.artifact_sizes)
         .map(|a| a.label.as_str())
-        .collect::<HashSet<_>>();
+        .collect::<BTreeSet<_>>();
     let mut artifact_sizes: Vec<_> = all_labels
         .iter()
         .map(|l| {
-- 
2.43.0


From 69a56ac4cc026f8518ea29e68ee813ba1b564970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:04 +0000
Subject: [PATCH 14/14] fix: accept the vertical tab in event id texts

The event id grammar allows every character of [[:space:]] in a <text>,
but u8::is_ascii_whitespace() does not include the vertical tab, so the
reader panicked on such a label.
---
 decodeme/src/event.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/decodeme/src/event.rs b/decodeme/src/event.rs
index 6c254ad..df6112c 100644
--- a/decodeme/src/event.rs
+++ b/decodeme/src/event.rs
@@ -93,9 +93,10 @@ impl<'a> Parser<'a> {
 
         self.pos = end;
 
+        // `[[:space:]]` also has the vertical tab, `is_ascii_whitespace()` does not.
         if self.full_text[start..end]
             .iter()
-            .filter(|x| !x.is_ascii_whitespace())
+            .filter(|&&x| !x.is_ascii_whitespace() && x != b'\x0B')
             .any(u8::is_ascii_control)
         {
             return self.err("Found ASCII control character in <text>");
-- 
2.43.0

