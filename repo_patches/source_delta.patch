From fd12989114c1dc185c51af9a69c178831ead1b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:53 +0000
Subject: [PATCH 01/17] fix: release external-document read guard before
 removing a stale project entry

analysis_workspace_for_uri kept the read guard of external_document_projects alive
for the whole if-let body and then took the write lock of the same RwLock, so the
first request for an external document whose project had been removed deadlocked.
---
 src/server.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index f25bd32..a753130 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -1078,7 +1078,9 @@ impl RubyLanguageServer {
             return Some(workspace);
         }
 
-        if let Some(root_uri) = self.external_document_projects.read().get(uri).cloned() {
+        // Release the read guard before the stale-entry removal below takes the write lock.
+        let retained_root_uri = self.external_document_projects.read().get(uri).cloned();
+        if let Some(root_uri) = retained_root_uri {
             if let Some(workspace) = self
                 .workspaces
                 .read()
-- 
2.43.0


From 05c5bfd6fafefb20bee08a6a9c925e4c8398a3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:53 +0000
Subject: [PATCH 02/17] fix: do not read-lock the document recursively in
 signature help

A didChange writer queued between the two reads deadlocked the request, because
parking_lot readers block behind a queued writer.
---
 src/query/signature_help.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/query/signature_help.rs b/src/query/signature_help.rs
index 0b7aaaf..14c283e 100644
--- a/src/query/signature_help.rs
+++ b/src/query/signature_help.rs
@@ -36,12 +36,17 @@ impl EngineQuery {
         position: Position,
         content: &str,
     ) -> Option<SignatureHelpData> {
-        let document = self.doc.as_ref()?.read();
-        let byte_offset = document.position_to_analysis_offset(source_position(position));
+        // Release the document before `analyzer_at_position` reads it again: a recursive read
+        // deadlocks when a document writer is queued between the two acquisitions.
+        let (byte_offset, file_id) = {
+            let document = self.doc.as_ref()?.read();
+            (
+                document.position_to_analysis_offset(source_position(position)),
+                document.analysis_file_id(),
+            )
+        };
         let analyzer = self.analyzer_at_position(uri, content, position);
         let target = analyzer.get_signature_help_target(byte_offset)?;
-        let file_id = document.analysis_file_id();
-        drop(document);
 
         if matches!(target.receiver, MethodReceiver::Super) {
             return None;
-- 
2.43.0


From 171c30540ab07f6e993838c7410eb83ff27dc233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:53 +0000
Subject: [PATCH 03/17] fix: never hold two document read locks while ordering
 open documents

The comparator read-locked both documents at once in comparison order; two
coordinators with queued writers could wait on each other's documents.
---
 src/indexer/coordinator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/indexer/coordinator.rs b/src/indexer/coordinator.rs
index 109d5ab..1039e8a 100644
--- a/src/indexer/coordinator.rs
+++ b/src/indexer/coordinator.rs
@@ -141,7 +141,7 @@ fn open_project_constant_priority_keys(
     workspace_root: &Path,
 ) -> ActiveDocumentPriorityKeys {
     let mut documents = server.docs.lock().values().cloned().collect::<Vec<_>>();
-    documents.sort_by(|left, right| left.read().uri.cmp(&right.read().uri));
+    documents.sort_by_cached_key(|document| document.read().uri.clone());
     let mut priority_keys = ActiveDocumentPriorityKeys::default();
     for document in documents {
         let document = document.read();
-- 
2.43.0


From d04a00c09d2240feff2e9e18bddf0183470e8a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:17 +0000
Subject: [PATCH 04/17] fix: bound the linter stdin write by the configured
 timeout

A configured linter or formatter that does not read stdin blocked write_all forever
once the source exceeded the pipe buffer, holding the document's semantic lock.
---
 src/linter.rs | 77 ++++++++++++++++++++++++++++-----------------------
 1 file changed, 43 insertions(+), 34 deletions(-)

diff --git a/src/linter.rs b/src/linter.rs
index b4508c4..87fcb3a 100644
--- a/src/linter.rs
+++ b/src/linter.rs
@@ -103,23 +103,28 @@ async fn lint_document_admitted(
          This is a bug because the command is always configured with Stdio::piped(). \
          Fix: keep stdin piped before taking the child handle.",
     );
-    stdin
-        .write_all(content.as_bytes())
-        .await
-        .context("failed to write Ruby source to linter stdin")?;
-    drop(stdin);
-
-    let output = tokio::time::timeout(timeout, child.wait_with_output())
-        .await
-        .map_err(|_| {
-            anyhow!(
-                "{} linter timed out after {} ms while checking {}",
-                config.linter.data_name().unwrap_or("configured"),
-                timeout.as_millis(),
-                file_path.display()
-            )
-        })?
-        .context("failed while waiting for linter process")?;
+    // The source write is part of the bounded run: a linter that never reads stdin must not
+    // block the request once the pipe is full.
+    let output = tokio::time::timeout(timeout, async {
+        stdin
+            .write_all(content.as_bytes())
+            .await
+            .context("failed to write Ruby source to linter stdin")?;
+        drop(stdin);
+        child
+            .wait_with_output()
+            .await
+            .context("failed while waiting for linter process")
+    })
+    .await
+    .map_err(|_| {
+        anyhow!(
+            "{} linter timed out after {} ms while checking {}",
+            config.linter.data_name().unwrap_or("configured"),
+            timeout.as_millis(),
+            file_path.display()
+        )
+    })??;
 
     let exit_code = output.status.code();
     if !matches!(exit_code, Some(0) | Some(1)) {
@@ -294,23 +299,27 @@ async fn run_correction(
          This is a bug because the command is always configured with Stdio::piped(). \
          Fix: keep stdin piped before taking the child handle.",
     );
-    stdin
-        .write_all(content.as_bytes())
-        .await
-        .context("failed to write Ruby source to safe linter fix stdin")?;
-    drop(stdin);
-
-    let output = tokio::time::timeout(timeout, child.wait_with_output())
-        .await
-        .map_err(|_| {
-            anyhow!(
-                "safe {} fix timed out after {} ms while checking {}",
-                tool_name,
-                timeout.as_millis(),
-                file_path.display()
-            )
-        })?
-        .context("failed while waiting for safe linter fix process")?;
+    // As in `lint_document`, writing the source counts against the timeout.
+    let output = tokio::time::timeout(timeout, async {
+        stdin
+            .write_all(content.as_bytes())
+            .await
+            .context("failed to write Ruby source to safe linter fix stdin")?;
+        drop(stdin);
+        child
+            .wait_with_output()
+            .await
+            .context("failed while waiting for safe linter fix process")
+    })
+    .await
+    .map_err(|_| {
+        anyhow!(
+            "safe {} fix timed out after {} ms while checking {}",
+            tool_name,
+            timeout.as_millis(),
+            file_path.display()
+        )
+    })??;
     if !matches!(output.status.code(), Some(0) | Some(1)) {
         return Err(anyhow!(
             "safe {} fix failed for {} with exit status {:?}: {}",
-- 
2.43.0


From dc3e813f258b72218f1c3c3bb1c29a7440cc37c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:28 +0000
Subject: [PATCH 05/17] fix: refuse local-variable renames in sources the user
 does not own

Opening a vendored, dependency or otherwise excluded file and renaming a local
variable produced edits to it; method and constant renames already skip every
non-editable source.
---
 src/capabilities/indexing.rs |  2 +-
 src/capabilities/rename.rs   | 13 ++++++++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/capabilities/indexing.rs b/src/capabilities/indexing.rs
index d2da286..a52bc2f 100644
--- a/src/capabilities/indexing.rs
+++ b/src/capabilities/indexing.rs
@@ -359,7 +359,7 @@ fn source_kind_for_new_open_file(server: &RubyLanguageServer, uri: &Url) -> Sour
     }
 }
 
-fn analysis_file_kind(server: &RubyLanguageServer, uri: &Url) -> Option<SourceKind> {
+pub(super) fn analysis_file_kind(server: &RubyLanguageServer, uri: &Url) -> Option<SourceKind> {
     let path = uri
         .to_file_path()
         .unwrap_or_else(|_| std::path::PathBuf::from(uri.to_string()));
diff --git a/src/capabilities/rename.rs b/src/capabilities/rename.rs
index e9d56f2..766f33f 100644
--- a/src/capabilities/rename.rs
+++ b/src/capabilities/rename.rs
@@ -11,10 +11,11 @@ use tower_lsp::lsp_types::{
     WorkspaceEdit,
 };
 
+use super::indexing::analysis_file_kind;
 use crate::query::analysis_location::locations_for_ranges;
 use crate::server::RubyLanguageServer;
 use crate::utils::lsp::{lsp_text_range, source_position};
-use ruby_analysis::core::{RubyConstant, RubyMethod};
+use ruby_analysis::core::{RubyConstant, RubyMethod, SourceKind};
 use ruby_analysis::engine::AnalysisQuery;
 use ruby_analysis::indexer::{Identifier, RenameVisitor, RubyDocument, RubyPrismAnalyzer};
 
@@ -24,6 +25,11 @@ pub async fn handle_prepare_rename(
 ) -> Option<PrepareRenameResponse> {
     let uri = params.text_document.uri;
     let position = params.position;
+    // External, dependency, and signature documents never receive rename edits, local
+    // variables included.
+    if !analysis_file_kind(server, &uri).is_some_and(SourceKind::is_editable) {
+        return None;
+    }
     let (content, version, analysis_file_id, analysis_offset) = {
         let docs = server.docs.lock();
         let document = docs.get(&uri)?.read();
@@ -92,6 +98,11 @@ pub async fn handle_rename(
     let uri = params.text_document_position.text_document.uri;
     let position = params.text_document_position.position;
     let new_name = params.new_name;
+    // External, dependency, and signature documents never receive rename edits, local
+    // variables included.
+    if !analysis_file_kind(server, &uri).is_some_and(SourceKind::is_editable) {
+        return None;
+    }
 
     // Get document content
     let (content, analysis_file_id, analysis_offset) = {
-- 
2.43.0


From 4164fbf327dec8fae76a7a4140d601a12a9381ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:51 +0000
Subject: [PATCH 06/17] fix: bound extension process pipes by the process
 deadline

---
 src/extensions/mod.rs | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/extensions/mod.rs b/src/extensions/mod.rs
index 950e2c3..6880ce9 100644
--- a/src/extensions/mod.rs
+++ b/src/extensions/mod.rs
@@ -2602,20 +2602,28 @@ async fn run_extension_process_admitted(
     let stderr = child.stderr.take().expect(
         "INVARIANT VIOLATED: extension process has no piped stderr. This is a bug because stderr is configured before spawning. Fix: keep stderr piped before taking the child handle.",
     );
-    let stdout_task = tokio::spawn(read_bounded_process_output(stdout));
-    let stderr_task = tokio::spawn(read_bounded_process_output(stderr));
+    // The pipes share the process deadline: a descendant that inherited them can outlive the
+    // child and must not keep the request waiting for end-of-file.
+    let deadline = tokio::time::Instant::now() + request.timeout;
+    let stdout_task = tokio::spawn(read_bounded_process_output(stdout, deadline));
+    let stderr_task = tokio::spawn(read_bounded_process_output(stderr, deadline));
     let mut stdin = child.stdin.take().expect(
         "INVARIANT VIOLATED: extension process has no piped stdin. This is a bug because stdin is configured before spawning. Fix: keep stdin piped before taking the child handle.",
     );
     let stdin_content = request.stdin.unwrap_or_default();
     let stdin_task = tokio::spawn(async move {
-        let result = stdin.write_all(stdin_content.as_bytes()).await;
+        let result =
+            match tokio::time::timeout_at(deadline, stdin.write_all(stdin_content.as_bytes())).await
+            {
+                Ok(result) => result,
+                Err(elapsed) => Err(std::io::Error::from(elapsed)),
+            };
         drop(stdin);
         result
     });
 
     let (status, exit_code, wait_error) =
-        match tokio::time::timeout(request.timeout, child.wait()).await {
+        match tokio::time::timeout_at(deadline, child.wait()).await {
             Ok(Ok(status)) => (ProcessResultStatus::Exited, status.code(), None),
             Ok(Err(err)) => (ProcessResultStatus::Failed, None, Some(err.to_string())),
             Err(_) => {
@@ -2653,15 +2661,22 @@ async fn run_extension_process_admitted(
     }
 }
 
-async fn read_bounded_process_output(mut reader: impl AsyncRead + Unpin) -> (Vec<u8>, bool) {
+async fn read_bounded_process_output(
+    mut reader: impl AsyncRead + Unpin,
+    deadline: tokio::time::Instant,
+) -> (Vec<u8>, bool) {
     let mut retained = Vec::new();
     let mut buffer = [0_u8; 8192];
     let mut truncated = false;
     loop {
-        let read = match reader.read(&mut buffer).await {
-            Ok(0) => break,
-            Ok(read) => read,
-            Err(err) => {
+        let read = match tokio::time::timeout_at(deadline, reader.read(&mut buffer)).await {
+            Err(_) => {
+                truncated = true;
+                break;
+            }
+            Ok(Ok(0)) => break,
+            Ok(Ok(read)) => read,
+            Ok(Err(err)) => {
                 let message = format!("failed to read extension process output: {err}");
                 let remaining = MAX_PROCESS_OUTPUT_BYTES.saturating_sub(retained.len());
                 retained.extend_from_slice(&message.as_bytes()[..message.len().min(remaining)]);
-- 
2.43.0


From 8418df64ddcb99ab82efaf151b23e30ba7c5dc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:13 +0000
Subject: [PATCH 07/17] fix: no syntax diagnostics for changed documents the
 project does not own

Opening an excluded or dependency document publishes no diagnostics, but the next
edit or save published its syntax errors.
---
 src/indexer/file_processor.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/indexer/file_processor.rs b/src/indexer/file_processor.rs
index 15eadf5..4c6e379 100644
--- a/src/indexer/file_processor.rs
+++ b/src/indexer/file_processor.rs
@@ -373,7 +373,11 @@ impl FileProcessor {
                 0,
                 analysis_file_id,
             );
-            let diagnostics = generate_diagnostics(&parse_result, &doc);
+            let diagnostics = if source_kind.contributes_project_diagnostics() {
+                generate_diagnostics(&parse_result, &doc)
+            } else {
+                Vec::new()
+            };
             return Ok(ProcessResult {
                 affected_uris: HashSet::new(),
                 diagnostics,
@@ -409,7 +413,11 @@ impl FileProcessor {
             .semantic_export_fingerprint(analysis_file_id);
 
         // 2. Generate Syntax Diagnostics
-        let diagnostics = generate_diagnostics(&parse_result, &document);
+        let diagnostics = if source_kind.contributes_project_diagnostics() {
+            generate_diagnostics(&parse_result, &document)
+        } else {
+            Vec::new()
+        };
         let parse_elapsed = parse_start.elapsed();
 
         // If severe parse errors, skip indexing
-- 
2.43.0


From e184736ac1b298124f4eb31d2912bfc8ada18d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:41 +0000
Subject: [PATCH 08/17] fix: capture the source snapshot before reading a JRuby
 replay source

---
 src/indexer/indexer_project.rs | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/indexer/indexer_project.rs b/src/indexer/indexer_project.rs
index 65c638a..66d4597 100644
--- a/src/indexer/indexer_project.rs
+++ b/src/indexer/indexer_project.rs
@@ -1245,6 +1245,17 @@ impl IndexerProject {
                     ruby_analysis::engine::FileFacts,
                     StaticJavaNavigationPlan,
                 )>> {
+                    // Capture the snapshot before reading: a document opened or changed after
+                    // this point moves the revision on, and these facts are then discarded.
+                    let source_snapshot = analysis_engine
+                        .read()
+                        .source_snapshot_for_path(file_path)
+                        .unwrap_or_else(|| {
+                            panic!(
+                                "INVARIANT VIOLATED: JRuby project replay received an unregistered source {}. This is a bug because replay is selected only from the completed project pass. Fix: preserve project source registration through provider materialization.",
+                                file_path.display()
+                            )
+                        });
                     let (content, open_document) =
                         Self::read_authoritative_project_source(server, file_path).with_context(|| {
                         format!(
@@ -1252,28 +1263,19 @@ impl IndexerProject {
                             file_path.display()
                         )
                     })?;
-                    let source_snapshot = {
+                    if open_document {
                         let engine = analysis_engine.read();
-                        let Some(file_id) = engine.file_id(file_path) else {
-                            panic!(
-                                "INVARIANT VIOLATED: JRuby project replay received an unregistered source {}. This is a bug because replay is selected only from the completed project pass. Fix: preserve project source registration through provider materialization.",
-                                file_path.display()
-                            );
-                        };
-                        if open_document && !engine.file_content_matches(file_id, &content) {
+                        if engine
+                            .file_id(file_path)
+                            .is_some_and(|file_id| !engine.file_content_matches(file_id, &content))
+                        {
                             info!(
                                 "Skipping stale JRuby replay snapshot for open document {}",
                                 file_path.display()
                             );
                             return Ok(None);
                         }
-                        engine.source_snapshot_for_path(file_path).unwrap_or_else(|| {
-                            panic!(
-                                "INVARIANT VIOLATED: JRuby project replay lost source revision for {}. This is a bug because every registered source has one monotonic revision. Fix: keep source registration and revision capture atomic.",
-                                file_path.display()
-                            )
-                        })
-                    };
+                    }
                     let uri = Url::from_file_path(file_path).map_err(|_| {
                         anyhow!(
                             "JRuby catalog-sensitive project source is not a valid file URI: {}",
-- 
2.43.0


From cd867bfc816883a96c260be4a6f826181652a150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:04 +0000
Subject: [PATCH 09/17] fix: wake the remaining waiters after admitting
 indexing work

---
 src/indexing_resources.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/indexing_resources.rs b/src/indexing_resources.rs
index 402176a..5e670b8 100644
--- a/src/indexing_resources.rs
+++ b/src/indexing_resources.rs
@@ -693,6 +693,10 @@ impl IndexingResourceGovernor {
                             );
                         }
                         registration.admitted = true;
+                        drop(admission);
+                        // A waiter that lost this selection may still fit next to the admitted
+                        // work, and it is asleep again by now.
+                        self.state.changed.notify_waiters();
                         return Ok(ActiveResourceLease {
                             state: self.state.clone(),
                             spec: queued.spec,
-- 
2.43.0


From 9cd74c30c4f54c0a6c595ec23df4238d47d693c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:04 +0000
Subject: [PATCH 10/17] fix: answer every single-flight request after a failed
 or panicked producer

---
 src/single_flight.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/single_flight.rs b/src/single_flight.rs
index 8df54e1..e7289d6 100644
--- a/src/single_flight.rs
+++ b/src/single_flight.rs
@@ -139,7 +139,7 @@ where
         if owns_producer {
             self.counters.producers.fetch_add(1, Ordering::Relaxed);
             let producer_started = Instant::now();
-            let producer_task = tokio::spawn(producer());
+            let producer_task = tokio::spawn(async move { producer().await });
             let producer_cell = cell.clone();
             let producer_key = key.clone();
             let entries = self.entries.clone();
@@ -154,9 +154,8 @@ where
                 counters.record_producer_wall(producer_started.elapsed());
                 if result.is_err() {
                     counters.failures.fetch_add(1, Ordering::Relaxed);
-                }
-                producer_cell.complete(result);
-                if producer_cell.get().is_some_and(Result::is_err) {
+                    // Withdraw the entry before anyone can observe the failure, so a
+                    // request issued after it starts a new producer.
                     let mut entries = entries.lock();
                     if entries
                         .get(&producer_key)
@@ -165,6 +164,7 @@ where
                         entries.remove(&producer_key);
                     }
                 }
+                producer_cell.complete(result);
             });
         }
         let wait_started = Instant::now();
@@ -313,7 +313,7 @@ where
         if owns_producer {
             self.counters.producers.fetch_add(1, Ordering::Relaxed);
             let producer_started = Instant::now();
-            let producer_task = tokio::spawn(producer());
+            let producer_task = tokio::spawn(async move { producer().await });
             let producer_cell = cell.clone();
             let producer_key = key.clone();
             let cache = self.clone();
@@ -329,9 +329,8 @@ where
                     .record_producer_wall(producer_started.elapsed());
                 if result.is_err() {
                     cache.counters.failures.fetch_add(1, Ordering::Relaxed);
-                }
-                producer_cell.complete(result);
-                if producer_cell.get().is_some_and(Result::is_err) {
+                    // Withdraw the entry before anyone can observe the failure, so a
+                    // request issued after it starts a new producer.
                     let mut entries = cache.entries.lock();
                     if entries
                         .get(&producer_key)
@@ -339,9 +338,9 @@ where
                     {
                         entries.remove(&producer_key);
                     }
-                } else {
-                    cache.evict_completed_to_limits();
                 }
+                producer_cell.complete(result);
+                cache.evict_completed_to_limits();
             });
         }
         let wait_started = Instant::now();
-- 
2.43.0


From aff2bf10b5796be7925eb58de2d1f380709f31b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:54 +0000
Subject: [PATCH 11/17] fix: stop a superseded indexing run before it publishes
 its require roots

---
 src/indexer/coordinator.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/indexer/coordinator.rs b/src/indexer/coordinator.rs
index 1039e8a..8f7378b 100644
--- a/src/indexer/coordinator.rs
+++ b/src/indexer/coordinator.rs
@@ -1258,6 +1258,8 @@ impl IndexingCoordinator {
         // Runtime stdlib still enters the same isolated engine before the
         // dependency-ready milestone and complete semantic diagnostics.
         self.index_standard_library(server, &ruby_version).await?;
+        // A run superseded while indexing must not publish its require roots.
+        self.indexing_checkpoint(server)?;
         self.publish_dependency_require_paths(server);
         if let Some(workspace) = server
             .list_workspaces()
-- 
2.43.0


From 63bc11cbb031402540891ea8e63e5abb674f1887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:50 +0000
Subject: [PATCH 12/17] fix: convert the cursor column before slicing the line
 in completion

---
 crates/ruby-analysis/src/core/mod.rs          |  2 +-
 .../ruby-analysis/src/core/source_position.rs | 17 ++++++
 src/capabilities/completion/mod.rs            | 58 ++++---------------
 src/capabilities/completion/snippets.rs       | 12 ++--
 4 files changed, 34 insertions(+), 55 deletions(-)

diff --git a/crates/ruby-analysis/src/core/mod.rs b/crates/ruby-analysis/src/core/mod.rs
index 2392cf5..9916f85 100644
--- a/crates/ruby-analysis/src/core/mod.rs
+++ b/crates/ruby-analysis/src/core/mod.rs
@@ -75,7 +75,7 @@ pub use shape_type::{
     MAX_SHAPE_FIELDS, MAX_SHAPE_SOLVE_ITERATIONS, MAX_SHAPE_UNION_VARIANTS,
 };
 pub use source_file::{LibraryPackageId, SourceKind};
-pub use source_position::{SourcePosition, SourceRange};
+pub use source_position::{utf16_column_to_byte, utf16_len, SourcePosition, SourceRange};
 pub use symbol_store::{StoredSymbolFact, SymbolFact, SymbolKind, SymbolStore};
 pub use type_inference_outcome::{
     InferenceEvidence, InferenceTelemetry, TypeInferenceOutcome, UnknownReason,
diff --git a/crates/ruby-analysis/src/core/source_position.rs b/crates/ruby-analysis/src/core/source_position.rs
index 01ca256..506f890 100644
--- a/crates/ruby-analysis/src/core/source_position.rs
+++ b/crates/ruby-analysis/src/core/source_position.rs
@@ -15,6 +15,23 @@ impl SourcePosition {
     }
 }
 
+/// Number of UTF-16 code units in `text`.
+pub fn utf16_len(text: &str) -> u32 {
+    text.chars().map(|c| c.len_utf16() as u32).sum()
+}
+
+/// Byte offset within `line` of a UTF-16 column; columns past the end clamp to it.
+pub fn utf16_column_to_byte(line: &str, character: u32) -> usize {
+    let mut column = 0;
+    for (offset, c) in line.char_indices() {
+        if column >= character {
+            return offset;
+        }
+        column += c.len_utf16() as u32;
+    }
+    line.len()
+}
+
 /// Half-open source range in UTF-16 line/character coordinates.
 #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
 pub struct SourceRange {
diff --git a/src/capabilities/completion/mod.rs b/src/capabilities/completion/mod.rs
index b256d42..9d8ccb2 100644
--- a/src/capabilities/completion/mod.rs
+++ b/src/capabilities/completion/mod.rs
@@ -2,7 +2,8 @@ pub mod snippets;
 pub mod variable;
 
 use ruby_analysis::core::{
-    FullyQualifiedName, NamespaceKind, RubyConstant, RubyMethod, SourceFileId,
+    utf16_column_to_byte, FullyQualifiedName, NamespaceKind, RubyConstant, RubyMethod,
+    SourceFileId,
 };
 use tower_lsp::lsp_types::{
     CompletionContext, CompletionItem, CompletionItemKind, CompletionResponse, CompletionTextEdit,
@@ -110,21 +111,14 @@ pub async fn find_completion_at_position(
         .nth(position.line as usize)
         .unwrap_or("");
 
+    // The cursor column counts UTF-16 code units, not bytes.
+    let before_cursor = &line_text[..utf16_column_to_byte(line_text, position.character)];
+
     // Check if we're in a :: (scope resolution) context
     let is_scope_resolution_context = if is_trigger_character && trigger_character == Some(":") {
         // Look at the text before the cursor to see if we have "::"
-        let line_text = document
-            .content
-            .lines()
-            .nth(position.line as usize)
-            .unwrap_or("");
-        let char_pos = position.character as usize;
-
-        // Check if there's a ':' character immediately before the current position
         // This means we're completing after "::" (user typed :: and cursor is after the second :)
-        char_pos >= 2
-            && line_text.chars().nth(char_pos - 1) == Some(':')
-            && line_text.chars().nth(char_pos - 2) == Some(':')
+        before_cursor.ends_with("::")
     } else {
         false
     };
@@ -165,20 +159,11 @@ pub async fn find_completion_at_position(
             if is_scope_resolution_context {
                 // For top-level scope resolution (::) or when analyzer doesn't detect a constant
                 // Extract from line text as fallback
-                let line_text = document
-                    .content
-                    .lines()
-                    .nth(position.line as usize)
-                    .unwrap_or("");
-                let char_pos = position.character as usize;
-
                 // Look backwards from the current position to find the namespace
-                if char_pos >= 2 {
-                    let before_colon = &line_text[..char_pos.saturating_sub(2)];
-                    if let Some(start) =
-                        before_colon.rfind(|c: char| !c.is_alphanumeric() && c != '_' && c != ':')
+                if let Some(before_colon) = before_cursor.strip_suffix("::") {
+                    if let Some((_, namespace)) = before_colon
+                        .rsplit_once(|c: char| !c.is_alphanumeric() && c != '_' && c != ':')
                     {
-                        let namespace = &before_colon[start + 1..];
                         if !namespace.is_empty()
                             && namespace.chars().all(|c| c.is_alphanumeric() || c == '_')
                         {
@@ -202,18 +187,11 @@ pub async fn find_completion_at_position(
                 }
             } else {
                 // Fallback: extract partial word from current line for snippet completion
-                let line_text = document
-                    .content
-                    .lines()
-                    .nth(position.line as usize)
-                    .unwrap_or("");
-                let char_pos = position.character as usize;
-
                 // Look backwards from the current position to find the start of the current word
-                let before_cursor = &line_text[..char_pos.min(line_text.len())];
-                if let Some(start) = before_cursor.rfind(|c: char| !c.is_alphanumeric() && c != '_')
+                if let Some((_, word)) =
+                    before_cursor.rsplit_once(|c: char| !c.is_alphanumeric() && c != '_')
                 {
-                    before_cursor[start + 1..].to_string()
+                    word.to_string()
                 } else {
                     before_cursor.trim().to_string()
                 }
@@ -235,18 +213,6 @@ pub async fn find_completion_at_position(
 
     // Also detect method call context by looking for a dot before the cursor
     let line_has_dot = {
-        let line = document
-            .content
-            .lines()
-            .nth(position.line as usize)
-            .unwrap_or("");
-        let char_pos = position.character as usize;
-        // Safely get substring before cursor
-        let before_cursor = if char_pos <= line.len() {
-            &line[..char_pos]
-        } else {
-            line
-        };
         // Check if there's a dot followed by optional method name chars
         before_cursor.contains('.')
             && before_cursor
diff --git a/src/capabilities/completion/snippets.rs b/src/capabilities/completion/snippets.rs
index f80393d..a7f489b 100644
--- a/src/capabilities/completion/snippets.rs
+++ b/src/capabilities/completion/snippets.rs
@@ -1,3 +1,4 @@
+use ruby_analysis::core::utf16_column_to_byte;
 use ruby_analysis::indexer::{Identifier, MethodReceiver};
 use tower_lsp::lsp_types::{CompletionItem, CompletionItemKind, InsertTextFormat};
 
@@ -202,14 +203,9 @@ impl RubySnippets {
             }) => SnippetContext::MethodCall,
             None => {
                 // Check if we're right after a dot, which indicates method call context
-                let char_pos = position_char as usize;
-                if char_pos > 0 && char_pos <= line_text.len() {
-                    let before_cursor = &line_text[..char_pos];
-                    if before_cursor.ends_with('.') {
-                        SnippetContext::MethodCall
-                    } else {
-                        SnippetContext::General
-                    }
+                let cursor = utf16_column_to_byte(line_text, position_char);
+                if line_text[..cursor].ends_with('.') {
+                    SnippetContext::MethodCall
                 } else {
                     SnippetContext::General
                 }
-- 
2.43.0


From 2d15cc4c407b3d9516171aa1e7006e51e866a8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:47 +0000
Subject: [PATCH 13/17] fix: report YARD type ranges in UTF-16 columns

---
 .../ruby-analysis/src/indexer/yard/parser.rs  | 39 +++++++++++++------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/crates/ruby-analysis/src/indexer/yard/parser.rs b/crates/ruby-analysis/src/indexer/yard/parser.rs
index d302592..59539a8 100644
--- a/crates/ruby-analysis/src/indexer/yard/parser.rs
+++ b/crates/ruby-analysis/src/indexer/yard/parser.rs
@@ -22,7 +22,9 @@
 //! - `@return [String, nil] The result or nil`
 
 use super::types::{YardMethodDoc, YardOption, YardParam, YardReturn};
-use crate::core::{SourcePosition as Position, SourceRange as Range};
+use crate::core::{
+    utf16_column_to_byte, utf16_len, SourcePosition as Position, SourceRange as Range,
+};
 use log::debug;
 use regex::Regex;
 use std::sync::LazyLock;
@@ -142,7 +144,7 @@ impl YardParser {
             let bracket_end = full_match.end();
 
             // Check if position is within the brackets
-            let char_pos = position.character as usize;
+            let char_pos = utf16_column_to_byte(line, position.character);
             if char_pos >= bracket_start && char_pos < bracket_end {
                 // Position is inside [Type], find which type
                 let types_str = types_match.as_str();
@@ -165,8 +167,14 @@ impl YardParser {
 
                         if !base_type.is_empty() {
                             let range = Range::new(
-                                Position::new(position.line, (types_start + type_start) as u32),
-                                Position::new(position.line, (types_start + type_end) as u32),
+                                Position::new(
+                                    position.line,
+                                    utf16_len(&line[..types_start + type_start]),
+                                ),
+                                Position::new(
+                                    position.line,
+                                    utf16_len(&line[..types_start + type_end]),
+                                ),
                             );
                             return Some(YardTypeAtPosition {
                                 type_name: base_type,
@@ -183,8 +191,11 @@ impl YardParser {
                     let base_type = Self::extract_base_type(types_str.trim());
                     if !base_type.is_empty() {
                         let range = Range::new(
-                            Position::new(position.line, types_start as u32),
-                            Position::new(position.line, (types_start + types_str.len()) as u32),
+                            Position::new(position.line, utf16_len(&line[..types_start])),
+                            Position::new(
+                                position.line,
+                                utf16_len(&line[..types_start + types_str.len()]),
+                            ),
                         );
                         return Some(YardTypeAtPosition {
                             type_name: base_type,
@@ -340,8 +351,8 @@ impl YardParser {
                 comment_lines.push(CommentLineInfo {
                     content,
                     line_number,
-                    content_start_char: (leading_ws + hash_and_space) as u32,
-                    line_length: original_line.len() as u32,
+                    content_start_char: utf16_len(&original_line[..leading_ws + hash_and_space]),
+                    line_length: utf16_len(original_line),
                 });
             } else if !trimmed.is_empty() {
                 break;
@@ -444,11 +455,13 @@ impl YardParser {
                     Range {
                         start: Position {
                             line: line_info.line_number,
-                            character: line_info.content_start_char + bracket_start as u32,
+                            character: line_info.content_start_char
+                                + utf16_len(&line[..bracket_start]),
                         },
                         end: Position {
                             line: line_info.line_number,
-                            character: line_info.content_start_char + bracket_end as u32,
+                            character: line_info.content_start_char
+                                + utf16_len(&line[..bracket_end]),
                         },
                     }
                 })
@@ -496,11 +509,13 @@ impl YardParser {
                     Range {
                         start: Position {
                             line: line_info.line_number,
-                            character: line_info.content_start_char + bracket_start as u32,
+                            character: line_info.content_start_char
+                                + utf16_len(&line[..bracket_start]),
                         },
                         end: Position {
                             line: line_info.line_number,
-                            character: line_info.content_start_char + bracket_end as u32,
+                            character: line_info.content_start_char
+                                + utf16_len(&line[..bracket_end]),
                         },
                     }
                 })
-- 
2.43.0


From 968dad4224ff3d7d4e772b621f0cbbd68ac870c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:47 +0000
Subject: [PATCH 14/17] fix: convert reference columns before slicing the line

---
 src/query/references.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/query/references.rs b/src/query/references.rs
index a3f2e78..55bc072 100644
--- a/src/query/references.rs
+++ b/src/query/references.rs
@@ -8,6 +8,7 @@ use ruby_analysis::core::NamespaceKind;
 use ruby_analysis::core::RubyConstant;
 use ruby_analysis::core::RubyMethod;
 use ruby_analysis::core::SourceFileId;
+use ruby_analysis::core::utf16_column_to_byte;
 use ruby_analysis::core::TextRange;
 use ruby_analysis::indexer::fact_collector::{FactCollector, NullFactCollectorExtensionHost};
 use ruby_analysis::indexer::yard::YardTypeConverter;
@@ -365,10 +366,7 @@ fn range_uses_invalid_private_receiver(content: &str, range: Range) -> bool {
     let Some(line) = content.lines().nth(range.start.line as usize) else {
         return false;
     };
-    let before = line
-        .chars()
-        .take(range.start.character as usize)
-        .collect::<String>();
+    let before = &line[..utf16_column_to_byte(line, range.start.character)];
     let trimmed = before.trim_end();
     trimmed.ends_with('.')
         || trimmed.ends_with("public_send(:")
@@ -377,10 +375,7 @@ fn range_uses_invalid_private_receiver(content: &str, range: Range) -> bool {
 
 fn explicit_receiver_constant_parts(content: &str, range: Range) -> Option<Vec<RubyConstant>> {
     let line = content.lines().nth(range.start.line as usize)?;
-    let before = line
-        .chars()
-        .take(range.start.character as usize)
-        .collect::<String>();
+    let before = &line[..utf16_column_to_byte(line, range.start.character)];
     let receiver = before.trim_end().strip_suffix('.')?.trim_end();
     let receiver = receiver.strip_suffix(".new").unwrap_or(receiver);
     let token = receiver.split_whitespace().last()?;
-- 
2.43.0


From bc396bd2bc3d8b159a0c25f018da422ca162dc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:47 +0000
Subject: [PATCH 15/17] fix: read the quote of a require statement at its byte
 offset

---
 src/indexer/indexer_project.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/indexer/indexer_project.rs b/src/indexer/indexer_project.rs
index 66d4597..a0cda20 100644
--- a/src/indexer/indexer_project.rs
+++ b/src/indexer/indexer_project.rs
@@ -1464,7 +1464,7 @@ impl IndexerProject {
         if line.starts_with("require ") || line.starts_with("require_relative ") {
             // Find the quoted string
             if let Some(start) = line.find('"').or_else(|| line.find('\'')) {
-                let quote_char = line.chars().nth(start).unwrap();
+                let quote_char = line[start..].chars().next().unwrap();
                 if let Some(end) = line[start + 1..].find(quote_char) {
                     let module_name = &line[start + 1..start + 1 + end];
                     return Some(module_name.to_string());
@@ -1554,7 +1554,7 @@ impl IndexerProject {
         if line.starts_with("gem ") {
             // Find the quoted gem name
             if let Some(start) = line.find('"').or_else(|| line.find('\'')) {
-                let quote_char = line.chars().nth(start).unwrap();
+                let quote_char = line[start..].chars().next().unwrap();
                 if let Some(end) = line[start + 1..].find(quote_char) {
                     let gem_name = &line[start + 1..start + 1 + end];
                     return Some(gem_name.to_string());
-- 
2.43.0


From 216daaae04ada33d31b827521722139834b443e5 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:31 +0000
Subject: [PATCH 16/17] fix: drop cached lookup chains when pending graph edges
 resolve

---
 crates/ruby-analysis/src/engine/state.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/ruby-analysis/src/engine/state.rs b/crates/ruby-analysis/src/engine/state.rs
index ebac430..065d868 100644
--- a/crates/ruby-analysis/src/engine/state.rs
+++ b/crates/ruby-analysis/src/engine/state.rs
@@ -2250,7 +2250,8 @@ impl AnalysisEngine {
         self.sources.files.values()
     }
 
-    fn replace_facts_deferred(&mut self, file_id: SourceFileId, mut facts: FileFacts) {
+    /// Drop every answer computed from the semantic graph before it changed.
+    fn invalidate_query_caches(&mut self) {
         self.semantic_revision = self.semantic_revision.checked_add(1).expect(
             "INVARIANT VIOLATED: analysis engine semantic revision exhausted u64. \
              This is a bug because cached queries require monotonic invalidation. \
@@ -2258,6 +2259,10 @@ impl AnalysisEngine {
         );
         *self.top_level_method_lookup_chain_cache.get_mut() = None;
         *self.universal_object_method_lookup_chain_cache.get_mut() = None;
+    }
+
+    fn replace_facts_deferred(&mut self, file_id: SourceFileId, mut facts: FileFacts) {
+        self.invalidate_query_caches();
         self.assert_known_file_id(file_id, "file analysis references unknown source file id");
         for (range, ruby_type) in facts.local_read_types.as_ref() {
             assert_eq!(
@@ -3783,6 +3788,9 @@ impl AnalysisEngine {
                 self.graph.add_unresolved_edge(unresolved);
             }
         }
+        // A query between deferred replacement and this pass can cache a lookup
+        // chain without the edges added above.
+        self.invalidate_query_caches();
     }
 
     /// Ruby class-method inheritance follows the singleton classes of the
-- 
2.43.0


From ca347a33290af53f70b64ed6a1c33f2fe96dc4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:20 +0000
Subject: [PATCH 17/17] fix: bound what is decompressed from Java archive
 entries, not only their declared size

---
 src/runtime/jruby/classpath.rs         |  5 +++++
 src/runtime/jruby/decompiler.rs        | 14 +++++++++++++-
 src/runtime/jruby/runtime_sources.rs   |  8 ++++++++
 src/runtime/jruby/source_navigation.rs | 10 ++++++----
 4 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/src/runtime/jruby/classpath.rs b/src/runtime/jruby/classpath.rs
index 6ccae09..1b16273 100644
--- a/src/runtime/jruby/classpath.rs
+++ b/src/runtime/jruby/classpath.rs
@@ -1110,11 +1110,16 @@ fn manifest_class_path_entries(
     }
     let mut bytes = Vec::with_capacity(manifest.size() as usize);
     manifest
+        .by_ref()
+        .take(MAX_MANIFEST_BYTES + 1)
         .read_to_end(&mut bytes)
         .map_err(|error| ClasspathError::Io {
             path: path.to_path_buf(),
             message: error.to_string(),
         })?;
+    if bytes.len() as u64 > MAX_MANIFEST_BYTES {
+        return Err(ClasspathError::LimitExceeded("JAR manifest bytes"));
+    }
     let source = std::str::from_utf8(&bytes).map_err(|_| ClasspathError::InvalidManifestEntry {
         artifact: path.to_path_buf(),
         entry: "manifest is not UTF-8".to_string(),
diff --git a/src/runtime/jruby/decompiler.rs b/src/runtime/jruby/decompiler.rs
index 4cf105a..2d8617d 100644
--- a/src/runtime/jruby/decompiler.rs
+++ b/src/runtime/jruby/decompiler.rs
@@ -466,13 +466,25 @@ fn extract_class_family(
                 "Java class family bytes",
             ));
         }
-        let mut bytes = Vec::with_capacity(entry.size() as usize);
+        let declared_size = entry.size();
+        let mut bytes = Vec::with_capacity(declared_size as usize);
         entry
+            .by_ref()
+            .take(declared_size.saturating_add(1))
             .read_to_end(&mut bytes)
             .map_err(|error| JavaDecompilerError::InvalidArchive {
                 path: declaration.artifact_path.clone(),
                 message: error.to_string(),
             })?;
+        if bytes.len() as u64 != declared_size {
+            return Err(JavaDecompilerError::InvalidArchive {
+                path: declaration.artifact_path.clone(),
+                message: format!(
+                    "archive entry `{}` does not have its declared size",
+                    entry.name()
+                ),
+            });
+        }
         extracted.push((name.to_string(), bytes));
     }
     if !extracted.iter().any(|(name, _)| name == selected_name) {
diff --git a/src/runtime/jruby/runtime_sources.rs b/src/runtime/jruby/runtime_sources.rs
index c0fc7cb..e6543d1 100644
--- a/src/runtime/jruby/runtime_sources.rs
+++ b/src/runtime/jruby/runtime_sources.rs
@@ -66,8 +66,16 @@ pub fn materialize_jruby_runtime_sources(
         }
         let mut content = String::with_capacity(entry.size() as usize);
         entry
+            .by_ref()
+            .take(MAX_RUNTIME_SOURCE_BYTES + 1)
             .read_to_string(&mut content)
             .map_err(|_| JrubyRuntimeSourceError::InvalidUtf8 { entry: entry_name })?;
+        if content.len() as u64 > MAX_RUNTIME_SOURCE_BYTES {
+            return Err(JrubyRuntimeSourceError::EntryTooLarge {
+                entry: entry_name,
+                bytes: content.len() as u64,
+            });
+        }
         let path = cache_root.join(entry_name);
         let parent = path.parent().expect(
             "INVARIANT VIOLATED: allowlisted JRuby runtime source has no cache parent. \
diff --git a/src/runtime/jruby/source_navigation.rs b/src/runtime/jruby/source_navigation.rs
index 6cc542d..e82b6cc 100644
--- a/src/runtime/jruby/source_navigation.rs
+++ b/src/runtime/jruby/source_navigation.rs
@@ -412,12 +412,14 @@ fn source_from_archive<R: Read + Seek>(
             ));
         }
         let mut bytes = Vec::with_capacity(entry.size() as usize);
-        entry.read_to_end(&mut bytes).map_err(|error| {
-            JavaSourceResolutionError::InvalidArchive {
+        entry
+            .by_ref()
+            .take((limits.max_source_bytes as u64).saturating_add(1))
+            .read_to_end(&mut bytes)
+            .map_err(|error| JavaSourceResolutionError::InvalidArchive {
                 path: root.path.clone(),
                 message: error.to_string(),
-            }
-        })?;
+            })?;
         if bytes.len() > limits.max_source_bytes {
             return Err(JavaSourceResolutionError::LimitExceeded(
                 "Java source bytes",
-- 
2.43.0

