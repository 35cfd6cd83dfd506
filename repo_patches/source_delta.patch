From febaf0317a7148891d266984d9660d98963efe13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:24 +0000
Subject: [PATCH 01/59] fix: apply the edits of a change notification one after
 the other

Positions of later edits refer to the text left by earlier ones, and an edit
without a range replaces the whole document. An invalid edit leaves the
document untouched.
---
 crates/jarl-lsp/src/document.rs | 49 +++++++++++++--------------------
 1 file changed, 19 insertions(+), 30 deletions(-)

diff --git a/crates/jarl-lsp/src/document.rs b/crates/jarl-lsp/src/document.rs
index ad39920..2788a91 100644
--- a/crates/jarl-lsp/src/document.rs
+++ b/crates/jarl-lsp/src/document.rs
@@ -133,25 +133,21 @@ impl TextDocument {
             new_version
         );
 
-        // Convert positions to offsets first, then sort by offset in reverse order
-        let mut changes_with_offsets = Vec::new();
-        for change in changes {
-            let range = change.range.ok_or_else(|| {
-                anyhow!(
-                    "Full document replacement not supported - only incremental changes allowed"
-                )
-            })?;
-
-            let start_offset = self.position_to_offset(range.start, encoding)?;
-            let end_offset = self.position_to_offset(range.end, encoding)?;
-            changes_with_offsets.push((start_offset, end_offset, change));
-        }
+        // Each change refers to the document as left by the previous one. Work on
+        // a copy so that an invalid change leaves the document as it was.
+        let mut updated = self.clone();
+
+        for (i, change) in changes.into_iter().enumerate() {
+            let Some(range) = change.range else {
+                tracing::trace!("Processing change {}: full replacement", i);
+                updated.content = change.text;
+                updated.line_starts = Self::compute_line_starts(&updated.content);
+                continue;
+            };
 
-        // Sort by start offset in reverse order (end to beginning) to avoid offset invalidation
-        changes_with_offsets.sort_by(|a, b| b.0.cmp(&a.0));
+            let start_offset = updated.position_to_offset(range.start, encoding)?;
+            let end_offset = updated.position_to_offset(range.end, encoding)?;
 
-        // Apply incremental changes in reverse order
-        for (i, (start_offset, end_offset, change)) in changes_with_offsets.iter().enumerate() {
             tracing::trace!(
                 "Processing incremental change {}: {}..{} -> '{}'",
                 i,
@@ -160,15 +156,6 @@ impl TextDocument {
                 change.text
             );
 
-            if *start_offset > self.content.len() || *end_offset > self.content.len() {
-                return Err(anyhow!(
-                    "Change range is out of bounds: {}..{} in document of length {}",
-                    start_offset,
-                    end_offset,
-                    self.content.len()
-                ));
-            }
-
             if start_offset > end_offset {
                 return Err(anyhow!(
                     "Invalid change range: start {} > end {}",
@@ -177,12 +164,14 @@ impl TextDocument {
                 ));
             }
 
-            self.content
-                .replace_range(*start_offset..*end_offset, &change.text);
+            updated
+                .content
+                .replace_range(start_offset..end_offset, &change.text);
+            updated.line_starts = Self::compute_line_starts(&updated.content);
         }
 
-        self.version = new_version;
-        self.line_starts = Self::compute_line_starts(&self.content);
+        updated.version = new_version;
+        *self = updated;
         Ok(())
     }
 
-- 
2.43.0


From 2c8d042571f5d2216b92ba47200777ea978f3aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:24 +0000
Subject: [PATCH 02/59] fix: clamp a character past the end of a line to the
 line end

The protocol defines a character beyond the line as the line end; with the
UTF-8 encoding it was an error and the edit was lost. With CR LF endings the
carriage return counted as part of the line.
---
 crates/jarl-lsp/src/document.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/crates/jarl-lsp/src/document.rs b/crates/jarl-lsp/src/document.rs
index 2788a91..5799c8f 100644
--- a/crates/jarl-lsp/src/document.rs
+++ b/crates/jarl-lsp/src/document.rs
@@ -190,24 +190,26 @@ impl TextDocument {
         }
 
         let line_start = self.line_starts[line];
-        let line_end = if line + 1 < self.line_starts.len() {
-            self.line_starts[line + 1] - 1 // -1 to exclude the newline
+        let line_content = if line + 1 < self.line_starts.len() {
+            // -1 to exclude the newline
+            let content = &self.content[line_start..self.line_starts[line + 1] - 1];
+            content.strip_suffix('\r').unwrap_or(content)
         } else {
-            self.content.len()
+            &self.content[line_start..]
         };
 
-        let line_content = &self.content[line_start..line_end];
-
+        // A character past the end of the line means the end of the line.
         let offset = match encoding {
             PositionEncoding::UTF8 => {
-                if character > line_content.len() {
+                let offset = character.min(line_content.len());
+                if !line_content.is_char_boundary(offset) {
                     return Err(anyhow!(
-                        "Character {} is out of bounds on line {}",
+                        "Character {} is in the middle of a UTF-8 sequence on line {}",
                         character,
                         line
                     ));
                 }
-                character
+                offset
             }
             PositionEncoding::UTF16 => {
                 let mut utf16_pos = 0;
-- 
2.43.0


From 7abb33038b0b4415a51a7a24a4f08dd05678979e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:26 +0000
Subject: [PATCH 03/59] fix: express suppression edits in the negotiated
 position encoding

---
 crates/jarl-lsp/src/server.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/crates/jarl-lsp/src/server.rs b/crates/jarl-lsp/src/server.rs
index fea1aa8..4ef4e88 100644
--- a/crates/jarl-lsp/src/server.rs
+++ b/crates/jarl-lsp/src/server.rs
@@ -560,7 +560,12 @@ impl Server {
         // Always insert a new comment line (each rule gets its own comment with its own explanation)
         let (insert_range, new_comment) = if insert_point.needs_leading_newline {
             // Inline insertion: insert right at the expression with a leading newline
-            let insert_pos = Self::offset_to_position(content, insert_point.offset);
+            let insert_pos = crate::lint::byte_offset_to_lsp_position(
+                insert_point.offset,
+                content,
+                snapshot.position_encoding(),
+            )
+            .ok()?;
             let comment = suppression_edit::format_suppression_comments(
                 &[rule_name],
                 "<reason>",
@@ -645,7 +650,12 @@ impl Server {
 
         // Insert at the very first byte of the chunk code (top of the chunk).
         // Use the Quarto-idiomatic YAML array form so the comment is valid YAML.
-        let insert_pos = Self::offset_to_position(content, chunk.start_byte);
+        let insert_pos = crate::lint::byte_offset_to_lsp_position(
+            chunk.start_byte,
+            content,
+            snapshot.position_encoding(),
+        )
+        .ok()?;
         let new_comment = format!("#| jarl-ignore-chunk:\n#|   - {rule_name}: <reason>\n");
         let insert_range = types::Range::new(insert_pos, insert_pos);
 
@@ -668,15 +678,6 @@ impl Server {
         })
     }
 
-    /// Convert a byte offset to an LSP Position
-    fn offset_to_position(content: &str, offset: usize) -> types::Position {
-        let before = &content[..offset.min(content.len())];
-        let line = before.matches('\n').count() as u32;
-        let line_start = before.rfind('\n').map(|p| p + 1).unwrap_or(0);
-        let character = (offset - line_start) as u32;
-        types::Position::new(line, character)
-    }
-
     /// Get the text of a specific line
     fn get_line_text(content: &str, line_number: usize) -> Option<String> {
         content.lines().nth(line_number).map(|s| s.to_string())
-- 
2.43.0


From d8ad48c6a51b5fc83940cfae9dfdbf7d808352a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:26 +0000
Subject: [PATCH 04/59] fix: insert suppression comments at the right line of R
 Markdown files

---
 crates/jarl-lsp/src/server.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/crates/jarl-lsp/src/server.rs b/crates/jarl-lsp/src/server.rs
index 4ef4e88..8a3c869 100644
--- a/crates/jarl-lsp/src/server.rs
+++ b/crates/jarl-lsp/src/server.rs
@@ -539,10 +539,19 @@ impl Server {
             )?
         };
 
+        // The line of the insertion point is relative to the chunk in Rmd/Qmd
+        // files, so the position in the file is derived from its offset.
+        let insert_pos = crate::lint::byte_offset_to_lsp_position(
+            insert_point.offset,
+            content,
+            snapshot.position_encoding(),
+        )
+        .ok()?;
+
         // Check if there's already a jarl-ignore comment that covers this rule
-        if insert_point.line > 0
+        if insert_pos.line > 0
             && !insert_point.needs_leading_newline
-            && let Some(prev_line_text) = Self::get_line_text(content, insert_point.line - 1)
+            && let Some(prev_line_text) = Self::get_line_text(content, insert_pos.line as usize - 1)
             && let Some((_, existing_rules)) =
                 suppression_edit::parse_existing_suppression(&prev_line_text)
         {
@@ -560,12 +569,6 @@ impl Server {
         // Always insert a new comment line (each rule gets its own comment with its own explanation)
         let (insert_range, new_comment) = if insert_point.needs_leading_newline {
             // Inline insertion: insert right at the expression with a leading newline
-            let insert_pos = crate::lint::byte_offset_to_lsp_position(
-                insert_point.offset,
-                content,
-                snapshot.position_encoding(),
-            )
-            .ok()?;
             let comment = suppression_edit::format_suppression_comments(
                 &[rule_name],
                 "<reason>",
@@ -575,14 +578,13 @@ impl Server {
             (types::Range::new(insert_pos, insert_pos), comment)
         } else {
             // Insert new comment at line start
-            let line_start_pos = types::Position::new(insert_point.line as u32, 0);
             let comment = suppression_edit::format_suppression_comments(
                 &[rule_name],
                 "<reason>",
                 &insert_point.indent,
                 false,
             );
-            (types::Range::new(line_start_pos, line_start_pos), comment)
+            (types::Range::new(insert_pos, insert_pos), comment)
         };
 
         let text_edit = types::TextEdit { range: insert_range, new_text: new_comment };
-- 
2.43.0


From b9fd99856318214361ac1f6bfb321beb63955310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:43 +0000
Subject: [PATCH 05/59] fix: answer code action requests with malformed
 parameters

---
 crates/jarl-lsp/src/server.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/crates/jarl-lsp/src/server.rs b/crates/jarl-lsp/src/server.rs
index 8a3c869..cf50dee 100644
--- a/crates/jarl-lsp/src/server.rs
+++ b/crates/jarl-lsp/src/server.rs
@@ -13,7 +13,7 @@ use std::thread;
 use std::time::Instant;
 
 use crate::LspResult;
-use crate::client::{Client, ToLspError};
+use crate::client::{Client, ToLspError, error_codes};
 use crate::document::TextDocument;
 use crate::lint;
 use crate::session::{DocumentSnapshot, Session, negotiate_position_encoding};
@@ -226,7 +226,18 @@ impl Server {
             // Pull diagnostics are disabled: diagnostics are only published on save.
             // This avoids showing stale or partial diagnostics while typing.
             types::request::CodeActionRequest::METHOD => {
-                let params: types::CodeActionParams = serde_json::from_value(request.params)?;
+                let params: types::CodeActionParams = match serde_json::from_value(request.params) {
+                    Ok(params) => params,
+                    Err(e) => {
+                        // Every request needs a response, even a malformed one
+                        client.send_error_response(
+                            request.id,
+                            anyhow!("Invalid parameters: {e}")
+                                .to_lsp_error_with_code(error_codes::INVALID_PARAMS),
+                        )?;
+                        return Ok(());
+                    }
+                };
                 let uri = params.text_document.uri.clone();
 
                 if let Some(snapshot) = session.take_snapshot(uri) {
-- 
2.43.0


From 0971c3eda320bf20bdb735131514966c8362ddfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:23 +0000
Subject: [PATCH 06/59] fix: publish the diagnostics of a document in the order
 of its saves

---
 crates/jarl-lsp/src/client.rs | 33 +++++++++++++++++++++++++++++++++
 crates/jarl-lsp/src/server.rs | 22 +++++++++++++++-------
 2 files changed, 48 insertions(+), 7 deletions(-)

diff --git a/crates/jarl-lsp/src/client.rs b/crates/jarl-lsp/src/client.rs
index 15faa48..0c3b8f2 100644
--- a/crates/jarl-lsp/src/client.rs
+++ b/crates/jarl-lsp/src/client.rs
@@ -23,6 +23,10 @@ pub struct Client {
     /// Whether we've already shown the unused_function threshold notification
     /// this session. Shared across all clones so it fires at most once.
     unused_fn_threshold_notified: Arc<std::sync::atomic::AtomicBool>,
+    /// Counter for the tickets that order published diagnostics
+    publish_ticket_counter: Arc<std::sync::atomic::AtomicU64>,
+    /// Ticket of the latest diagnostics published for each document
+    published: Arc<std::sync::Mutex<HashMap<types::Url, u64>>>,
 }
 
 /// Information about a pending request sent to the client
@@ -40,6 +44,8 @@ impl Client {
             request_id_counter: Arc::new(std::sync::atomic::AtomicI32::new(1)),
             pending_requests: Arc::new(std::sync::Mutex::new(HashMap::new())),
             unused_fn_threshold_notified: Arc::new(std::sync::atomic::AtomicBool::new(false)),
+            publish_ticket_counter: Arc::new(std::sync::atomic::AtomicU64::new(0)),
+            published: Arc::new(std::sync::Mutex::new(HashMap::new())),
         }
     }
 
@@ -132,6 +138,33 @@ impl Client {
         )
     }
 
+    /// Take a ticket for diagnostics that will be published later, to be
+    /// taken in the order of the client's messages.
+    pub fn publish_ticket(&self) -> u64 {
+        self.publish_ticket_counter
+            .fetch_add(1, std::sync::atomic::Ordering::SeqCst)
+    }
+
+    /// Publish diagnostics unless newer ones (or their removal) were already
+    /// published for this document: worker threads can finish in any order.
+    pub fn publish_diagnostics_in_order(
+        &self,
+        uri: types::Url,
+        diagnostics: Vec<types::Diagnostic>,
+        version: Option<i32>,
+        ticket: u64,
+    ) -> Result<()> {
+        // The lock is held while sending so that the order of the messages is
+        // the order of the tickets.
+        let mut published = self.published.lock().unwrap();
+        if published.get(&uri).is_some_and(|latest| *latest > ticket) {
+            tracing::debug!("Discarding outdated diagnostics for {}", uri);
+            return Ok(());
+        }
+        published.insert(uri.clone(), ticket);
+        self.publish_diagnostics(uri, diagnostics, version)
+    }
+
     /// Convenience method to show a message to the user
     pub fn show_message(&self, message: &str, message_type: types::MessageType) -> Result<()> {
         self.send_notification::<types::notification::ShowMessage>(types::ShowMessageParams {
diff --git a/crates/jarl-lsp/src/server.rs b/crates/jarl-lsp/src/server.rs
index cf50dee..a2fd845 100644
--- a/crates/jarl-lsp/src/server.rs
+++ b/crates/jarl-lsp/src/server.rs
@@ -42,6 +42,8 @@ pub enum Task {
     LintDocument {
         snapshot: Box<DocumentSnapshot>,
         client: Client,
+        /// Orders the diagnostics among those published for the document
+        ticket: u64,
     },
     /// Handle a code action request
     HandleCodeActionRequest {
@@ -328,9 +330,13 @@ impl Server {
                 session.close_document(params.text_document.uri.clone())?;
 
                 // Clear diagnostics for the closed document
-                session
-                    .client()
-                    .publish_diagnostics(params.text_document.uri, vec![], None)?;
+                let client = session.client();
+                client.publish_diagnostics_in_order(
+                    params.text_document.uri,
+                    vec![],
+                    None,
+                    client.publish_ticket(),
+                )?;
                 Ok(())
             }
             types::notification::DidSaveTextDocument::METHOD => {
@@ -343,6 +349,7 @@ impl Server {
                     task_sender.send(Task::LintDocument {
                         snapshot: Box::new(snapshot),
                         client: session.client().clone(),
+                        ticket: session.client().publish_ticket(),
                     })?;
                 }
                 Ok(())
@@ -362,8 +369,8 @@ impl Server {
     ) {
         while let Ok(task) = task_receiver.recv() {
             match task {
-                Task::LintDocument { snapshot, client } => {
-                    if let Err(e) = Self::handle_lint_task(*snapshot, client) {
+                Task::LintDocument { snapshot, client, ticket } => {
+                    if let Err(e) = Self::handle_lint_task(*snapshot, client, ticket) {
                         tracing::error!("Error in lint task: {}", e);
                     }
                 }
@@ -375,7 +382,7 @@ impl Server {
     }
 
     /// Handle linting a document and publishing diagnostics
-    fn handle_lint_task(snapshot: DocumentSnapshot, client: Client) -> LspResult<()> {
+    fn handle_lint_task(snapshot: DocumentSnapshot, client: Client, ticket: u64) -> LspResult<()> {
         let start = Instant::now();
         let output = lint::lint_document(&snapshot)?;
         let elapsed = start.elapsed();
@@ -391,10 +398,11 @@ impl Server {
             let _ = client.notify_unused_fn_threshold_once(output.unused_fn_hidden_count);
         }
 
-        client.publish_diagnostics(
+        client.publish_diagnostics_in_order(
             snapshot.uri().clone(),
             output.diagnostics,
             Some(snapshot.version()),
+            ticket,
         )?;
         Ok(())
     }
-- 
2.43.0


From be2b448c993b2165a0bb71b4a7c16a8d35048c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:06 +0000
Subject: [PATCH 07/59] fix: keep worker threads alive and answer the request
 when a task panics

---
 crates/jarl-lsp/src/server.rs | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/crates/jarl-lsp/src/server.rs b/crates/jarl-lsp/src/server.rs
index a2fd845..9279899 100644
--- a/crates/jarl-lsp/src/server.rs
+++ b/crates/jarl-lsp/src/server.rs
@@ -9,6 +9,7 @@ use lsp_server::{Connection, Message, Notification, Request, RequestId, Response
 use lsp_types::{self as types, notification::Notification as _, request::Request as _};
 
 use std::num::NonZeroUsize;
+use std::panic::{AssertUnwindSafe, catch_unwind};
 use std::thread;
 use std::time::Instant;
 
@@ -368,14 +369,36 @@ impl Server {
         _event_sender: channel::Sender<Event>,
     ) {
         while let Ok(task) = task_receiver.recv() {
+            // A panic must neither stop the worker nor leave a request without
+            // a response.
             match task {
                 Task::LintDocument { snapshot, client, ticket } => {
-                    if let Err(e) = Self::handle_lint_task(*snapshot, client, ticket) {
-                        tracing::error!("Error in lint task: {}", e);
+                    let result = catch_unwind(AssertUnwindSafe(|| {
+                        Self::handle_lint_task(*snapshot, client, ticket)
+                    }));
+                    match result {
+                        Ok(Ok(())) => {}
+                        Ok(Err(e)) => tracing::error!("Error in lint task: {}", e),
+                        Err(_) => tracing::error!("Lint task panicked"),
                     }
                 }
                 Task::HandleCodeActionRequest { snapshot, request_id, params, client } => {
-                    Self::handle_code_action_request(*snapshot, request_id, *params, client);
+                    let result = catch_unwind(AssertUnwindSafe(|| {
+                        Self::handle_code_action_request(
+                            *snapshot,
+                            request_id.clone(),
+                            *params,
+                            client.clone(),
+                        );
+                    }));
+                    if result.is_err()
+                        && let Err(e) = client.send_error_response(
+                            request_id,
+                            anyhow!("Code action request panicked").to_lsp_error(),
+                        )
+                    {
+                        tracing::error!("Failed to send error response: {}", e);
+                    }
                 }
             }
         }
-- 
2.43.0


From 67d1ae5925d749095a634d3eed10a17b24ee5c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:44 +0000
Subject: [PATCH 08/59] fix: use the open document instead of the file on disk
 for package-wide findings

---
 crates/jarl-core/src/package.rs | 16 +++++++++++++++-
 crates/jarl-lsp/src/lint.rs     |  4 ++--
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/crates/jarl-core/src/package.rs b/crates/jarl-core/src/package.rs
index 1be2409..0df6276 100644
--- a/crates/jarl-core/src/package.rs
+++ b/crates/jarl-core/src/package.rs
@@ -63,6 +63,17 @@ pub struct PackageAnalysis {
 /// the unused-function rule is enabled). The results are then dispatched to
 /// the duplicate and unused-function checkers.
 pub fn compute_package_analysis(paths: &[PathBuf], config: &Config) -> PackageAnalysis {
+    compute_package_analysis_with_open_file(paths, config, None)
+}
+
+/// Same as [compute_package_analysis()], except that the content of the given
+/// open file is used instead of what is stored on disk, which may differ while
+/// the file is edited.
+pub fn compute_package_analysis_with_open_file(
+    paths: &[PathBuf],
+    config: &Config,
+    open_file: Option<(&Path, &str)>,
+) -> PackageAnalysis {
     let rules = &config.rules_to_apply;
     let check_duplicates = rules.contains(&Rule::DuplicatedFunctionDefinition);
     let check_unused = rules.contains(&Rule::UnusedFunction);
@@ -173,7 +184,10 @@ pub fn compute_package_analysis(paths: &[PathBuf], config: &Config) -> PackageAn
     let shared_data: Vec<SharedFileData> = all_files
         .par_iter()
         .filter_map(|(path, scope)| {
-            let content = std::fs::read_to_string(path).ok()?;
+            let content = match open_file {
+                Some((open_path, content)) if open_path == *path => content.to_string(),
+                _ => std::fs::read_to_string(path).ok()?,
+            };
             let symbol_counts = if check_unused {
                 scan_symbols(&content)
             } else {
diff --git a/crates/jarl-lsp/src/lint.rs b/crates/jarl-lsp/src/lint.rs
index 42ffbc1..b58bdb9 100644
--- a/crates/jarl-lsp/src/lint.rs
+++ b/crates/jarl-lsp/src/lint.rs
@@ -20,7 +20,7 @@ use jarl_core::config::{ArgsConfig, build_config};
 use jarl_core::diagnostic::Diagnostic as JarlDiagnostic;
 use jarl_core::discovery::{DiscoveredSettings, discover_settings};
 use jarl_core::fs::{has_r_extension, relativize_path};
-use jarl_core::package::{compute_package_analysis, is_in_r_package};
+use jarl_core::package::{compute_package_analysis_with_open_file, is_in_r_package};
 use jarl_core::settings::Settings;
 
 /// Fix information that can be attached to a diagnostic for code actions
@@ -136,7 +136,7 @@ fn run_jarl_linting(content: &str, file_path: Option<&Path>) -> Result<LintInter
 
     // Compute package-level analysis using the real file's sibling R files.
     let pkg = if let Some(package_files) = collect_sibling_r_files(file_path) {
-        compute_package_analysis(&package_files, &config)
+        compute_package_analysis_with_open_file(&package_files, &config, Some((file_path, content)))
     } else {
         Default::default()
     };
-- 
2.43.0


From aae1fd281775e40a5281ac2d2dcc5349b92bf9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:35 +0000
Subject: [PATCH 09/59] fix: end the session only at exit and after all
 requests were answered

---
 crates/jarl-lsp/src/server.rs | 48 ++++++++++++++++++++++++-----------
 1 file changed, 33 insertions(+), 15 deletions(-)

diff --git a/crates/jarl-lsp/src/server.rs b/crates/jarl-lsp/src/server.rs
index 9279899..4ebf55c 100644
--- a/crates/jarl-lsp/src/server.rs
+++ b/crates/jarl-lsp/src/server.rs
@@ -118,19 +118,30 @@ impl Server {
 
         // Spawn worker threads
         tracing::debug!("Spawning {} worker threads", self.worker_threads.get());
+        let mut workers = Vec::with_capacity(self.worker_threads.get());
         for i in 0..self.worker_threads.get() {
             let task_receiver = task_receiver.clone();
             let event_sender = event_sender.clone();
-            thread::spawn(move || {
+            workers.push(thread::spawn(move || {
                 tracing::debug!("Worker thread {} started", i);
                 Self::worker_thread(i, task_receiver, event_sender);
                 tracing::debug!("Worker thread {} stopped", i);
-            });
+            }));
         }
 
         // Run main loop
         tracing::debug!("Starting main event loop");
-        self.main_loop(session, task_sender, event_receiver)
+        let result = self.main_loop(session, task_sender, event_receiver);
+
+        // The task channel is closed now: let the workers finish what was
+        // requested before the end of the session.
+        for worker in workers {
+            if worker.join().is_err() {
+                tracing::error!("A worker thread panicked");
+            }
+        }
+
+        result
     }
 
     /// Main event processing loop
@@ -147,6 +158,15 @@ impl Server {
                 // Handle LSP messages from client
                 recv(self.connection.receiver) -> msg => {
                     match msg {
+                        Ok(Message::Notification(notification))
+                            if notification.method == types::notification::Exit::METHOD =>
+                        {
+                            if !session.is_shutdown_requested() {
+                                return Err(anyhow!("Received exit without shutdown"));
+                            }
+                            tracing::info!("Clean shutdown requested");
+                            break;
+                        }
                         Ok(msg) => {
                             if let Err(e) = self.handle_message(msg, &mut session, &task_sender) {
                                 tracing::error!("Error handling message: {}", e);
@@ -182,10 +202,6 @@ impl Server {
                     }
                 }
             }
-
-            if session.is_shutdown_requested() {
-                break;
-            }
         }
 
         tracing::info!("Main loop stopped");
@@ -220,6 +236,16 @@ impl Server {
     ) -> LspResult<()> {
         let client = session.client().clone();
 
+        // Only `exit` is expected after `shutdown`
+        if session.is_shutdown_requested() {
+            client.send_error_response(
+                request.id,
+                anyhow!("The server is shutting down")
+                    .to_lsp_error_with_code(error_codes::INVALID_REQUEST),
+            )?;
+            return Ok(());
+        }
+
         match request.method.as_str() {
             types::request::Shutdown::METHOD => {
                 session.request_shutdown();
@@ -281,14 +307,6 @@ impl Server {
     ) -> LspResult<()> {
         tracing::debug!("Handling notification: {}", notification.method);
         match notification.method.as_str() {
-            types::notification::Exit::METHOD => {
-                if session.is_shutdown_requested() {
-                    tracing::info!("Clean shutdown requested");
-                } else {
-                    tracing::warn!("Exit without shutdown - this is a protocol violation");
-                }
-                std::process::exit(0);
-            }
             types::notification::DidOpenTextDocument::METHOD => {
                 let params: types::DidOpenTextDocumentParams =
                     serde_json::from_value(notification.params)?;
-- 
2.43.0


From 666d1700b235f441a0cbbef368b4ee15d2be607f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:49 +0000
Subject: [PATCH 10/59] fix: accept an R dependency without a version in
 DESCRIPTION

---
 crates/jarl-core/src/description.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/jarl-core/src/description.rs b/crates/jarl-core/src/description.rs
index 1ab9f3d..b449465 100644
--- a/crates/jarl-core/src/description.rs
+++ b/crates/jarl-core/src/description.rs
@@ -41,9 +41,9 @@ impl Description {
 fn extract_version_from_dependency(dep: &str) -> Option<String> {
     // Look for version requirement in parentheses
     if let Some(start) = dep.find('(')
-        && let Some(end) = dep.find(')')
+        && let Some(len) = dep[start..].find(')')
     {
-        let version_part = &dep[start + 1..end];
+        let version_part = &dep[start + 1..start + len];
         // Remove >= operator and extract just the version number
         let version = version_part.replace(">=", "").trim().to_string();
 
@@ -53,7 +53,7 @@ fn extract_version_from_dependency(dep: &str) -> Option<String> {
     }
 
     // R dependency exists but no version specified
-    unreachable!("DESCRIPTION cannot have 'R' without version in Depends field.")
+    None
 }
 
 /// Parse a DCF (Debian Control File) format string into a key-value map
-- 
2.43.0


From b1a662a1042ae266ff6d28d73f5b24ee766c93e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:38 +0000
Subject: [PATCH 11/59] fix: keep the server running when its stderr is closed

---
 crates/jarl-lsp/src/session.rs     |  4 ++--
 crates/jarl/src/commands/server.rs | 12 ++++++++----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/crates/jarl-lsp/src/session.rs b/crates/jarl-lsp/src/session.rs
index d5d6279..b7c94e2 100644
--- a/crates/jarl-lsp/src/session.rs
+++ b/crates/jarl-lsp/src/session.rs
@@ -154,8 +154,8 @@ impl Session {
     ) -> LspResult<()> {
         let key = DocumentKey::from(uri);
 
-        eprintln!(
-            "JARL LSP: Updating document {} with {} changes to version {}",
+        tracing::debug!(
+            "Updating document {} with {} changes to version {}",
             key.uri(),
             changes.len(),
             version
diff --git a/crates/jarl/src/commands/server.rs b/crates/jarl/src/commands/server.rs
index f6f9535..9287a88 100644
--- a/crates/jarl/src/commands/server.rs
+++ b/crates/jarl/src/commands/server.rs
@@ -1,18 +1,22 @@
 // use crate::args::LanguageServerCommand;
+use std::io::Write;
+
 use crate::{args::ServerCommand, status::ExitStatus};
 
 pub(crate) fn server(_command: ServerCommand) -> anyhow::Result<ExitStatus> {
-    eprintln!("JARL CLI: Starting server command");
+    // Use `writeln` instead of `eprintln` to avoid panicking when the stderr pipe is broken.
+    let mut stderr = std::io::stderr();
+    writeln!(stderr, "JARL CLI: Starting server command").ok();
 
     match jarl_lsp::run() {
         Ok(()) => {
-            eprintln!("JARL CLI: LSP server completed successfully");
+            writeln!(stderr, "JARL CLI: LSP server completed successfully").ok();
             Ok(ExitStatus::Success)
         }
         Err(e) => {
-            eprintln!("JARL CLI: LSP server failed with error: {e}");
+            writeln!(stderr, "JARL CLI: LSP server failed with error: {e}").ok();
             for cause in e.chain() {
-                eprintln!("  Caused by: {cause}");
+                writeln!(stderr, "  Caused by: {cause}").ok();
             }
             Err(e)
         }
-- 
2.43.0


From 8e0111667caeeaf80230a02e0036e727f09cf0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:11 +0000
Subject: [PATCH 12/59] fix: report a configuration file that cannot be read

---
 crates/jarl-core/src/toml.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/jarl-core/src/toml.rs b/crates/jarl-core/src/toml.rs
index 59e9bb4..038e95d 100644
--- a/crates/jarl-core/src/toml.rs
+++ b/crates/jarl-core/src/toml.rs
@@ -49,7 +49,8 @@ impl Display for ParseTomlError {
 }
 
 pub fn parse_jarl_toml(path: &Path) -> Result<TomlOptions, ParseTomlError> {
-    let toml = fs::read_to_string(path).unwrap();
+    let toml =
+        fs::read_to_string(path).map_err(|err| ParseTomlError::Read(path.to_path_buf(), err))?;
     toml::from_str(&toml).map_err(|err| ParseTomlError::Deserialize(path.to_path_buf(), err))
 }
 
-- 
2.43.0


From 71b37914a24670228c56cf5445cb64892878907a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:52 +0000
Subject: [PATCH 13/59] fix: resolve absolute paths without a working directory

---
 crates/jarl-core/src/fs.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/crates/jarl-core/src/fs.rs b/crates/jarl-core/src/fs.rs
index 2aa2211..281453d 100644
--- a/crates/jarl-core/src/fs.rs
+++ b/crates/jarl-core/src/fs.rs
@@ -33,7 +33,9 @@ pub fn is_rmd_extension(ext: &str) -> bool {
 /// directory).
 pub fn normalize_path<P: AsRef<Path>>(path: P) -> PathBuf {
     let path = path.as_ref();
-    if let Ok(path) = path.absolutize() {
+    // An absolute path doesn't need the working directory, which might not exist anymore
+    let cwd = std::env::current_dir().unwrap_or_default();
+    if let Ok(path) = path.absolutize_from(cwd) {
         path.to_path_buf()
     } else {
         path.to_path_buf()
@@ -44,12 +46,9 @@ pub fn normalize_path<P: AsRef<Path>>(path: P) -> PathBuf {
 pub fn relativize_path<P: AsRef<Path>>(path: P) -> String {
     let path = path.as_ref();
 
-    #[cfg(target_arch = "wasm32")]
-    let cwd = Path::new(".");
-    #[cfg(not(target_arch = "wasm32"))]
-    let cwd = path_absolutize::path_dedot::CWD.as_path();
-
-    if let Ok(path) = path.strip_prefix(cwd) {
+    if let Ok(cwd) = std::env::current_dir()
+        && let Ok(path) = path.strip_prefix(cwd)
+    {
         return format!("{}", path.display());
     }
     format!("{}", path.display())
-- 
2.43.0


From 6633483938cb3054ee74072bb272e23a97623526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:06 +0000
Subject: [PATCH 14/59] fix: apply the configuration of the user config
 directory in 'jarl check'

---
 crates/jarl-core/src/discovery.rs | 12 ++++++++++++
 crates/jarl/src/commands/check.rs |  6 ++----
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/crates/jarl-core/src/discovery.rs b/crates/jarl-core/src/discovery.rs
index 2e36a02..65c4f01 100644
--- a/crates/jarl-core/src/discovery.rs
+++ b/crates/jarl-core/src/discovery.rs
@@ -44,6 +44,18 @@ fn get_user_config_dir() -> Option<PathBuf> {
     Some(strategy.config_dir().join("jarl"))
 }
 
+/// Find the directory of the settings in `resolver` that apply to `path`: those of the
+/// nearest `jarl.toml` above it, or else those of the user config directory.
+pub fn resolve_settings_directory(
+    resolver: &PathResolver<Settings>,
+    path: &Path,
+) -> Option<PathBuf> {
+    if let Some(item) = resolver.resolve(path) {
+        return Some(item.path().to_path_buf());
+    }
+    get_user_config_dir().filter(|dir| resolver.items().iter().any(|item| item.path() == dir))
+}
+
 /// This is the core function for walking a set of `paths` looking for `jarl.toml`s.
 ///
 /// You typically follow this function up by loading the set of returned path into a
diff --git a/crates/jarl/src/commands/check.rs b/crates/jarl/src/commands/check.rs
index cfe120f..8097fc9 100644
--- a/crates/jarl/src/commands/check.rs
+++ b/crates/jarl/src/commands/check.rs
@@ -1,5 +1,5 @@
 use air_workspace::resolve::PathResolver;
-use jarl_core::discovery::{discover_r_file_paths, discover_settings};
+use jarl_core::discovery::{discover_r_file_paths, discover_settings, resolve_settings_directory};
 use jarl_core::rule_set::Rule;
 use jarl_core::{
     config::ArgsConfig,
@@ -97,9 +97,7 @@ pub fn check(args: CheckCommand) -> Result<ExitStatus> {
     // checked with the settings from the nearest jarl.toml.
     let mut groups: HashMap<Option<PathBuf>, Vec<PathBuf>> = HashMap::new();
     for path in paths {
-        let key = resolver
-            .resolve(&path)
-            .map(|item| item.path().to_path_buf());
+        let key = resolve_settings_directory(&resolver, &path);
         groups.entry(key).or_default().push(path);
     }
 
-- 
2.43.0


From 209b4569ddb8f17c9ab019d2d4d1438fa0c7addb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:52 +0000
Subject: [PATCH 15/59] fix: exclude the same files in the editor as on the
 command line

---
 crates/jarl-core/src/discovery.rs | 73 +++++++++++++++++++++++++++++++
 crates/jarl-lsp/src/utils.rs      | 48 ++------------------
 2 files changed, 77 insertions(+), 44 deletions(-)

diff --git a/crates/jarl-core/src/discovery.rs b/crates/jarl-core/src/discovery.rs
index 65c4f01..5ed62ec 100644
--- a/crates/jarl-core/src/discovery.rs
+++ b/crates/jarl-core/src/discovery.rs
@@ -199,6 +199,79 @@ fn parse_settings(toml: &Path, root_directory: &Path) -> anyhow::Result<Settings
     Ok(settings)
 }
 
+/// Whether the `exclude`, `default-exclude` and `include` settings that apply to the file `path`
+/// leave it out, for callers that don't get it from [discover_r_file_paths()].
+pub fn is_file_excluded(path: &Path, resolver: &PathResolver<Settings>) -> bool {
+    let directory = resolve_settings_directory(resolver, path);
+    let settings = resolver
+        .items()
+        .iter()
+        .find(|item| Some(item.path()) == directory.as_deref())
+        .map(|item| &item.value().linter);
+    let root = directory
+        .or_else(|| std::env::current_dir().ok())
+        .unwrap_or_default();
+    let relative = path.strip_prefix(&root).unwrap_or(path);
+
+    let build_overrides = |patterns: Vec<String>| {
+        let mut override_builder = ignore::overrides::OverrideBuilder::new(&root);
+        for pattern in patterns {
+            if let Err(e) = override_builder.add(&pattern) {
+                tracing::warn!("Failed to add pattern '{}': {}", pattern, e);
+            }
+        }
+        override_builder.build()
+    };
+
+    // Exclude patterns match the file or one of the directories it is in
+    let mut excludes: Vec<String> = settings
+        .and_then(|linter| linter.exclude.as_ref())
+        .into_iter()
+        .flatten()
+        .map(|pattern| format!("!{pattern}"))
+        .collect();
+    if settings.is_none_or(|linter| linter.default_exclude.unwrap_or(true)) {
+        excludes.extend(
+            DEFAULT_EXCLUDE_PATTERNS
+                .iter()
+                .map(|pattern| format!("!{pattern}")),
+        );
+    }
+    if !excludes.is_empty()
+        && let Ok(overrides) = build_overrides(excludes)
+        && relative
+            .ancestors()
+            .filter(|ancestor| !ancestor.as_os_str().is_empty())
+            .any(|ancestor| {
+                overrides
+                    .matched(ancestor, ancestor != relative)
+                    .is_ignore()
+            })
+    {
+        return true;
+    }
+
+    if let Some(includes) = settings.and_then(|linter| linter.include.as_ref())
+        && !includes.is_empty()
+        && let Ok(overrides) = build_overrides(
+            includes
+                .iter()
+                .map(|pattern| {
+                    if pattern.ends_with('/') {
+                        format!("{pattern}**")
+                    } else {
+                        pattern.clone()
+                    }
+                })
+                .collect(),
+        )
+    {
+        return !overrides.matched(relative, false).is_whitelist();
+    }
+
+    false
+}
+
 type DiscoveredFiles = Vec<Result<PathBuf, ignore::Error>>;
 
 /// For each provided `path`, recursively search for any R files within that `path`
diff --git a/crates/jarl-lsp/src/utils.rs b/crates/jarl-lsp/src/utils.rs
index 7c89bd6..4990066 100644
--- a/crates/jarl-lsp/src/utils.rs
+++ b/crates/jarl-lsp/src/utils.rs
@@ -3,7 +3,9 @@
 use std::path::Path;
 
 use air_workspace::resolve::PathResolver;
+#[cfg(test)]
 use jarl_core::discovery::DEFAULT_EXCLUDE_PATTERNS;
+use jarl_core::discovery::is_file_excluded;
 use jarl_core::settings::Settings;
 
 /// Check if a path string matches an exclusion pattern
@@ -116,49 +118,7 @@ pub fn should_exclude_file_based_on_settings(
     file_path: &Path,
     resolver: &PathResolver<Settings>,
 ) -> bool {
-    // Get the first settings item (the one applicable to this file)
-    let Some(settings_item) = resolver.items().first() else {
-        // No settings found, don't exclude
-        return false;
-    };
-
-    let settings = settings_item.value();
-
-    // Check if default_exclude is enabled (true by default)
-    let use_default_exclude = settings.linter.default_exclude.unwrap_or(true);
-
-    let mut patterns = Vec::new();
-
-    if use_default_exclude {
-        patterns.extend_from_slice(DEFAULT_EXCLUDE_PATTERNS);
-    }
-
-    // Add custom exclude patterns from jarl.toml
-    if let Some(exclude_patterns) = &settings.linter.exclude {
-        for pattern in exclude_patterns {
-            patterns.push(pattern.as_str());
-        }
-    }
-
-    // Check if the file matches any exclusion pattern
-    if !patterns.is_empty() && should_exclude_file(file_path, &patterns) {
-        return true;
-    }
-
-    // Check include patterns: if set and the file doesn't match any, exclude it.
-    if let Some(include_patterns) = &settings.linter.include
-        && !include_patterns.is_empty()
-    {
-        let path_str = file_path.to_string_lossy();
-        let is_included = include_patterns
-            .iter()
-            .any(|p| matches_pattern(&path_str, p));
-        if !is_included {
-            return true;
-        }
-    }
-
-    false
+    is_file_excluded(file_path, resolver)
 }
 
 #[cfg(test)]
@@ -318,7 +278,7 @@ mod tests {
 
     #[test]
     fn test_default_exclude_patterns() {
-        use jarl_core::discovery::DEFAULT_EXCLUDE_PATTERNS;
+        use jarl_core::discovery::is_file_excluded;
 
         // Test all default exclusion patterns
         assert!(should_exclude_file(
-- 
2.43.0


From fab98763d45b274e91a946324408b04b5cffcb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:49 +0000
Subject: [PATCH 16/59] fix: read the minimum R version from the DESCRIPTION of
 each file's package

---
 crates/jarl-core/src/config.rs    | 39 +++++++++++++++----------------
 crates/jarl/src/commands/check.rs | 14 +++++++----
 2 files changed, 29 insertions(+), 24 deletions(-)

diff --git a/crates/jarl-core/src/config.rs b/crates/jarl-core/src/config.rs
index 7e691db..c0f3d7c 100644
--- a/crates/jarl-core/src/config.rs
+++ b/crates/jarl-core/src/config.rs
@@ -7,7 +7,7 @@ use crate::{
 };
 use air_r_syntax::RSyntaxKind;
 use anyhow::Result;
-use std::{collections::HashSet, fs, path::PathBuf};
+use std::{collections::HashSet, fs, path::Path, path::PathBuf};
 
 use crate::rule_options::assignment::ResolvedAssignmentOptions;
 
@@ -506,7 +506,17 @@ fn reconcile_rules(rules_cli: RuleSelection, rules_toml: RuleSelection) -> Resul
     Ok(final_rules)
 }
 
+/// Find the DESCRIPTION file of the project that contains `path`, i.e. the nearest one in
+/// `path` or the directories above it.
+pub fn find_description(path: &Path) -> Option<PathBuf> {
+    path.ancestors()
+        .map(|dir| dir.join("DESCRIPTION"))
+        .find(|desc_path| desc_path.is_file())
+}
+
 /// Determine the minimum R version from CLI args or DESCRIPTION file
+///
+/// All `paths` are expected to belong to the same project.
 fn determine_minimum_r_version(
     check_config: &ArgsConfig,
     paths: &[PathBuf],
@@ -515,26 +525,15 @@ fn determine_minimum_r_version(
         return Ok(Some(parse_r_version(version_string.clone())?));
     }
 
-    // Look for DESCRIPTION file in any of the project paths
-    // TODO: this seems wasteful but I don't have a good infrastructure for now
-    // for getting the common root of the paths.
-    for path in paths {
-        let desc_path = if path.is_dir() {
-            path.join("DESCRIPTION")
-        } else if let Some(parent) = path.parent() {
-            parent.join("DESCRIPTION")
-        } else {
-            continue;
-        };
+    let Some(desc_path) = paths.iter().find_map(|path| find_description(path)) else {
+        return Ok(None);
+    };
 
-        if desc_path.exists() {
-            let desc = fs::read_to_string(&desc_path)?;
-            if let Ok(versions) = Description::get_depend_r_version(&desc)
-                && let Some(version_str) = versions.first()
-            {
-                return Ok(Some(parse_r_version(version_str.to_string())?));
-            }
-        }
+    let desc = fs::read_to_string(&desc_path)?;
+    if let Ok(versions) = Description::get_depend_r_version(&desc)
+        && let Some(version_str) = versions.first()
+    {
+        return Ok(Some(parse_r_version(version_str.to_string())?));
     }
 
     Ok(None)
diff --git a/crates/jarl/src/commands/check.rs b/crates/jarl/src/commands/check.rs
index 8097fc9..a77692c 100644
--- a/crates/jarl/src/commands/check.rs
+++ b/crates/jarl/src/commands/check.rs
@@ -4,6 +4,7 @@ use jarl_core::rule_set::Rule;
 use jarl_core::{
     config::ArgsConfig,
     config::build_config,
+    config::find_description,
     diagnostic::Diagnostic,
     fs::has_rmd_extension,
     settings::Settings,
@@ -94,15 +95,20 @@ pub fn check(args: CheckCommand) -> Result<ExitStatus> {
     };
 
     // Group paths by their closest resolved config directory, so each file is
-    // checked with the settings from the nearest jarl.toml.
-    let mut groups: HashMap<Option<PathBuf>, Vec<PathBuf>> = HashMap::new();
+    // checked with the settings from the nearest jarl.toml, and by their closest
+    // DESCRIPTION, so that each file is checked with the minimum R version of the
+    // package it belongs to.
+    let mut groups: HashMap<(Option<PathBuf>, Option<PathBuf>), Vec<PathBuf>> = HashMap::new();
     for path in paths {
-        let key = resolve_settings_directory(&resolver, &path);
+        let key = (
+            resolve_settings_directory(&resolver, &path),
+            find_description(&path),
+        );
         groups.entry(key).or_default().push(path);
     }
 
     let mut file_results = Vec::new();
-    for (dir_key, group_paths) in groups {
+    for ((dir_key, _), group_paths) in groups {
         let settings = dir_key
             .as_deref()
             .and_then(|dir| resolver.items().iter().find(|item| item.path() == dir))
-- 
2.43.0


From 4f05159edb0a0e2f7cde1de5e6907a3425144860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:20 +0000
Subject: [PATCH 17/59] fix: check version control once, before fixing any file

---
 crates/jarl-core/src/check.rs     | 31 +++++++++++++++++++++++++------
 crates/jarl/src/commands/check.rs | 12 +++++++-----
 2 files changed, 32 insertions(+), 11 deletions(-)

diff --git a/crates/jarl-core/src/check.rs b/crates/jarl-core/src/check.rs
index 4f49344..69ed5ee 100644
--- a/crates/jarl-core/src/check.rs
+++ b/crates/jarl-core/src/check.rs
@@ -22,20 +22,39 @@ use crate::fix::*;
 use crate::utils::*;
 
 pub fn check(config: Config) -> Vec<(String, Result<Vec<Diagnostic>, anyhow::Error>)> {
-    let pkg = compute_package_analysis(&config.paths, &config);
+    check_all(vec![config])
+}
 
+/// Check several groups of files, each one having its own config.
+pub fn check_all(configs: Vec<Config>) -> Vec<(String, Result<Vec<Diagnostic>, anyhow::Error>)> {
     // Ensure that all paths are covered by VCS. This is conservative because
     // technically we could apply fixes on those that are covered by VCS and
     // error for the others, but I'd rather be on the safe side and force the
     // user to deal with that before applying any fixes.
-    if (config.apply_fixes || config.apply_unsafe_fixes) && !config.paths.is_empty() {
-        let path_strings: Vec<String> = config.paths.iter().map(relativize_path).collect();
-        if let Err(e) = check_version_control(&path_strings, &config) {
-            let first_path = path_strings.first().unwrap().clone();
-            return vec![(first_path, Err(e))];
+    //
+    // This must come before checking any of the groups, otherwise the fixes applied
+    // in a group would be uncommitted changes for the next ones.
+    if let Some(config) = configs
+        .iter()
+        .find(|config| config.apply_fixes || config.apply_unsafe_fixes)
+    {
+        let path_strings: Vec<String> = configs
+            .iter()
+            .flat_map(|config| config.paths.iter().map(relativize_path))
+            .collect();
+        if let Some(first_path) = path_strings.first()
+            && let Err(e) = check_version_control(&path_strings, config)
+        {
+            return vec![(first_path.clone(), Err(e))];
         }
     }
 
+    configs.into_iter().flat_map(check_group).collect()
+}
+
+fn check_group(config: Config) -> Vec<(String, Result<Vec<Diagnostic>, anyhow::Error>)> {
+    let pkg = compute_package_analysis(&config.paths, &config);
+
     // Wrap config and package analysis in Arc to avoid expensive clones in parallel execution
     let config = Arc::new(config);
     let pkg = Arc::new(pkg);
diff --git a/crates/jarl/src/commands/check.rs b/crates/jarl/src/commands/check.rs
index a77692c..d775c3b 100644
--- a/crates/jarl/src/commands/check.rs
+++ b/crates/jarl/src/commands/check.rs
@@ -17,7 +17,6 @@ use anyhow::Result;
 use colored::Colorize;
 use std::collections::BTreeMap;
 use std::collections::BTreeSet;
-use std::collections::HashMap;
 use std::env;
 use std::path::PathBuf;
 use std::time::Instant;
@@ -98,7 +97,7 @@ pub fn check(args: CheckCommand) -> Result<ExitStatus> {
     // checked with the settings from the nearest jarl.toml, and by their closest
     // DESCRIPTION, so that each file is checked with the minimum R version of the
     // package it belongs to.
-    let mut groups: HashMap<(Option<PathBuf>, Option<PathBuf>), Vec<PathBuf>> = HashMap::new();
+    let mut groups: BTreeMap<(Option<PathBuf>, Option<PathBuf>), Vec<PathBuf>> = BTreeMap::new();
     for path in paths {
         let key = (
             resolve_settings_directory(&resolver, &path),
@@ -107,16 +106,19 @@ pub fn check(args: CheckCommand) -> Result<ExitStatus> {
         groups.entry(key).or_default().push(path);
     }
 
-    let mut file_results = Vec::new();
+    // Build all the configs before checking anything, so that an invalid one is reported
+    // before some of the files are modified.
+    let mut configs = Vec::new();
     for ((dir_key, _), group_paths) in groups {
         let settings = dir_key
             .as_deref()
             .and_then(|dir| resolver.items().iter().find(|item| item.path() == dir))
             .map(|item| item.value());
-        let config = build_config(&check_config, settings, group_paths)?;
-        file_results.extend(jarl_core::check::check(config));
+        configs.push(build_config(&check_config, settings, group_paths)?);
     }
 
+    let file_results = jarl_core::check::check_all(configs);
+
     let mut all_errors = Vec::new();
     let mut all_diagnostics = Vec::new();
 
-- 
2.43.0


From 505641df6b615ab18bc01778444929f16a2744fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:28 +0000
Subject: [PATCH 18/59] fix: apply the exclusions of a config only to the files
 it covers

---
 crates/jarl-core/src/discovery.rs | 96 ++++++++++++++++++-------------
 1 file changed, 55 insertions(+), 41 deletions(-)

diff --git a/crates/jarl-core/src/discovery.rs b/crates/jarl-core/src/discovery.rs
index 5ed62ec..46fd3a8 100644
--- a/crates/jarl-core/src/discovery.rs
+++ b/crates/jarl-core/src/discovery.rs
@@ -272,6 +272,21 @@ pub fn is_file_excluded(path: &Path, resolver: &PathResolver<Settings>) -> bool
     false
 }
 
+/// Build the matcher of the `patterns` to exclude below `root`, if there are any.
+fn build_exclude_overrides(root: &Path, patterns: &[&str]) -> Option<ignore::overrides::Override> {
+    if patterns.is_empty() {
+        return None;
+    }
+    let mut override_builder = ignore::overrides::OverrideBuilder::new(root);
+    for pattern in patterns {
+        // Add as negation pattern (exclude)
+        if let Err(e) = override_builder.add(&format!("!{pattern}")) {
+            tracing::warn!("Failed to add exclude pattern '{}': {}", pattern, e);
+        }
+    }
+    override_builder.build().ok()
+}
+
 type DiscoveredFiles = Vec<Result<PathBuf, ignore::Error>>;
 
 /// For each provided `path`, recursively search for any R files within that `path`
@@ -311,46 +326,46 @@ pub fn discover_r_file_paths<P: AsRef<Path>>(
     builder.git_global(true);
     builder.git_exclude(true);
 
-    // Add exclude patterns from settings if linter settings should be used
+    // Skip what is excluded by the settings if linter settings should be used. A file or
+    // directory is excluded by the settings that apply to the directory it is in.
     if use_linter_settings {
-        // Build custom ignore patterns
-        let mut patterns = Vec::new();
-
-        // Default root directory if no settings found
-        let mut root = Path::new(".");
-
-        if let Some(settings_item) = resolver.items().first() {
-            let settings = settings_item.value();
-            root = settings_item.path();
-
-            // Add custom exclude patterns from jarl.toml
-            if let Some(exclude_patterns) = &settings.linter.exclude {
-                for pattern in exclude_patterns {
-                    patterns.push(pattern.as_str());
-                }
-            }
-            if settings.linter.default_exclude.unwrap_or(true) {
-                // Add default exclude patterns
-                patterns.extend_from_slice(DEFAULT_EXCLUDE_PATTERNS);
-            }
-        } else if !no_default_exclude {
-            // Add default exclude patterns
-            patterns.extend_from_slice(DEFAULT_EXCLUDE_PATTERNS);
-        }
-
-        // If we have patterns, create an override and add it to the builder
-        if !patterns.is_empty() {
-            let mut override_builder = ignore::overrides::OverrideBuilder::new(root);
-            for pattern in patterns {
-                // Add as negation pattern (exclude)
-                if let Err(e) = override_builder.add(&format!("!{pattern}")) {
-                    tracing::warn!("Failed to add exclude pattern '{}': {}", pattern, e);
+        let default_excludes = (!no_default_exclude)
+            .then(|| build_exclude_overrides(Path::new("."), DEFAULT_EXCLUDE_PATTERNS))
+            .flatten();
+
+        let excludes: Vec<_> = resolver
+            .items()
+            .iter()
+            .map(|item| {
+                let linter = &item.value().linter;
+                let mut patterns: Vec<&str> = linter
+                    .exclude
+                    .iter()
+                    .flatten()
+                    .map(String::as_str)
+                    .collect();
+                if linter.default_exclude.unwrap_or(true) {
+                    patterns.extend_from_slice(DEFAULT_EXCLUDE_PATTERNS);
                 }
-            }
-            if let Ok(overrides) = override_builder.build() {
-                builder.overrides(overrides);
-            }
-        }
+                let overrides = build_exclude_overrides(item.path(), &patterns);
+                (item.path().to_path_buf(), overrides)
+            })
+            .collect();
+        let user_config_dir = get_user_config_dir();
+
+        builder.filter_entry(move |entry| {
+            let path = entry.path();
+            let overrides = path
+                .ancestors()
+                .skip(1)
+                .chain(user_config_dir.as_deref())
+                .find_map(|dir| excludes.iter().find(|(directory, _)| directory == dir))
+                .map_or(default_excludes.as_ref(), |(_, overrides)| {
+                    overrides.as_ref()
+                });
+            let is_dir = entry.file_type().is_some_and(|ft| ft.is_dir());
+            !overrides.is_some_and(|overrides| overrides.matched(path, is_dir).is_ignore())
+        });
     }
 
     // Prefer `available_parallelism()`, with a max of 12 threads
@@ -371,9 +386,8 @@ pub fn discover_r_file_paths<P: AsRef<Path>>(
 
     // Post-filter: apply per-config exclude and include patterns.
     //
-    // The WalkBuilder above only applies the first config's exclude patterns.
-    // When there are multiple configs (e.g. root jarl.toml + mypkg/jarl.toml),
-    // nested configs' exclude/include patterns must be enforced here by
+    // The WalkBuilder above doesn't filter the paths that were explicitly given,
+    // and doesn't apply the include patterns. They must be enforced here by
     // resolving each file to its nearest config.
     if use_linter_settings {
         files.retain(|result| {
-- 
2.43.0


From 0c0381146bbe9e016a6a6cb4ab7759d90f0ff2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:49 +0000
Subject: [PATCH 19/59] fix: don't count excluded files for the unused_function
 threshold in the editor

---
 crates/jarl-lsp/src/lint.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/jarl-lsp/src/lint.rs b/crates/jarl-lsp/src/lint.rs
index b58bdb9..58699ee 100644
--- a/crates/jarl-lsp/src/lint.rs
+++ b/crates/jarl-lsp/src/lint.rs
@@ -19,7 +19,7 @@ use jarl_core::check::get_checks;
 use jarl_core::config::{ArgsConfig, build_config};
 use jarl_core::diagnostic::Diagnostic as JarlDiagnostic;
 use jarl_core::discovery::{DiscoveredSettings, discover_settings};
-use jarl_core::fs::{has_r_extension, relativize_path};
+use jarl_core::fs::{has_r_extension, normalize_path, relativize_path};
 use jarl_core::package::{compute_package_analysis_with_open_file, is_in_r_package};
 use jarl_core::settings::Settings;
 
@@ -163,7 +163,15 @@ fn run_jarl_linting(content: &str, file_path: Option<&Path>) -> Result<LintInter
         if explicitly_selected {
             0
         } else {
-            let total_unused: usize = pkg.unused_functions.values().map(|v| v.len()).sum();
+            // Excluded files are part of the package analysis, but have no diagnostics.
+            let total_unused: usize = pkg
+                .unused_functions
+                .iter()
+                .filter(|(path, _)| {
+                    !should_exclude_file_based_on_settings(&normalize_path(path), &resolver)
+                })
+                .map(|(_, v)| v.len())
+                .sum();
             let threshold = resolver
                 .items()
                 .iter()
-- 
2.43.0


From 4a99adf333255a023320342eaf8bbe91a07bc86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:36 +0000
Subject: [PATCH 20/59] fix: compute the ranges of fixes in bytes

The ranges of fixes are in bytes but the shift caused by the previous fixes was
counted in characters, and the end of the last applied fix counted this shift
twice. A fix on a file with non-ASCII text could therefore replace the wrong
bytes, or be applied inside the text of the previous one.
---
 crates/jarl-core/src/fix.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/jarl-core/src/fix.rs b/crates/jarl-core/src/fix.rs
index a2051bc..271fde8 100644
--- a/crates/jarl-core/src/fix.rs
+++ b/crates/jarl-core/src/fix.rs
@@ -32,7 +32,8 @@ pub fn apply_fixes(fixes: &[Diagnostic], contents: &str) -> (bool, String) {
     let mut last_modified_pos = 0;
     let mut has_skipped_fixes = false;
 
-    let old_length = old_content.chars().count() as i32;
+    // The ranges of fixes are in bytes, not in characters.
+    let old_length = old_content.len() as i32;
     let mut new_length = old_length;
 
     for fix in fixes {
@@ -57,8 +58,8 @@ pub fn apply_fixes(fixes: &[Diagnostic], contents: &str) -> (bool, String) {
         let end_usize = end as usize;
 
         new_content.replace_range(start_usize..end_usize, &fix.content);
-        new_length = new_content.chars().count() as i32;
-        last_modified_pos = end + diff_length;
+        new_length = new_content.len() as i32;
+        last_modified_pos = start + fix.content.len() as i32;
     }
 
     (has_skipped_fixes, new_content)
-- 
2.43.0


From 38f09827943bb9b45aee89087e5d85014f9df53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:19 +0000
Subject: [PATCH 21/59] fix: write fixed files atomically and only once

Each pass of fixes truncated the file and wrote it again in place, so a crash or a
failed write left it empty, truncated, or with only some of its fixes. Apply all
the passes in memory, and replace the file as a whole.
---
 crates/jarl-core/src/check.rs     | 13 +++++++++----
 crates/jarl-core/src/fix.rs       | 30 ++++++++++++++++++++++++++++++
 crates/jarl/src/commands/check.rs |  3 ++-
 3 files changed, 41 insertions(+), 5 deletions(-)

diff --git a/crates/jarl-core/src/check.rs b/crates/jarl-core/src/check.rs
index 69ed5ee..aa68502 100644
--- a/crates/jarl-core/src/check.rs
+++ b/crates/jarl-core/src/check.rs
@@ -108,13 +108,14 @@ pub fn lint_fix(
 
     let path = relativize_path(path);
 
+    let original_contents = fs::read_to_string(Path::new(&path))
+        .with_context(|| format!("Failed to read file: {path}",))?;
+
+    let mut contents = original_contents.clone();
     let mut has_skipped_fixes = true;
     let mut checks: Vec<Diagnostic>;
 
     loop {
-        let contents = fs::read_to_string(Path::new(&path))
-            .with_context(|| format!("Failed to read file: {path}",))?;
-
         checks = get_checks(&contents, &PathBuf::from(&path), &config, &pkg)
             .with_context(|| format!("Failed to get checks for file: {path}",))?;
 
@@ -124,8 +125,12 @@ pub fn lint_fix(
 
         let (new_has_skipped_fixes, fixed_text) = apply_fixes(&checks, &contents);
         has_skipped_fixes = new_has_skipped_fixes;
+        contents = fixed_text;
+    }
 
-        fs::write(&path, fixed_text).with_context(|| format!("Failed to write file: {path}",))?;
+    // Write the file once, when all fixes are applied, and only if there were some.
+    if contents != original_contents {
+        write_file(&path, &contents).with_context(|| format!("Failed to write file: {path}",))?;
     }
 
     Ok(checks)
diff --git a/crates/jarl-core/src/fix.rs b/crates/jarl-core/src/fix.rs
index 271fde8..3c8fa60 100644
--- a/crates/jarl-core/src/fix.rs
+++ b/crates/jarl-core/src/fix.rs
@@ -1,4 +1,7 @@
 use crate::diagnostic::*;
+use std::fs;
+use std::io::{self, Write};
+use std::path::Path;
 
 /// Takes all diagnostics found in a given file and the content of this file,
 /// and applies automatic fixes.
@@ -64,3 +67,30 @@ pub fn apply_fixes(fixes: &[Diagnostic], contents: &str) -> (bool, String) {
 
     (has_skipped_fixes, new_content)
 }
+
+/// Replaces the content of an existing file as a whole: whatever happens in the
+/// meantime, the file has either its previous content or the new one.
+///
+/// This goes through a temporary file in the same directory that is then moved
+/// to its final destination. The permissions of the file are preserved, and
+/// symbolic links are followed.
+pub fn write_file(path: impl AsRef<Path>, contents: &str) -> io::Result<()> {
+    let path = fs::canonicalize(path)?;
+
+    // Moving a file only requires permissions on the directory, but we don't want
+    // to modify read-only files.
+    let permissions = fs::OpenOptions::new()
+        .write(true)
+        .open(&path)?
+        .metadata()?
+        .permissions();
+
+    let directory = path.parent().unwrap_or(Path::new("."));
+    let mut temporary = tempfile::NamedTempFile::new_in(directory)?;
+    temporary.write_all(contents.as_bytes())?;
+    temporary.as_file().set_permissions(permissions)?;
+    temporary.as_file().sync_all()?;
+    temporary.persist(&path)?;
+
+    Ok(())
+}
diff --git a/crates/jarl/src/commands/check.rs b/crates/jarl/src/commands/check.rs
index d775c3b..3b5e0b4 100644
--- a/crates/jarl/src/commands/check.rs
+++ b/crates/jarl/src/commands/check.rs
@@ -6,6 +6,7 @@ use jarl_core::{
     config::build_config,
     config::find_description,
     diagnostic::Diagnostic,
+    fix::write_file,
     fs::has_rmd_extension,
     settings::Settings,
     suppression_edit::{
@@ -387,7 +388,7 @@ fn add_jarl_ignore_comments(
             .sum();
 
         // Write the modified content back
-        match std::fs::write(&path, &modified_content) {
+        match write_file(&path, &modified_content) {
             Ok(()) => {
                 total_suppressions += num_suppressions;
                 files_modified += 1;
-- 
2.43.0


From dbfc0df4ba5c0b9177c0efafc9e1e67b9afc030d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:02 +0000
Subject: [PATCH 22/59] fix: report the paths that couldn't be visited

Paths that don't exist and directories that can't be listed were silently ignored,
and 'jarl check' succeeded. Files given twice through overlapping arguments were
also checked twice, and the order of the output was the random one of the walker.
---
 crates/jarl-core/src/discovery.rs | 20 ++++++++++++++++++++
 crates/jarl/src/commands/check.rs | 24 +++++++++++++++++-------
 2 files changed, 37 insertions(+), 7 deletions(-)

diff --git a/crates/jarl-core/src/discovery.rs b/crates/jarl-core/src/discovery.rs
index 46fd3a8..37aba6f 100644
--- a/crates/jarl-core/src/discovery.rs
+++ b/crates/jarl-core/src/discovery.rs
@@ -450,9 +450,29 @@ pub fn discover_r_file_paths<P: AsRef<Path>>(
         });
     }
 
+    // The walker finds files in no particular order, and several times if the provided
+    // `paths` overlap.
+    files.sort_by_cached_key(|result| match result {
+        Ok(path) => (path.clone(), String::new()),
+        Err(error) => (
+            error_path(error).unwrap_or(Path::new("")).to_path_buf(),
+            error.to_string(),
+        ),
+    });
+    files.dedup_by(|a, b| matches!((a, b), (Ok(a), Ok(b)) if a == b));
+
     files
 }
 
+/// The path that couldn't be visited by [discover_r_file_paths()].
+pub fn error_path(error: &ignore::Error) -> Option<&Path> {
+    match error {
+        ignore::Error::WithPath { path, .. } => Some(path),
+        ignore::Error::WithDepth { err, .. } => error_path(err),
+        _ => None,
+    }
+}
+
 /// Shared state across the threads of the walker
 struct FilesState {
     files: std::sync::Mutex<DiscoveredFiles>,
diff --git a/crates/jarl/src/commands/check.rs b/crates/jarl/src/commands/check.rs
index 3b5e0b4..63b4098 100644
--- a/crates/jarl/src/commands/check.rs
+++ b/crates/jarl/src/commands/check.rs
@@ -1,5 +1,8 @@
 use air_workspace::resolve::PathResolver;
-use jarl_core::discovery::{discover_r_file_paths, discover_settings, resolve_settings_directory};
+use jarl_core::discovery::{
+    discover_r_file_paths, discover_settings, error_path, resolve_settings_directory,
+};
+use jarl_core::fs::relativize_path;
 use jarl_core::rule_set::Rule;
 use jarl_core::{
     config::ArgsConfig,
@@ -66,12 +69,20 @@ pub fn check(args: CheckCommand) -> Result<ExitStatus> {
         resolver.add(&ds.directory, ds.settings);
     }
 
-    let paths = discover_r_file_paths(&args.files, &resolver, true, args.no_default_exclude)
-        .into_iter()
-        .filter_map(Result::ok)
-        .collect::<Vec<_>>();
+    let mut paths = Vec::new();
+    let mut all_errors = Vec::new();
 
-    if paths.is_empty() {
+    for result in discover_r_file_paths(&args.files, &resolver, true, args.no_default_exclude) {
+        match result {
+            Ok(path) => paths.push(path),
+            Err(e) => {
+                let path = error_path(&e).map(relativize_path).unwrap_or_default();
+                all_errors.push((path, e.into()));
+            }
+        }
+    }
+
+    if paths.is_empty() && all_errors.is_empty() {
         println!(
             "{}: {}",
             "Warning".yellow().bold(),
@@ -120,7 +131,6 @@ pub fn check(args: CheckCommand) -> Result<ExitStatus> {
 
     let file_results = jarl_core::check::check_all(configs);
 
-    let mut all_errors = Vec::new();
     let mut all_diagnostics = Vec::new();
 
     for (path, result) in file_results {
-- 
2.43.0


From 15bd480d69bb50f150d6ea1d4620d3663ef943b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:27 +0000
Subject: [PATCH 23/59] fix: report errors and fail when adding suppression
 comments

With '--add-jarl-ignore', files that couldn't be read, parsed or written were
either ignored or only mentioned, and the exit status was a success.
---
 crates/jarl/src/commands/check.rs | 20 ++++++++++++++++----
 crates/jarl/src/output_format.rs  | 30 ++++++++++++++----------------
 2 files changed, 30 insertions(+), 20 deletions(-)

diff --git a/crates/jarl/src/commands/check.rs b/crates/jarl/src/commands/check.rs
index 63b4098..4147074 100644
--- a/crates/jarl/src/commands/check.rs
+++ b/crates/jarl/src/commands/check.rs
@@ -26,7 +26,9 @@ use std::path::PathBuf;
 use std::time::Instant;
 
 use crate::args::CheckCommand;
-use crate::output_format::{self, GithubEmitter, print_notes, print_summary, print_warnings};
+use crate::output_format::{
+    self, GithubEmitter, print_errors, print_notes, print_summary, print_warnings,
+};
 use crate::statistics::print_statistics;
 use crate::status::ExitStatus;
 
@@ -148,7 +150,7 @@ pub fn check(args: CheckCommand) -> Result<ExitStatus> {
 
     // Handle --add-jarl-ignore: insert suppression comments for all diagnostics
     if let Some(reason) = &args.add_jarl_ignore {
-        return add_jarl_ignore_comments(&all_diagnostics, reason, parent_config_path);
+        return add_jarl_ignore_comments(&all_diagnostics, &all_errors, reason, parent_config_path);
     }
 
     let (unused_fn_hidden, unused_fn_count) =
@@ -287,6 +289,7 @@ pub fn check(args: CheckCommand) -> Result<ExitStatus> {
 /// Insert `# jarl-ignore` comments for all diagnostics in the given files.
 fn add_jarl_ignore_comments(
     all_diagnostics: &[(String, Vec<Diagnostic>)],
+    all_errors: &[(String, anyhow::Error)],
     reason: &str,
     parent_config_path: Option<PathBuf>,
 ) -> Result<ExitStatus> {
@@ -297,13 +300,20 @@ fn add_jarl_ignore_comments(
         ));
     }
 
+    print_errors(all_errors);
+    let mut status = if all_errors.is_empty() {
+        ExitStatus::Success
+    } else {
+        ExitStatus::Error
+    };
+
     if all_diagnostics.is_empty() {
         println!(
             "{}: {}",
             "Info".cyan().bold(),
             "No violations found, no suppression comments added.".white()
         );
-        return Ok(ExitStatus::Success);
+        return Ok(status);
     }
 
     let mut total_suppressions = 0;
@@ -327,6 +337,7 @@ fn add_jarl_ignore_comments(
                     path.display(),
                     e
                 );
+                status = ExitStatus::Error;
                 continue;
             }
         };
@@ -416,6 +427,7 @@ fn add_jarl_ignore_comments(
                     path.display(),
                     e
                 );
+                status = ExitStatus::Error;
             }
         }
     }
@@ -435,7 +447,7 @@ fn add_jarl_ignore_comments(
         println!("\nUsed '{}'", config_path.display());
     }
 
-    Ok(ExitStatus::Success)
+    Ok(status)
 }
 
 /// Hide `unused_function` diagnostics when they exceed the configured
diff --git a/crates/jarl/src/output_format.rs b/crates/jarl/src/output_format.rs
index fee4fd7..1adf51f 100644
--- a/crates/jarl/src/output_format.rs
+++ b/crates/jarl/src/output_format.rs
@@ -83,6 +83,18 @@ pub fn print_summary(diagnostics: &[&Diagnostic], has_errors: bool) {
     }
 }
 
+/// Prints the errors met while checking files, such as parsing errors, on stderr.
+pub fn print_errors(errors: &[(String, anyhow::Error)]) {
+    for (_path, err) in errors {
+        let root_cause = err.chain().last().unwrap();
+        if root_cause.is::<jarl_core::error::ParseError>() {
+            eprintln!("{}: {}", "Error".red().bold(), root_cause);
+        } else {
+            eprintln!("{}: {}", "Error".red().bold(), err);
+        }
+    }
+}
+
 /// Prints warnings under a `── Warnings ──` section header.
 pub fn print_warnings(warnings: &[String]) {
     if warnings.is_empty() {
@@ -158,14 +170,7 @@ impl Emitter for ConciseEmitter {
         // First, print all parsing errors
         if !errors.is_empty() {
             writer.flush()?; // Flush before writing to stderr
-            for (_path, err) in errors {
-                let root_cause = err.chain().last().unwrap();
-                if root_cause.is::<jarl_core::error::ParseError>() {
-                    eprintln!("{}: {}", "Error".red().bold(), root_cause);
-                } else {
-                    eprintln!("{}: {}", "Error".red().bold(), err);
-                }
-            }
+            print_errors(errors);
         }
 
         // Cache relativized paths to avoid repeated filesystem operations
@@ -308,14 +313,7 @@ impl Emitter for FullEmitter {
         // First, print all parsing errors
         if !errors.is_empty() {
             writer.flush()?; // Flush before writing to stderr
-            for (_path, err) in errors {
-                let root_cause = err.chain().last().unwrap();
-                if root_cause.is::<jarl_core::error::ParseError>() {
-                    eprintln!("{}: {}", "Error".red().bold(), root_cause);
-                } else {
-                    eprintln!("{}: {}", "Error".red().bold(), err);
-                }
-            }
+            print_errors(errors);
             if !diagnostics.is_empty() {
                 eprintln!(); // Add separator between errors and diagnostics
             }
-- 
2.43.0


From 97685986392bbbdf23e040c4b90b315225f203c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:12 +0000
Subject: [PATCH 24/59] fix: make --fix-only imply --fix, and respect the
 absence of --unsafe-fixes

'--fix-only' alone didn't fix anything, contrary to its documentation, and
'--fix --fix-only' applied unsafe fixes.
---
 crates/jarl-core/src/config.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/jarl-core/src/config.rs b/crates/jarl-core/src/config.rs
index c0f3d7c..ce2bcf7 100644
--- a/crates/jarl-core/src/config.rs
+++ b/crates/jarl-core/src/config.rs
@@ -106,9 +106,12 @@ pub fn build_config(
     // These will be stored in Config and checked when applying fixes.
     let (fixable_toml, unfixable_toml) = parse_fixable_toml(toml_settings)?;
 
+    // Using --fix-only implies using --fix.
+    let apply_fixes = check_config.fix || check_config.fix_only;
+
     // Resolve the interaction between --fix and --unsafe-fixes first. Using
     // --unsafe-fixes implies using --fix, but the opposite is not true.
-    let rules_to_apply = match (check_config.fix, check_config.unsafe_fixes) {
+    let rules_to_apply = match (apply_fixes, check_config.unsafe_fixes) {
         (false, false) => rules.clone(),
 
         (true, false) => rules
@@ -126,7 +129,7 @@ pub fn build_config(
     // --fix-only. This could maybe be done above but dealing with the three
     // args at the same time makes it much more complex.
     let rules_to_apply = if check_config.fix_only {
-        rules
+        rules_to_apply
             .iter()
             .filter(|r| !r.has_no_fix())
             .collect::<RuleSet>()
@@ -147,7 +150,7 @@ pub fn build_config(
         paths,
         rules,
         rules_to_apply,
-        apply_fixes: check_config.fix,
+        apply_fixes,
         apply_unsafe_fixes: check_config.unsafe_fixes,
         minimum_r_version,
         allow_dirty: check_config.allow_dirty,
-- 
2.43.0


From 5a32a261645f439509c69bf15ced0fd7c1df8e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:32 +0000
Subject: [PATCH 25/59] fix: refuse to fix in a dirty repository with
 --allow-no-vcs

This flag is about files without version control, but it also skipped the check for
uncommitted changes in the repositories that exist. Also list the uncommitted
changes of several repositories in a stable order.
---
 crates/jarl-core/src/vcs.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/crates/jarl-core/src/vcs.rs b/crates/jarl-core/src/vcs.rs
index 58381b9..ffc265b 100644
--- a/crates/jarl-core/src/vcs.rs
+++ b/crates/jarl-core/src/vcs.rs
@@ -1,6 +1,6 @@
 use crate::config::Config;
 use anyhow::{Result, bail};
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 use std::path::Path;
 
 /// Check version control status once for multiple paths.
@@ -17,12 +17,8 @@ use std::path::Path;
 /// by grouping files per repo first. Then, we go through the repos to get the
 /// statuses (only once per repo).
 pub fn check_version_control(paths: &[String], config: &Config) -> Result<()> {
-    if config.allow_no_vcs {
-        return Ok(());
-    }
-
     // Group paths by their repository root
-    let mut repo_to_paths: HashMap<String, Vec<String>> = HashMap::new();
+    let mut repo_to_paths: BTreeMap<String, Vec<String>> = BTreeMap::new();
     let mut paths_without_repo: Vec<String> = Vec::new();
 
     for path in paths {
@@ -47,7 +43,7 @@ pub fn check_version_control(paths: &[String], config: &Config) -> Result<()> {
     }
 
     // Check if any paths are not in a repo
-    if !paths_without_repo.is_empty() {
+    if !paths_without_repo.is_empty() && !config.allow_no_vcs {
         bail!(
             "`jarl check --fix` can potentially perform destructive changes but no \
             Version Control System (e.g. Git) was found on this project, so no fixes \
-- 
2.43.0


From c26a9f0bcf783269fe5b58c2c635cfdbaff004e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:01 +0000
Subject: [PATCH 26/59] fix: print rules with the same number of violations in
 a stable order

'--statistics' printed them in the random order of a hash map.
---
 crates/jarl/src/statistics.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/jarl/src/statistics.rs b/crates/jarl/src/statistics.rs
index 8d1345e..8f6bd0c 100644
--- a/crates/jarl/src/statistics.rs
+++ b/crates/jarl/src/statistics.rs
@@ -1,6 +1,6 @@
 use colored::Colorize;
 use jarl_core::diagnostic::Diagnostic;
-use std::{collections::HashMap, path::PathBuf};
+use std::{cmp::Reverse, collections::BTreeMap, path::PathBuf};
 
 use crate::status::ExitStatus;
 
@@ -13,9 +13,9 @@ pub fn print_statistics(
         return Ok(ExitStatus::Success);
     }
 
-    // Hashmap with rule name as key, and (number of occurrences, has_fix) as
+    // Map with rule name as key, and (number of occurrences, has_fix) as
     // value.
-    let mut hm: HashMap<&String, (usize, bool)> = HashMap::new();
+    let mut hm: BTreeMap<&String, (usize, bool)> = BTreeMap::new();
 
     for diagnostic in diagnostics {
         let rule_name = &diagnostic.message.name;
@@ -26,8 +26,8 @@ pub fn print_statistics(
     }
 
     let mut sorted: Vec<_> = hm.iter().collect();
-    sorted.sort_by_key(|a| a.1.0);
-    sorted.reverse();
+    // Rules with the same number of occurrences are sorted by name.
+    sorted.sort_by_key(|a| Reverse(a.1.0));
 
     for (key, value) in sorted {
         let star = if value.1 { "*" } else { " " };
-- 
2.43.0


From 7118e4fea9ad92da7bd3b8318925f2db2680e07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:15 +0000
Subject: [PATCH 27/59] fix: report errors and fail with --statistics

Files that couldn't be checked were silently ignored, 'All checks passed!' could be
printed, and the exit status was not the one of errors.
---
 crates/jarl/src/commands/check.rs |  2 +-
 crates/jarl/src/statistics.rs     | 11 +++++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/crates/jarl/src/commands/check.rs b/crates/jarl/src/commands/check.rs
index 4147074..248af34 100644
--- a/crates/jarl/src/commands/check.rs
+++ b/crates/jarl/src/commands/check.rs
@@ -165,7 +165,7 @@ pub fn check(args: CheckCommand) -> Result<ExitStatus> {
     all_diagnostics_flat.sort();
 
     if args.statistics {
-        return print_statistics(&all_diagnostics_flat, parent_config_path);
+        return print_statistics(&all_diagnostics_flat, &all_errors, parent_config_path);
     }
 
     let mut stdout = std::io::stdout();
diff --git a/crates/jarl/src/statistics.rs b/crates/jarl/src/statistics.rs
index 8f6bd0c..b72e86f 100644
--- a/crates/jarl/src/statistics.rs
+++ b/crates/jarl/src/statistics.rs
@@ -2,13 +2,20 @@ use colored::Colorize;
 use jarl_core::diagnostic::Diagnostic;
 use std::{cmp::Reverse, collections::BTreeMap, path::PathBuf};
 
+use crate::output_format::print_errors;
 use crate::status::ExitStatus;
 
 pub fn print_statistics(
     diagnostics: &[&Diagnostic],
+    errors: &[(String, anyhow::Error)],
     parent_config_path: Option<PathBuf>,
 ) -> anyhow::Result<ExitStatus> {
+    print_errors(errors);
+
     if diagnostics.is_empty() {
+        if !errors.is_empty() {
+            return Ok(ExitStatus::Error);
+        }
         println!("All checks passed!");
         return Ok(ExitStatus::Success);
     }
@@ -46,5 +53,9 @@ pub fn print_statistics(
         println!("\nUsed '{}'", config_path.display());
     }
 
+    if !errors.is_empty() {
+        return Ok(ExitStatus::Error);
+    }
+
     Ok(ExitStatus::Failure)
 }
-- 
2.43.0


From c1bde8134b8a18edbcbbfbd6ac37011de058a93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:57 +0000
Subject: [PATCH 28/59] fix: report diagnostics of files that changed or
 vanished since they were checked

The default output format reads the files again to show the code. Diagnostics of
files that couldn't be read anymore were left out, and files that became shorter made
the program panic.
---
 crates/jarl/src/output_format.rs | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/crates/jarl/src/output_format.rs b/crates/jarl/src/output_format.rs
index 1adf51f..970b391 100644
--- a/crates/jarl/src/output_format.rs
+++ b/crates/jarl/src/output_format.rs
@@ -356,17 +356,18 @@ impl Emitter for FullEmitter {
 
         // Process each file's diagnostics
         for diagnostic in diagnostics {
-            let (_row, _col) = match diagnostic.location {
-                Some(loc) => (loc.row(), loc.column()),
+            let (row, col) = match diagnostic.location {
+                Some(loc) => (loc.row(), loc.column() + 1), // Convert to 1-based for display
                 None => {
                     unreachable!("Row/col locations must have been parsed successfully before.")
                 }
             };
 
-            // Get the source file from cache
-            let Some(source) = file_cache.get(diagnostic.filename.as_path()) else {
-                continue; // Skip if file couldn't be read
-            };
+            // Get the source file from cache. It may have changed since it was checked.
+            let range: std::ops::Range<usize> = diagnostic.range.into();
+            let source = file_cache
+                .get(diagnostic.filename.as_path())
+                .filter(|source| source.get(range).is_some());
 
             // Get or compute relativized path
             let file_path = path_cache
@@ -380,8 +381,17 @@ impl Emitter for FullEmitter {
                 diagnostic.message.name.clone()
             };
 
-            let rendered = render_diagnostic(source, file_path, &title, diagnostic, &renderer);
-            writeln!(writer, "{rendered}\n")?;
+            if let Some(source) = source {
+                let rendered = render_diagnostic(source, file_path, &title, diagnostic, &renderer);
+                writeln!(writer, "{rendered}\n")?;
+            } else {
+                // The code can't be shown, but the diagnostic must still be reported
+                let body = &diagnostic.message.body;
+                writeln!(
+                    writer,
+                    "warning: {title}\n --> {file_path}:{row}:{col}\n  {body}\n"
+                )?;
+            }
         }
 
         writer.flush()?;
-- 
2.43.0


From fc7d62cc7d153aecf6cc5ea76e126a60053dff5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:45 +0000
Subject: [PATCH 29/59] fix: leave relative paths alone without a working
 directory

---
 crates/jarl-core/src/fs.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/jarl-core/src/fs.rs b/crates/jarl-core/src/fs.rs
index 281453d..eabd4bf 100644
--- a/crates/jarl-core/src/fs.rs
+++ b/crates/jarl-core/src/fs.rs
@@ -34,7 +34,11 @@ pub fn is_rmd_extension(ext: &str) -> bool {
 pub fn normalize_path<P: AsRef<Path>>(path: P) -> PathBuf {
     let path = path.as_ref();
     // An absolute path doesn't need the working directory, which might not exist anymore
-    let cwd = std::env::current_dir().unwrap_or_default();
+    let cwd = match std::env::current_dir() {
+        Ok(cwd) => cwd,
+        Err(_) if path.is_absolute() => PathBuf::new(),
+        Err(_) => return path.to_path_buf(),
+    };
     if let Ok(path) = path.absolutize_from(cwd) {
         path.to_path_buf()
     } else {
-- 
2.43.0


From d4f4da1d06b58923234abcc707afe1c372d0f444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:45 +0000
Subject: [PATCH 30/59] fix: report configurations and DESCRIPTION files that
 can't be examined

---
 crates/jarl-core/src/config.rs |  3 ++-
 crates/jarl-core/src/fs.rs     | 17 +++++++++++++++++
 crates/jarl-core/src/toml.rs   |  5 +++--
 3 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/crates/jarl-core/src/config.rs b/crates/jarl-core/src/config.rs
index ce2bcf7..844843b 100644
--- a/crates/jarl-core/src/config.rs
+++ b/crates/jarl-core/src/config.rs
@@ -1,5 +1,6 @@
 use crate::{
     description::Description,
+    fs::is_file_or_unknown,
     lints::all_rules_enabled_by_default,
     rule_options::ResolvedRuleOptions,
     rule_set::{Category, Rule, RuleSet},
@@ -514,7 +515,7 @@ fn reconcile_rules(rules_cli: RuleSelection, rules_toml: RuleSelection) -> Resul
 pub fn find_description(path: &Path) -> Option<PathBuf> {
     path.ancestors()
         .map(|dir| dir.join("DESCRIPTION"))
-        .find(|desc_path| desc_path.is_file())
+        .find(|desc_path| is_file_or_unknown(desc_path))
 }
 
 /// Determine the minimum R version from CLI args or DESCRIPTION file
diff --git a/crates/jarl-core/src/fs.rs b/crates/jarl-core/src/fs.rs
index eabd4bf..bd5ff83 100644
--- a/crates/jarl-core/src/fs.rs
+++ b/crates/jarl-core/src/fs.rs
@@ -29,6 +29,23 @@ pub fn is_rmd_extension(ext: &str) -> bool {
     matches!(ext, "rmd" | "Rmd" | "qmd" | "Qmd")
 }
 
+/// Whether `path` is a file. One that can't be examined (e.g. because of an I/O error) is taken
+/// for a file, so that reading it reports why instead of doing as if it didn't exist.
+pub fn is_file_or_unknown(path: &Path) -> bool {
+    use std::io::ErrorKind;
+    match path.metadata() {
+        Ok(metadata) => metadata.is_file(),
+        // If a directory in `path` can't be searched, nothing else in it is checked either.
+        Err(e) => !matches!(
+            e.kind(),
+            ErrorKind::NotFound
+                | ErrorKind::NotADirectory
+                | ErrorKind::PermissionDenied
+                | ErrorKind::InvalidFilename
+        ),
+    }
+}
+
 /// Convert any path to an absolute path (based on the current working
 /// directory).
 pub fn normalize_path<P: AsRef<Path>>(path: P) -> PathBuf {
diff --git a/crates/jarl-core/src/toml.rs b/crates/jarl-core/src/toml.rs
index 038e95d..effcf59 100644
--- a/crates/jarl-core/src/toml.rs
+++ b/crates/jarl-core/src/toml.rs
@@ -14,6 +14,7 @@ use std::io;
 use std::path::Path;
 use std::path::PathBuf;
 
+use crate::fs::is_file_or_unknown;
 use crate::rule_options::ResolvedRuleOptions;
 use crate::rule_options::assignment::AssignmentConfig;
 use crate::rule_options::assignment::AssignmentOptions;
@@ -260,13 +261,13 @@ pub struct LinterTomlOptions {
 pub fn find_jarl_toml_in_directory<P: AsRef<Path>>(path: P) -> Option<PathBuf> {
     // Check for `jarl.toml` first, as we prioritize the "visible" one.
     let toml = path.as_ref().join("jarl.toml");
-    if toml.is_file() {
+    if is_file_or_unknown(&toml) {
         return Some(toml);
     }
 
     // Now check for `.jarl.toml` as well
     let toml = path.as_ref().join(".jarl.toml");
-    if toml.is_file() {
+    if is_file_or_unknown(&toml) {
         return Some(toml);
     }
 
-- 
2.43.0


From ca3743f5d8a546c6f27b3c4d503bda473d17af37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:27 +0000
Subject: [PATCH 31/59] fix: do not apply fixes that would drop comments

---
 .../src/lints/base/assignment/assignment.rs         |  8 +++++++-
 crates/jarl-core/src/utils.rs                       | 13 ++++++++++---
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/assignment/assignment.rs b/crates/jarl-core/src/lints/base/assignment/assignment.rs
index fd7d501..19d46ba 100644
--- a/crates/jarl-core/src/lints/base/assignment/assignment.rs
+++ b/crates/jarl-core/src/lints/base/assignment/assignment.rs
@@ -100,6 +100,12 @@ pub fn assignment(
         _ => unreachable!(),
     };
 
+    // Comments around the operator aren't part of the replacement.
+    let has_comments = lhs.has_trailing_comments()
+        || operator.has_leading_comments()
+        || operator.has_trailing_comments()
+        || rhs.has_leading_comments();
+
     let range = ast.syntax().text_trimmed_range();
     let diagnostic = Diagnostic::new(
         ViolationData::new("assignment".to_string(), msg.to_string(), None),
@@ -108,7 +114,7 @@ pub fn assignment(
             content: replacement,
             start: range.start().into(),
             end: range.end().into(),
-            to_skip: false,
+            to_skip: has_comments,
         },
     );
 
diff --git a/crates/jarl-core/src/utils.rs b/crates/jarl-core/src/utils.rs
index 9f074b3..1ba7649 100644
--- a/crates/jarl-core/src/utils.rs
+++ b/crates/jarl-core/src/utils.rs
@@ -7,6 +7,7 @@ use air_r_syntax::{
 use anyhow::{Result, anyhow};
 use biome_rowan::AstNode;
 use biome_rowan::AstSeparatedList;
+use biome_rowan::Direction;
 
 /// Macro to unwrap an Option or return Ok(None) early.
 ///
@@ -402,7 +403,13 @@ pub fn get_nested_functions_content(
 /// any(is.na(x)) # comment 2
 /// ```
 pub fn node_contains_comments(node: &air_r_syntax::RSyntaxNode) -> bool {
-    (node.has_comments_direct() || node.has_comments_descendants())
-        && !node.has_trailing_comments()
-        && !node.has_leading_comments()
+    // Comments before and after the node aren't in this range.
+    let range = node.text_trimmed_range();
+    node.descendants_tokens(Direction::Next).any(|token| {
+        token
+            .leading_trivia()
+            .pieces()
+            .chain(token.trailing_trivia().pieces())
+            .any(|piece| piece.is_comments() && range.contains_range(piece.text_range()))
+    })
 }
-- 
2.43.0


From f4c8bedabf44aaaf7556a43007c5c014498c1f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:23 +0000
Subject: [PATCH 32/59] fix: discover nested configurations in a fixed order

---
 crates/jarl-core/src/discovery.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/jarl-core/src/discovery.rs b/crates/jarl-core/src/discovery.rs
index 37aba6f..97764ff 100644
--- a/crates/jarl-core/src/discovery.rs
+++ b/crates/jarl-core/src/discovery.rs
@@ -148,6 +148,7 @@ fn discover_nested_settings(
         .git_ignore(true)
         .git_global(true)
         .git_exclude(true)
+        .sort_by_file_path(|a, b| a.cmp(b))
         .build();
 
     for result in walker {
-- 
2.43.0


From 92978223adedb75f9153cc2df98b5eccd3afc21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:32 +0000
Subject: [PATCH 33/59] fix: compare each package to its own unused_function
 threshold

---
 crates/jarl/src/commands/check.rs | 80 ++++++++++++++++++-------------
 1 file changed, 48 insertions(+), 32 deletions(-)

diff --git a/crates/jarl/src/commands/check.rs b/crates/jarl/src/commands/check.rs
index 248af34..fb4610f 100644
--- a/crates/jarl/src/commands/check.rs
+++ b/crates/jarl/src/commands/check.rs
@@ -2,7 +2,7 @@ use air_workspace::resolve::PathResolver;
 use jarl_core::discovery::{
     discover_r_file_paths, discover_settings, error_path, resolve_settings_directory,
 };
-use jarl_core::fs::relativize_path;
+use jarl_core::fs::{normalize_path, relativize_path};
 use jarl_core::rule_set::Rule;
 use jarl_core::{
     config::ArgsConfig,
@@ -455,9 +455,8 @@ fn add_jarl_ignore_comments(
 /// rule is explicitly listed in `--select` / `--extend-select` (CLI) or
 /// in the corresponding TOML fields.
 ///
-/// Returns `(hidden, total_count)` where `hidden` is `true` when the
-/// diagnostics were removed and `total_count` is the original number of
-/// `unused_function` diagnostics.
+/// Returns `(hidden, count)` where `hidden` is `true` when diagnostics were
+/// removed and `count` is the number of those.
 fn hide_unused_function_if_needed(
     all_diagnostics: &mut Vec<(String, Vec<Diagnostic>)>,
     args: &CheckCommand,
@@ -467,9 +466,39 @@ fn hide_unused_function_if_needed(
         .select
         .split(',')
         .chain(args.extend_select.split(','))
-        .any(|s| s.trim() == "unused_function")
-        || resolver.items().iter().any(|item| {
-            let linter = &item.value().linter;
+        .any(|s| s.trim() == "unused_function");
+    if explicitly_selected {
+        return (false, 0);
+    }
+
+    // Each package is compared to the threshold on its own, with the settings that apply to
+    // it, whatever else is checked in the same run.
+    let mut packages: BTreeMap<(Option<PathBuf>, Option<PathBuf>), (usize, Vec<usize>)> =
+        BTreeMap::new();
+    for (index, (path, diagnostics)) in all_diagnostics.iter().enumerate() {
+        let count = diagnostics
+            .iter()
+            .filter(|d| d.message.name == "unused_function")
+            .count();
+        if count > 0 {
+            let path = normalize_path(path);
+            let key = (
+                resolve_settings_directory(resolver, &path),
+                find_description(&path),
+            );
+            let package = packages.entry(key).or_default();
+            package.0 += count;
+            package.1.push(index);
+        }
+    }
+
+    let mut unused_fn_count = 0;
+    for ((dir_key, _), (count, indices)) in packages {
+        let linter = dir_key
+            .as_deref()
+            .and_then(|dir| resolver.items().iter().find(|item| item.path() == dir))
+            .map(|item| &item.value().linter);
+        let explicitly_selected = linter.is_some_and(|linter| {
             linter
                 .select
                 .iter()
@@ -477,33 +506,20 @@ fn hide_unused_function_if_needed(
                 .flatten()
                 .any(|s| s == "unused_function")
         });
+        let threshold_ignore = linter.map_or(50, |linter| {
+            linter.rule_options.unused_function.threshold_ignore
+        });
 
-    let threshold_ignore = resolver
-        .items()
-        .iter()
-        .map(|item| {
-            item.value()
-                .linter
-                .rule_options
-                .unused_function
-                .threshold_ignore
-        })
-        .min()
-        .unwrap_or(50);
-
-    let unused_fn_count = all_diagnostics
-        .iter()
-        .flat_map(|(_path, diagnostics)| diagnostics.iter())
-        .filter(|d| d.message.name == "unused_function")
-        .count();
-
-    let hidden = !explicitly_selected && unused_fn_count > threshold_ignore;
-    if hidden {
-        for (_path, diagnostics) in all_diagnostics.iter_mut() {
-            diagnostics.retain(|d| d.message.name != "unused_function");
+        if !explicitly_selected && count > threshold_ignore {
+            unused_fn_count += count;
+            for index in indices {
+                all_diagnostics[index]
+                    .1
+                    .retain(|d| d.message.name != "unused_function");
+            }
         }
-        all_diagnostics.retain(|(_path, diagnostics)| !diagnostics.is_empty());
     }
+    all_diagnostics.retain(|(_path, diagnostics)| !diagnostics.is_empty());
 
-    (hidden, unused_fn_count)
+    (unused_fn_count > 0, unused_fn_count)
 }
-- 
2.43.0


From 32940cd13facf38a7ef3a806c3e022a0499d3c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:29 +0000
Subject: [PATCH 34/59] fix: do not add comments for problems with suppression
 comments

---
 crates/jarl/src/commands/check.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/jarl/src/commands/check.rs b/crates/jarl/src/commands/check.rs
index fb4610f..9b78af5 100644
--- a/crates/jarl/src/commands/check.rs
+++ b/crates/jarl/src/commands/check.rs
@@ -351,6 +351,12 @@ fn add_jarl_ignore_comments(
             let end: usize = diagnostic.range.end().into();
             let rule_name = &diagnostic.message.name;
 
+            // Problems with suppression comments can't be suppressed themselves, adding a
+            // comment would leave them as they are.
+            if rule_name.ends_with("_suppression") {
+                continue;
+            }
+
             let edit = if is_rmd {
                 create_suppression_edit_in_rmd(&content, start, end, rule_name, reason)
             } else {
-- 
2.43.0


From 12510c74fb336e22486a4adf9f78a1a9af3cac62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:09 +0000
Subject: [PATCH 35/59] fix: attach suppression comments to control flow that
 shares its line

---
 crates/jarl-core/src/suppression_edit.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/jarl-core/src/suppression_edit.rs b/crates/jarl-core/src/suppression_edit.rs
index be2d974..522f804 100644
--- a/crates/jarl-core/src/suppression_edit.rs
+++ b/crates/jarl-core/src/suppression_edit.rs
@@ -180,6 +180,7 @@ pub fn compute_suppression_insert_point(
     let mut current = start_node;
     let mut last_meaningful: Option<SyntaxNode<air_r_syntax::RLanguage>> = None;
     let mut first_meaningful_on_own_line: Option<SyntaxNode<air_r_syntax::RLanguage>> = None;
+    let mut last_inline_control_flow: Option<SyntaxNode<air_r_syntax::RLanguage>> = None;
 
     loop {
         if is_meaningful_expression(&current) {
@@ -230,6 +231,7 @@ pub fn compute_suppression_insert_point(
                         needs_leading_newline: false,
                     });
                 }
+                last_inline_control_flow = Some(current.clone());
             } else {
                 // Non-control-flow meaningful expression - track it
                 last_meaningful = Some(current.clone());
@@ -259,7 +261,7 @@ pub fn compute_suppression_insert_point(
             line: line_number,
             needs_leading_newline: false,
         });
-    } else if let Some(inline_node) = last_meaningful {
+    } else if let Some(inline_node) = last_meaningful.or(last_inline_control_flow) {
         let node_start = inline_node.text_trimmed_range().start();
         let node_start_offset: usize = node_start.into();
 
-- 
2.43.0


From 4be52de08e84f9e622a19b4080c66d1b6470e88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:54 +0000
Subject: [PATCH 36/59] fix: name the DESCRIPTION that can't be used

---
 crates/jarl-core/src/config.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/jarl-core/src/config.rs b/crates/jarl-core/src/config.rs
index 844843b..f43e93d 100644
--- a/crates/jarl-core/src/config.rs
+++ b/crates/jarl-core/src/config.rs
@@ -7,7 +7,7 @@ use crate::{
     settings::Settings,
 };
 use air_r_syntax::RSyntaxKind;
-use anyhow::Result;
+use anyhow::{Context, Result};
 use std::{collections::HashSet, fs, path::Path, path::PathBuf};
 
 use crate::rule_options::assignment::ResolvedAssignmentOptions;
@@ -533,11 +533,14 @@ fn determine_minimum_r_version(
         return Ok(None);
     };
 
-    let desc = fs::read_to_string(&desc_path)?;
+    let desc = fs::read_to_string(&desc_path)
+        .with_context(|| format!("Failed to read {}", desc_path.display()))?;
     if let Ok(versions) = Description::get_depend_r_version(&desc)
         && let Some(version_str) = versions.first()
     {
-        return Ok(Some(parse_r_version(version_str.to_string())?));
+        let version = parse_r_version(version_str.to_string())
+            .with_context(|| format!("Invalid R version in {}", desc_path.display()))?;
+        return Ok(Some(version));
     }
 
     Ok(None)
-- 
2.43.0


From 8728ee9d110702d3b57b572a0173c6d5184d9ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:43 +0000
Subject: [PATCH 37/59] fix: lines also end with a lone carriage return for
 editors

Positions in the language server protocol count "\r" as a line ending like
"\n" and "\r\n". It wasn't one for the server, so that after a lone carriage
return all edits were applied to the wrong line and all diagnostics were
reported on the wrong line.
---
 crates/jarl-lsp/src/document.rs |  4 +++-
 crates/jarl-lsp/src/lint.rs     |  3 ++-
 crates/jarl-lsp/src/server.rs   | 12 +++---------
 3 files changed, 8 insertions(+), 11 deletions(-)

diff --git a/crates/jarl-lsp/src/document.rs b/crates/jarl-lsp/src/document.rs
index 5799c8f..c511378 100644
--- a/crates/jarl-lsp/src/document.rs
+++ b/crates/jarl-lsp/src/document.rs
@@ -308,8 +308,10 @@ impl TextDocument {
     /// Compute the byte offsets of line starts
     fn compute_line_starts(content: &str) -> Vec<usize> {
         let mut line_starts = vec![0];
+        let bytes = content.as_bytes();
         for (i, byte) in content.bytes().enumerate() {
-            if byte == b'\n' {
+            // Lines end with "\n", "\r\n" or "\r" in the protocol
+            if byte == b'\n' || (byte == b'\r' && bytes.get(i + 1) != Some(&b'\n')) {
                 line_starts.push(i + 1);
             }
         }
diff --git a/crates/jarl-lsp/src/lint.rs b/crates/jarl-lsp/src/lint.rs
index 58699ee..d25fd48 100644
--- a/crates/jarl-lsp/src/lint.rs
+++ b/crates/jarl-lsp/src/lint.rs
@@ -317,7 +317,8 @@ pub fn byte_offset_to_lsp_position(
             return Ok(Position::new(line as u32, lsp_character));
         }
 
-        if ch == '\n' {
+        // Lines end with "\n", "\r\n" or "\r" in the protocol
+        if ch == '\n' || (ch == '\r' && !content[i + 1..].starts_with('\n')) {
             line += 1;
             // The next line starts right after this newline character
             // char_indices gives us the byte offset of the current char,
diff --git a/crates/jarl-lsp/src/server.rs b/crates/jarl-lsp/src/server.rs
index 4ebf55c..8e7b5dd 100644
--- a/crates/jarl-lsp/src/server.rs
+++ b/crates/jarl-lsp/src/server.rs
@@ -609,11 +609,10 @@ impl Server {
         .ok()?;
 
         // Check if there's already a jarl-ignore comment that covers this rule
-        if insert_pos.line > 0
-            && !insert_point.needs_leading_newline
-            && let Some(prev_line_text) = Self::get_line_text(content, insert_pos.line as usize - 1)
+        if !insert_point.needs_leading_newline
+            && let Some(prev_line_text) = content[..insert_point.offset].lines().next_back()
             && let Some((_, existing_rules)) =
-                suppression_edit::parse_existing_suppression(&prev_line_text)
+                suppression_edit::parse_existing_suppression(prev_line_text)
         {
             match existing_rules {
                 Some(rules) if rules.iter().any(|r| r == rule_name) => {
@@ -739,11 +738,6 @@ impl Server {
             data: None,
         })
     }
-
-    /// Get the text of a specific line
-    fn get_line_text(content: &str, line_number: usize) -> Option<String> {
-        content.lines().nth(line_number).map(|s| s.to_string())
-    }
 }
 
 /// Check if two ranges overlap
-- 
2.43.0


From aa90f310d1fd9d1534b3e6a4f962e998dfdbac31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:13 +0000
Subject: [PATCH 38/59] fix: clear the diagnostics of a document that can't be
 linted

---
 crates/jarl-lsp/src/server.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/crates/jarl-lsp/src/server.rs b/crates/jarl-lsp/src/server.rs
index 8e7b5dd..79371e6 100644
--- a/crates/jarl-lsp/src/server.rs
+++ b/crates/jarl-lsp/src/server.rs
@@ -425,7 +425,19 @@ impl Server {
     /// Handle linting a document and publishing diagnostics
     fn handle_lint_task(snapshot: DocumentSnapshot, client: Client, ticket: u64) -> LspResult<()> {
         let start = Instant::now();
-        let output = lint::lint_document(&snapshot)?;
+        let output = match lint::lint_document(&snapshot) {
+            Ok(output) => output,
+            Err(e) => {
+                // The diagnostics published so far don't describe this version
+                client.publish_diagnostics_in_order(
+                    snapshot.uri().clone(),
+                    vec![],
+                    Some(snapshot.version()),
+                    ticket,
+                )?;
+                return Err(e);
+            }
+        };
         let elapsed = start.elapsed();
 
         tracing::debug!(
-- 
2.43.0


From 3b8d6d9ba1baf87ff299257ad952b11068eb3b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:50 +0000
Subject: [PATCH 39/59] fix: apply the include patterns of the user config
 directory

The patterns of the configuration in the user's configuration directory
were only taken into account when a directory had no other settings and
the resolver had been given them for that path.
---
 crates/jarl-core/src/discovery.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/jarl-core/src/discovery.rs b/crates/jarl-core/src/discovery.rs
index 97764ff..96141b8 100644
--- a/crates/jarl-core/src/discovery.rs
+++ b/crates/jarl-core/src/discovery.rs
@@ -396,7 +396,12 @@ pub fn discover_r_file_paths<P: AsRef<Path>>(
                 return true;
             };
 
-            let Some(item) = resolver.resolve(path) else {
+            let directory = resolve_settings_directory(resolver, path);
+            let Some(item) = resolver
+                .items()
+                .iter()
+                .find(|item| Some(item.path()) == directory.as_deref())
+            else {
                 return true;
             };
 
-- 
2.43.0


From 25fc405a9b6c38855b55b0012d8ad098cceb53ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:15 +0000
Subject: [PATCH 40/59] fix: tell the scope of a package's files by their place
 in the package

A package below a directory called 'tests', 'src' or 'inst' had its test
files taken for files of another kind.
---
 crates/jarl-core/src/package.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/jarl-core/src/package.rs b/crates/jarl-core/src/package.rs
index 0df6276..0a7a500 100644
--- a/crates/jarl-core/src/package.rs
+++ b/crates/jarl-core/src/package.rs
@@ -250,9 +250,13 @@ pub fn compute_package_analysis_with_open_file(
     PackageAnalysis { duplicate_assignments, unused_functions }
 }
 
-/// Determine the `FileScope` for a non-R/ file based on its path.
+/// Determine the `FileScope` for a non-R/ file based on its path in the package.
 fn file_scope_from_path(path: &Path) -> FileScope {
-    let components: Vec<_> = path
+    // Where the package itself is stored doesn't matter
+    let path_in_package = find_package_root(path)
+        .and_then(|root| path.strip_prefix(root).ok().map(Path::to_path_buf))
+        .unwrap_or_else(|| path.to_path_buf());
+    let components: Vec<_> = path_in_package
         .components()
         .map(|c| c.as_os_str().to_string_lossy().to_string())
         .collect();
-- 
2.43.0


From e0680512cb1eaf1eb212dc56486c54c095473075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:15 +0000
Subject: [PATCH 41/59] fix: don't follow symbolic links to a containing
 directory without end

Two such links in the tests of a package kept the search for its files
busy practically forever.
---
 .../base/unused_function/unused_function.rs      | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/crates/jarl-core/src/lints/base/unused_function/unused_function.rs b/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
index 8408ba9..b011b2b 100644
--- a/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
+++ b/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
@@ -221,6 +221,18 @@ pub fn scan_symbols(content: &str) -> HashMap<String, usize> {
         .collect()
 }
 
+/// Whether `path` is a symbolic link to one of the directories it was reached by, from `dir`
+/// on. Following such links would never end.
+fn is_link_to_ancestor(path: &Path, dir: &Path) -> bool {
+    path.is_symlink()
+        && std::fs::canonicalize(path).is_ok_and(|target| {
+            path.ancestors()
+                .skip(1)
+                .take_while(|ancestor| ancestor.starts_with(dir))
+                .any(|ancestor| std::fs::canonicalize(ancestor).is_ok_and(|a| a == target))
+        })
+}
+
 /// Recursively collect files under `dir` that match `predicate`.
 pub(crate) fn collect_files(dir: &Path, predicate: fn(&Path) -> bool) -> Vec<PathBuf> {
     let mut files = Vec::new();
@@ -233,7 +245,9 @@ pub(crate) fn collect_files(dir: &Path, predicate: fn(&Path) -> bool) -> Vec<Pat
         for entry in entries.flatten() {
             let path = entry.path();
             if path.is_dir() {
-                stack.push(path);
+                if !is_link_to_ancestor(&path, dir) {
+                    stack.push(path);
+                }
             } else if predicate(&path) {
                 files.push(path);
             }
-- 
2.43.0


From adf70cc17f9a424a015ee43b06f393f3204b0bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:32 +0000
Subject: [PATCH 42/59] fix: count only reported functions for the
 unused_function threshold in the editor

---
 crates/jarl-lsp/src/lint.rs | 63 +++++++++++++++++++++++++++++++++----
 1 file changed, 57 insertions(+), 6 deletions(-)

diff --git a/crates/jarl-lsp/src/lint.rs b/crates/jarl-lsp/src/lint.rs
index d25fd48..7734032 100644
--- a/crates/jarl-lsp/src/lint.rs
+++ b/crates/jarl-lsp/src/lint.rs
@@ -16,11 +16,13 @@ use crate::utils::should_exclude_file_based_on_settings;
 
 use air_workspace::resolve::PathResolver;
 use jarl_core::check::get_checks;
-use jarl_core::config::{ArgsConfig, build_config};
+use jarl_core::config::{ArgsConfig, Config, build_config};
 use jarl_core::diagnostic::Diagnostic as JarlDiagnostic;
 use jarl_core::discovery::{DiscoveredSettings, discover_settings};
 use jarl_core::fs::{has_r_extension, normalize_path, relativize_path};
-use jarl_core::package::{compute_package_analysis_with_open_file, is_in_r_package};
+use jarl_core::package::{
+    PackageAnalysis, compute_package_analysis_with_open_file, is_in_r_package,
+};
 use jarl_core::settings::Settings;
 
 /// Fix information that can be attached to a diagnostic for code actions
@@ -164,13 +166,16 @@ fn run_jarl_linting(content: &str, file_path: Option<&Path>) -> Result<LintInter
             0
         } else {
             // Excluded files are part of the package analysis, but have no diagnostics.
-            let total_unused: usize = pkg
+            let paths: Vec<&PathBuf> = pkg
                 .unused_functions
-                .iter()
-                .filter(|(path, _)| {
+                .keys()
+                .filter(|path| {
                     !should_exclude_file_based_on_settings(&normalize_path(path), &resolver)
                 })
-                .map(|(_, v)| v.len())
+                .collect();
+            let mut total_unused: usize = paths
+                .iter()
+                .map(|path| pkg.unused_functions[*path].len())
                 .sum();
             let threshold = resolver
                 .items()
@@ -185,6 +190,21 @@ fn run_jarl_linting(content: &str, file_path: Option<&Path>) -> Result<LintInter
                 .min()
                 .unwrap_or(50);
 
+            // Some of them may have no diagnostic
+            if total_unused > threshold {
+                let own_directory = resolver.items().first().map(|item| item.path());
+                total_unused = paths
+                    .into_iter()
+                    .map(|path| {
+                        if *path == rel_path {
+                            count_unused_functions(&diagnostics)
+                        } else {
+                            reported_unused_functions(path, own_directory, &config, &pkg)
+                        }
+                    })
+                    .sum();
+            }
+
             if total_unused > threshold {
                 diagnostics.retain(|d| d.message.name != "unused_function");
                 total_unused
@@ -198,6 +218,37 @@ fn run_jarl_linting(content: &str, file_path: Option<&Path>) -> Result<LintInter
     Ok(LintInternalOutput { diagnostics, unused_fn_hidden_count })
 }
 
+fn count_unused_functions(diagnostics: &[JarlDiagnostic]) -> usize {
+    diagnostics
+        .iter()
+        .filter(|d| d.message.name == "unused_function")
+        .count()
+}
+
+/// Number of `unused_function` diagnostics of another file of the package. Files that use the
+/// settings of another directory are not compared to the same threshold, and files that can't
+/// be read or parsed have no diagnostics.
+fn reported_unused_functions(
+    path: &Path,
+    directory: Option<&Path>,
+    config: &Config,
+    pkg: &PackageAnalysis,
+) -> usize {
+    let full_path = normalize_path(path).to_string_lossy().to_string();
+    let Ok(settings) = discover_settings(&[full_path]) else {
+        return 0;
+    };
+    if settings.first().map(|found| found.directory.as_path()) != directory {
+        return 0;
+    }
+    let Ok(content) = std::fs::read_to_string(path) else {
+        return 0;
+    };
+    get_checks(&content, path, config, pkg)
+        .map(|diagnostics| count_unused_functions(&diagnostics))
+        .unwrap_or(0)
+}
+
 /// If `file_path` lives inside an R package's `R/` directory, return all
 /// `.R` files in that directory. Returns `None` otherwise.
 fn collect_sibling_r_files(file_path: &Path) -> Option<Vec<PathBuf>> {
-- 
2.43.0


From 35e3e4c16286392c92419c14524cef74e92ee18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:10 +0000
Subject: [PATCH 43/59] fix: look at the changes of the right repository for
 linked working trees

---
 crates/jarl-core/src/vcs.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/jarl-core/src/vcs.rs b/crates/jarl-core/src/vcs.rs
index ffc265b..f456da5 100644
--- a/crates/jarl-core/src/vcs.rs
+++ b/crates/jarl-core/src/vcs.rs
@@ -24,10 +24,11 @@ pub fn check_version_control(paths: &[String], config: &Config) -> Result<()> {
     for path in paths {
         match git2::Repository::discover(Path::new(path)) {
             Ok(repo) => {
-                // Get the repository root path as a key
+                // Get the repository root path as a key. The repository of a linked working
+                // tree or of a submodule is not in its root but in the main one.
                 let repo_path = repo
-                    .path()
-                    .parent()
+                    .workdir()
+                    .or_else(|| repo.path().parent())
                     .and_then(|p| p.to_str())
                     .unwrap_or("")
                     .to_string();
-- 
2.43.0


From 8643ad69144094e09886762abc4b3d31bf97f905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:29 +0000
Subject: [PATCH 44/59] fix: recognise uses of functions whose names have
 non-ASCII letters

---
 .../base/unused_function/unused_function.rs   | 36 +++++++++----------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/unused_function/unused_function.rs b/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
index b011b2b..84cf344 100644
--- a/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
+++ b/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
@@ -191,26 +191,26 @@ pub fn scan_symbols(content: &str) -> HashMap<String, usize> {
             continue;
         }
 
-        let bytes = line.as_bytes();
-        let len = bytes.len();
-        let mut i = 0;
-
-        while i < len {
-            let b = bytes[i];
-
+        let mut chars = line.char_indices().peekable();
+        while let Some((start, first)) = chars.next() {
             // R identifiers start with a letter, `.`, or `_`
-            if b.is_ascii_alphabetic() || b == b'.' || b == b'_' {
-                let start = i;
-                i += 1;
-                while i < len
-                    && (bytes[i].is_ascii_alphanumeric() || bytes[i] == b'.' || bytes[i] == b'_')
-                {
-                    i += 1;
+            if !first.is_alphabetic() && first != '.' && first != '_' {
+                continue;
+            }
+            let mut end = start + first.len_utf8();
+            while let Some((i, c)) =
+                chars.next_if(|(_, c)| c.is_alphanumeric() || *c == '.' || *c == '_')
+            {
+                end = i + c.len_utf8();
+            }
+            let name = &line[start..end];
+            *symbols.entry(name).or_insert(0) += 1;
+
+            // Strings in other scripts may have names without spaces around
+            if !name.is_ascii() {
+                for part in name.split(|c: char| !c.is_ascii()) {
+                    *symbols.entry(part).or_insert(0) += 1;
                 }
-                let name = &line[start..i];
-                *symbols.entry(name).or_insert(0) += 1;
-            } else {
-                i += 1;
             }
         }
     }
-- 
2.43.0


From d1ea430551c1fc68bde5f8c9d50879cf9fd6b97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:29 +0000
Subject: [PATCH 45/59] fix: recognise uses of functions after an escape
 sequence in strings

---
 .../src/lints/base/unused_function/unused_function.rs        | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/jarl-core/src/lints/base/unused_function/unused_function.rs b/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
index 84cf344..c904d9a 100644
--- a/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
+++ b/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
@@ -206,6 +206,11 @@ pub fn scan_symbols(content: &str) -> HashMap<String, usize> {
             let name = &line[start..end];
             *symbols.entry(name).or_insert(0) += 1;
 
+            // In strings, the first letter may belong to an escape sequence such as `\n`
+            if line[..start].ends_with('\\') {
+                *symbols.entry(&name[first.len_utf8()..]).or_insert(0) += 1;
+            }
+
             // Strings in other scripts may have names without spaces around
             if !name.is_ascii() {
                 for part in name.split(|c: char| !c.is_ascii()) {
-- 
2.43.0


From 31a1b824d49afb777e8dec2425054bea4ce54388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:40 +0000
Subject: [PATCH 46/59] fix: recognise uses of functions in preprocessor
 directives of C and C++ files

---
 crates/jarl-core/src/package.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/jarl-core/src/package.rs b/crates/jarl-core/src/package.rs
index 0a7a500..a6aaa9c 100644
--- a/crates/jarl-core/src/package.rs
+++ b/crates/jarl-core/src/package.rs
@@ -188,10 +188,11 @@ pub fn compute_package_analysis_with_open_file(
                 Some((open_path, content)) if open_path == *path => content.to_string(),
                 _ => std::fs::read_to_string(path).ok()?,
             };
-            let symbol_counts = if check_unused {
-                scan_symbols(&content)
-            } else {
-                HashMap::new()
+            let symbol_counts = match scope {
+                _ if !check_unused => HashMap::new(),
+                // Lines that start with `#` aren't comments in C and C++
+                FileScope::Src => scan_symbols(&content.replace('#', " ")),
+                _ => scan_symbols(&content),
             };
 
             let assignments = match scope {
-- 
2.43.0


From 1d264377c47bfaf52bba7e8cf0715d26c646ee34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:17 +0000
Subject: [PATCH 47/59] fix: read NAMESPACE directives that take several lines,
 share one, or have quotes, comments or several patterns

---
 .../base/unused_function/unused_function.rs   | 166 ++++++++----------
 1 file changed, 76 insertions(+), 90 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/unused_function/unused_function.rs b/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
index c904d9a..9f3e790 100644
--- a/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
+++ b/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
@@ -55,30 +55,59 @@ use crate::package::{FileScope, SharedFileData};
 /// # `check_length()` isn't exported but and isn't used anywhere, so it is
 /// # reported.
 /// ```
-fn extract_directive<'a>(line: &'a str, directive: &str) -> Option<&'a str> {
-    // Find a NAMESPACE directive (e.g. `S3method`, `export`) in a line and
-    // return its parenthesized arguments. Handles lines where the directive is
-    // preceded by an `if (...)` guard, e.g.:
+fn namespace_directives(content: &str) -> Vec<(String, Vec<String>)> {
+    // Find the NAMESPACE directives (e.g. `S3method`, `export`) with their
+    // arguments, without quotes and comments. Directives may take several lines,
+    // share a line, or be preceded by an `if (...)` guard, e.g.:
     //   `if (getRversion() >= "4.4.0") S3method(sort_by, data.table)`
-
-    // Find `directive(` in the line
-    let dir_with_paren = format!("{directive}(");
-    let start = line.find(&dir_with_paren)?;
-    let args_start = start + dir_with_paren.len();
-
-    // Make sure the directive is not part of a longer word
-    // (e.g. "exportPattern" should not match "export")
-    if start > 0 {
-        let prev = line.as_bytes()[start - 1];
-        if prev.is_ascii_alphanumeric() || prev == b'_' {
-            return None;
+    let mut directives = Vec::new();
+    let mut open: Vec<(String, Vec<String>)> = Vec::new();
+    let mut word = String::new();
+    let mut word_ended = false;
+
+    let mut chars = content.chars();
+    while let Some(c) = chars.next() {
+        match c {
+            '#' => {
+                chars.find(|&c| c == '\n');
+                word_ended = true;
+            }
+            '(' => open.push((std::mem::take(&mut word), Vec::new())),
+            ')' => {
+                let arg = std::mem::take(&mut word);
+                if let Some((directive, mut args)) = open.pop() {
+                    args.push(arg);
+                    directives.push((directive, args));
+                }
+            }
+            ',' => {
+                let arg = std::mem::take(&mut word);
+                if let Some((_, args)) = open.last_mut() {
+                    args.push(arg);
+                }
+            }
+            _ if c.is_whitespace() || matches!(c, ';' | '{' | '}' | '=') => word_ended = true,
+            _ => {
+                if std::mem::take(&mut word_ended) {
+                    word.clear();
+                }
+                if matches!(c, '"' | '\'' | '`') {
+                    while let Some(quoted) = chars.next().filter(|&q| q != c) {
+                        let unescaped = if quoted == '\\' {
+                            chars.next()
+                        } else {
+                            Some(quoted)
+                        };
+                        word.extend(unescaped);
+                    }
+                } else {
+                    word.push(c);
+                }
+            }
         }
     }
 
-    // Find the matching closing paren
-    let rest = &line[args_start..];
-    let end = rest.rfind(')')?;
-    Some(&rest[..end])
+    directives
 }
 
 /// Parse a NAMESPACE file and return the set of exported function names.
@@ -89,83 +118,40 @@ fn extract_directive<'a>(line: &'a str, directive: &str) -> Option<&'a str> {
 pub fn parse_namespace_exports(content: &str, all_names: &[&str]) -> HashSet<String> {
     let mut exports = HashSet::new();
 
-    for line in content.lines() {
-        let trimmed = line.trim();
-
-        // Skip comments and empty lines
-        if trimmed.is_empty() || trimmed.starts_with('#') {
-            continue;
-        }
-
-        // NAMESPACE directives may be wrapped in `if (...)` guards, e.g.
-        //   if (getRversion() >= "4.4.0") S3method(sort_by, data.table)
-        // We extract the inner `directive(...)` by finding the directive
-        // keyword anywhere in the line.
-        for directive in [
-            "export",
-            "exportPattern",
-            "S3method",
-            "exportMethods",
-            "exportClasses",
-        ] {
-            if let Some(inner) = extract_directive(trimmed, directive) {
-                match directive {
-                    "export" => {
-                        for name in inner.split(',') {
-                            let name = name.trim().trim_matches('"').trim_matches('\'');
-                            if !name.is_empty() {
+    for (directive, args) in namespace_directives(content) {
+        match directive.as_str() {
+            "exportPattern" => {
+                for pattern in args.iter().filter(|pattern| !pattern.is_empty()) {
+                    if let Ok(re) = Regex::new(pattern) {
+                        for &name in all_names {
+                            if re.is_match(name) {
                                 exports.insert(name.to_string());
                             }
                         }
                     }
-                    "exportPattern" => {
-                        let pattern = inner.trim().trim_matches('"').trim_matches('\'');
-                        if let Ok(re) = Regex::new(pattern) {
-                            for &name in all_names {
-                                if re.is_match(name) {
-                                    exports.insert(name.to_string());
-                                }
-                            }
-                        }
-                    }
-                    "S3method" => {
-                        // S3method(generic, class) or
-                        // S3method(pkg::generic, class) or
-                        // S3method(generic, class, method_fn)
-                        let parts: Vec<&str> = inner.splitn(4, ',').collect();
-                        if parts.len() >= 2 {
-                            let raw_generic = parts[0].trim().trim_matches('"').trim_matches('\'');
-                            let class = parts[1].trim().trim_matches('"').trim_matches('\'');
-
-                            // Strip optional pkg:: or pkg::: prefix
-                            let generic = raw_generic
-                                .rsplit_once("::")
-                                .map(|(_, g)| g)
-                                .unwrap_or(raw_generic);
-
-                            if parts.len() >= 3 {
-                                let method_fn =
-                                    parts[2].trim().trim_matches('"').trim_matches('\'');
-                                if !method_fn.is_empty() {
-                                    exports.insert(method_fn.to_string());
-                                }
-                            } else {
-                                exports.insert(format!("{generic}.{class}"));
-                            }
-                        }
-                    }
-                    "exportMethods" | "exportClasses" => {
-                        for name in inner.split(',') {
-                            let name = name.trim().trim_matches('"').trim_matches('\'');
-                            if !name.is_empty() {
-                                exports.insert(name.to_string());
-                            }
-                        }
+                }
+            }
+            "S3method" if args.len() >= 2 => {
+                // S3method(generic, class) or
+                // S3method(pkg::generic, class) or
+                // S3method(generic, class, method_fn)
+                if let Some(method_fn) = args.get(2) {
+                    if !method_fn.is_empty() {
+                        exports.insert(method_fn.to_string());
                     }
-                    _ => {}
+                } else {
+                    // Strip optional pkg:: or pkg::: prefix
+                    let generic = args[0]
+                        .rsplit_once("::")
+                        .map(|(_, g)| g)
+                        .unwrap_or(&args[0]);
+                    exports.insert(format!("{generic}.{class}", class = args[1]));
                 }
-                break;
             }
+            "export" | "exportMethods" | "exportClasses" => {
+                exports.extend(args.into_iter().filter(|name| !name.is_empty()));
+            }
+            _ => {}
         }
     }
 
-- 
2.43.0


From 01a96c7e04d0060e78ebafc09376a402e685374f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:17 +0000
Subject: [PATCH 48/59] fix: look for used functions in C++ files with other
 extensions

---
 .../jarl-core/src/lints/base/unused_function/unused_function.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/jarl-core/src/lints/base/unused_function/unused_function.rs b/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
index 9f3e790..b248744 100644
--- a/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
+++ b/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
@@ -250,7 +250,7 @@ pub(crate) fn collect_files(dir: &Path, predicate: fn(&Path) -> bool) -> Vec<Pat
 pub(crate) fn has_cpp_extension(path: &Path) -> bool {
     matches!(
         path.extension().and_then(|e| e.to_str()),
-        Some("c" | "cpp" | "h" | "hpp")
+        Some("c" | "cc" | "cpp" | "cxx" | "h" | "hh" | "hpp" | "hxx")
     )
 }
 
-- 
2.43.0


From 62c23b7c793c42797b58089a19a34d10744f40ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:56 +0000
Subject: [PATCH 49/59] fix: recognise uses of functions in subdirectories of
 R/

---
 crates/jarl-core/src/package.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/jarl-core/src/package.rs b/crates/jarl-core/src/package.rs
index a6aaa9c..0dfa611 100644
--- a/crates/jarl-core/src/package.rs
+++ b/crates/jarl-core/src/package.rs
@@ -201,10 +201,17 @@ pub fn compute_package_analysis_with_open_file(
             };
 
             if *scope == FileScope::R {
-                let r_dir = path.parent()?;
-                let package_root = r_dir.parent()?.to_path_buf();
+                let package_root = find_package_root(path)?;
+                let r_dir = package_root.join("R");
                 let rel_path = PathBuf::from(crate::fs::relativize_path(path));
-                let root_key = crate::fs::relativize_path(r_dir);
+                let root_key = crate::fs::relativize_path(&r_dir);
+                // Functions may be used in subdirectories of R/ (e.g. R/unix/), but the
+                // definitions there depend on the platform
+                let assignments = if path.parent() == Some(r_dir.as_path()) {
+                    assignments
+                } else {
+                    Vec::new()
+                };
                 Some(SharedFileData {
                     root_key,
                     rel_path,
-- 
2.43.0


From 233aada06bfd107ea1b2a4cfaa2d7f6e4163e045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:58 +0000
Subject: [PATCH 50/59] fix: recognise uses of functions in files that aren't
 encoded in UTF-8

---
 crates/jarl-core/src/package.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/jarl-core/src/package.rs b/crates/jarl-core/src/package.rs
index 0dfa611..49288eb 100644
--- a/crates/jarl-core/src/package.rs
+++ b/crates/jarl-core/src/package.rs
@@ -186,7 +186,8 @@ pub fn compute_package_analysis_with_open_file(
         .filter_map(|(path, scope)| {
             let content = match open_file {
                 Some((open_path, content)) if open_path == *path => content.to_string(),
-                _ => std::fs::read_to_string(path).ok()?,
+                // Files in another encoding aren't checked, but use functions as well
+                _ => String::from_utf8_lossy(&std::fs::read(path).ok()?).into_owned(),
             };
             let symbol_counts = match scope {
                 _ if !check_unused => HashMap::new(),
-- 
2.43.0


From 26f09733b02fbf65d3a70a908c6b06f51f81be14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:13 +0000
Subject: [PATCH 51/59] fix: don't report functions as unused when an
 exportPattern can't be understood

---
 .../src/lints/base/unused_function/unused_function.rs  | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/unused_function/unused_function.rs b/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
index b248744..f13e87a 100644
--- a/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
+++ b/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
@@ -122,11 +122,11 @@ pub fn parse_namespace_exports(content: &str, all_names: &[&str]) -> HashSet<Str
         match directive.as_str() {
             "exportPattern" => {
                 for pattern in args.iter().filter(|pattern| !pattern.is_empty()) {
-                    if let Ok(re) = Regex::new(pattern) {
-                        for &name in all_names {
-                            if re.is_match(name) {
-                                exports.insert(name.to_string());
-                            }
+                    // A pattern that R may understand, but not us, could match any name
+                    let re = Regex::new(pattern).ok();
+                    for &name in all_names {
+                        if re.as_ref().is_none_or(|re| re.is_match(name)) {
+                            exports.insert(name.to_string());
                         }
                     }
                 }
-- 
2.43.0


From 9a5f2f8ae445d73560df9dc90d5530bc847ffc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:47 +0000
Subject: [PATCH 52/59] fix: count characters, not bytes, in the columns of
 findings

---
 crates/jarl-core/src/check.rs |  8 ++++++--
 crates/jarl-core/src/utils.rs | 19 ++++++++++++-------
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/crates/jarl-core/src/check.rs b/crates/jarl-core/src/check.rs
index aa68502..bf8eb35 100644
--- a/crates/jarl-core/src/check.rs
+++ b/crates/jarl-core/src/check.rs
@@ -236,7 +236,7 @@ pub fn get_checks(
         .collect();
 
     let loc_new_lines = find_new_lines(syntax)?;
-    let diagnostics = compute_lints_location(diagnostics, &loc_new_lines);
+    let diagnostics = compute_lints_location(diagnostics, contents, &loc_new_lines);
 
     Ok(diagnostics)
 }
@@ -375,5 +375,9 @@ fn get_checks_rmd(contents: &str, file: &Path, config: &Config) -> Result<Vec<Di
     });
 
     let loc_new_lines = crate::utils::find_new_lines_from_content(contents);
-    Ok(compute_lints_location(all_diagnostics, &loc_new_lines))
+    Ok(compute_lints_location(
+        all_diagnostics,
+        contents,
+        &loc_new_lines,
+    ))
 }
diff --git a/crates/jarl-core/src/utils.rs b/crates/jarl-core/src/utils.rs
index 1ba7649..81818d5 100644
--- a/crates/jarl-core/src/utils.rs
+++ b/crates/jarl-core/src/utils.rs
@@ -50,8 +50,9 @@ pub fn find_new_lines(ast: &RSyntaxNode) -> Result<Vec<usize>> {
     }
 }
 
-/// Takes the start of the range of a Diagnostic and the indices for the new
-/// lines. Returns the (row, col) position of the Diagnostic in the file.
+/// Takes the start of the range of a Diagnostic, the content of the file and the
+/// indices for the new lines. Returns the (row, col) position of the Diagnostic
+/// in the file.
 ///
 /// The row position is the 1 + the number of new line characters before the
 /// start of the range.
@@ -65,7 +66,7 @@ pub fn find_new_lines(ast: &RSyntaxNode) -> Result<Vec<usize>> {
 ///    column 0
 ///
 /// Note that the row position is 1-indexed but the column position is 0-indexed.
-pub fn find_row_col(start: usize, loc_new_lines: &[usize]) -> (usize, usize) {
+pub fn find_row_col(start: usize, content: &str, loc_new_lines: &[usize]) -> (usize, usize) {
     let new_lines_before = loc_new_lines
         .iter()
         .filter(|x| *x <= &start)
@@ -76,11 +77,14 @@ pub fn find_row_col(start: usize, loc_new_lines: &[usize]) -> (usize, usize) {
         None => 0_usize,
     };
 
-    let col: usize = if last_new_line == 0 {
-        start
+    let line_start: usize = if last_new_line == 0 {
+        0
     } else {
-        start - last_new_line - 1
+        last_new_line + 1
     };
+    let col: usize = content
+        .get(line_start..start)
+        .map_or(start - line_start, |text| text.chars().count());
     let row: usize = n_new_lines + 1;
     (row, col)
 }
@@ -89,13 +93,14 @@ pub fn find_row_col(start: usize, loc_new_lines: &[usize]) -> (usize, usize) {
 /// this range into actual (row, col) location using the position of new lines.
 pub fn compute_lints_location(
     diagnostics: Vec<Diagnostic>,
+    content: &str,
     loc_new_lines: &[usize],
 ) -> Vec<Diagnostic> {
     diagnostics
         .into_iter()
         .map(|mut diagnostic| {
             let start: usize = diagnostic.range.start().into();
-            let loc = find_row_col(start, loc_new_lines);
+            let loc = find_row_col(start, content, loc_new_lines);
             diagnostic.location = Some(Location::new(loc.0, loc.1));
             diagnostic
         })
-- 
2.43.0


From f501db54ebcf9e2894a4ebb6c567dfcffbf156bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:07 +0000
Subject: [PATCH 53/59] fix: don't show a finding in code that changed since it
 was checked

---
 crates/jarl/src/output_format.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/crates/jarl/src/output_format.rs b/crates/jarl/src/output_format.rs
index 970b391..6d2b030 100644
--- a/crates/jarl/src/output_format.rs
+++ b/crates/jarl/src/output_format.rs
@@ -16,6 +16,7 @@ fn make_hyperlink(text: &str) -> String {
 }
 
 use jarl_core::diagnostic::{Diagnostic, render_diagnostic};
+use jarl_core::utils::{find_new_lines_from_content, find_row_col};
 
 /// Prints a section header like `── Summary ──────────────────────────────────`
 /// padded to 57 characters total.
@@ -331,7 +332,7 @@ impl Emitter for FullEmitter {
         }
 
         // Cache file contents and relativized paths
-        let mut file_cache: std::collections::HashMap<&std::path::Path, String> =
+        let mut file_cache: std::collections::HashMap<&std::path::Path, (String, Vec<usize>)> =
             std::collections::HashMap::new();
         let mut path_cache = std::collections::HashMap::new();
 
@@ -340,7 +341,8 @@ impl Emitter for FullEmitter {
             if !file_cache.contains_key(diagnostic.filename.as_path()) {
                 match fs::read_to_string(&diagnostic.filename) {
                     Ok(content) => {
-                        file_cache.insert(diagnostic.filename.as_path(), content);
+                        let new_lines = find_new_lines_from_content(&content);
+                        file_cache.insert(diagnostic.filename.as_path(), (content, new_lines));
                     }
                     Err(err) => {
                         writer.flush()?; // Flush before writing to stderr
@@ -363,11 +365,16 @@ impl Emitter for FullEmitter {
                 }
             };
 
-            // Get the source file from cache. It may have changed since it was checked.
+            // Get the source file from cache. It may have changed since it was checked, in which
+            // case the range may not be in the file anymore, or be in another place.
             let range: std::ops::Range<usize> = diagnostic.range.into();
             let source = file_cache
                 .get(diagnostic.filename.as_path())
-                .filter(|source| source.get(range).is_some());
+                .filter(|(source, new_lines)| {
+                    source.get(range.clone()).is_some()
+                        && find_row_col(range.start, source, new_lines) == (row, col - 1)
+                })
+                .map(|(source, _)| source);
 
             // Get or compute relativized path
             let file_path = path_cache
-- 
2.43.0


From 106eb49bddc7c025355772909edfb4fd7629c7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:13 +0000
Subject: [PATCH 54/59] fix: list duplicated arguments in the order of the call

The names were collected in a hash set, so the message listed several of
them in a different order on every run.
---
 .../duplicated_arguments.rs                    | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/duplicated_arguments/duplicated_arguments.rs b/crates/jarl-core/src/lints/base/duplicated_arguments/duplicated_arguments.rs
index 15aeb6d..63aa534 100644
--- a/crates/jarl-core/src/lints/base/duplicated_arguments/duplicated_arguments.rs
+++ b/crates/jarl-core/src/lints/base/duplicated_arguments/duplicated_arguments.rs
@@ -1,4 +1,4 @@
-use std::collections::{HashMap, HashSet};
+use std::collections::HashMap;
 
 use crate::checker::Checker;
 use crate::diagnostic::*;
@@ -124,12 +124,14 @@ fn get_duplicates(values: &[String]) -> Vec<String> {
     for item in values {
         *counts.entry(item).or_insert(0) += 1;
     }
-    let duplicates: HashSet<String> = counts
-        .into_iter()
-        .filter(|(_, count)| *count > 1)
-        .map(|(item, _)| item.clone())
-        .collect();
 
-    let duplicates_vec: Vec<String> = duplicates.into_iter().collect();
-    duplicates_vec
+    // In the order of the arguments: a hash set would list them in a different
+    // order on every run.
+    let mut duplicates: Vec<String> = Vec::new();
+    for item in values {
+        if counts[item] > 1 && !duplicates.contains(item) {
+            duplicates.push(item.clone());
+        }
+    }
+    duplicates
 }
-- 
2.43.0


From d73e5708bcc779593fb19d5f7ae00612884d44c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:46 +0000
Subject: [PATCH 55/59] fix: name the same unknown field of [lint] on every run

The fields were taken in the order of a hash map.
---
 crates/jarl-core/src/toml.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/jarl-core/src/toml.rs b/crates/jarl-core/src/toml.rs
index effcf59..88bd93e 100644
--- a/crates/jarl-core/src/toml.rs
+++ b/crates/jarl-core/src/toml.rs
@@ -291,7 +291,8 @@ impl TomlOptions {
 
         // Reject unknown fields in `[lint]` with a clean error message that
         // only lists the primary options (not every rule sub-table name).
-        if let Some(field) = linter.unknown_fields.keys().next() {
+        // `min()` so that the same field is named on every run.
+        if let Some(field) = linter.unknown_fields.keys().min() {
             return Err(anyhow::anyhow!(
                 "Unknown field `{field}` in `[lint]`. Expected one of: \
                  `select`, `extend-select`, `ignore`, `fixable`, `unfixable`, \
-- 
2.43.0


From fa76b4655842e37480db8cff5e2cf72fcac862f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:29 +0000
Subject: [PATCH 56/59] fix: locate findings in comments at the end of a file

Line feeds were only counted up to the last expression, so a finding about
a comment after it was given the line of that expression.
---
 crates/jarl-core/src/utils.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/crates/jarl-core/src/utils.rs b/crates/jarl-core/src/utils.rs
index 81818d5..fe82550 100644
--- a/crates/jarl-core/src/utils.rs
+++ b/crates/jarl-core/src/utils.rs
@@ -39,11 +39,9 @@ pub fn find_new_lines_from_content(content: &str) -> Vec<usize> {
 /// Find the positions of the new line characters in the given AST.
 pub fn find_new_lines(ast: &RSyntaxNode) -> Result<Vec<usize>> {
     match ast.first_child() {
-        Some(rootnode) => Ok(rootnode
-            .to_string()
-            .match_indices("\n")
-            .map(|x| x.0)
-            .collect::<Vec<usize>>()),
+        // The text of the whole tree: comments at the end of the file belong to
+        // the end-of-file token and not to the first child.
+        Some(_) => Ok(find_new_lines_from_content(&ast.to_string())),
         None => Err(anyhow!(
             "Couldn't find root node. Maybe the document contains a parsing error?"
         )),
-- 
2.43.0


From e6a34b5cb063a885c761b62565b37602bed5a079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:29 +0000
Subject: [PATCH 57/59] fix: report unmatched suppression starts in the order
 of the file

They were reported in the order of a hash map, which differs on every run.
---
 crates/jarl-core/src/suppression.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/jarl-core/src/suppression.rs b/crates/jarl-core/src/suppression.rs
index 3dcf92c..01eef8c 100644
--- a/crates/jarl-core/src/suppression.rs
+++ b/crates/jarl-core/src/suppression.rs
@@ -249,6 +249,10 @@ impl SuppressionManager {
         for ((_, _), (comment_range, _)) in collector.starts.drain() {
             collector.unmatched_start_suppressions.push(comment_range);
         }
+        // `starts` is a hash map, put them back in the order of the file.
+        collector
+            .unmatched_start_suppressions
+            .sort_by_key(|range| range.start());
 
         let has_any_suppressions = !collector.skip_regions.is_empty()
             || !collector.file_suppressions.is_empty()
-- 
2.43.0


From 0fcfe3f74af1e17b766b4435894a84195f49b1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:54 +0000
Subject: [PATCH 58/59] fix: reject invalid patterns in include and exclude

They were ignored with a message in the log only, and the files they should
have excluded were checked and fixed.
---
 crates/jarl-core/src/toml.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/crates/jarl-core/src/toml.rs b/crates/jarl-core/src/toml.rs
index 88bd93e..cdc235b 100644
--- a/crates/jarl-core/src/toml.rs
+++ b/crates/jarl-core/src/toml.rs
@@ -14,6 +14,8 @@ use std::io;
 use std::path::Path;
 use std::path::PathBuf;
 
+use ignore::overrides::OverrideBuilder;
+
 use crate::fs::is_file_or_unknown;
 use crate::rule_options::ResolvedRuleOptions;
 use crate::rule_options::assignment::AssignmentConfig;
@@ -300,6 +302,18 @@ impl TomlOptions {
             ));
         }
 
+        // Reject invalid patterns: files that should be excluded would be checked and
+        // fixed if they were ignored.
+        for (field, patterns) in [("include", &linter.include), ("exclude", &linter.exclude)] {
+            for pattern in patterns.iter().flatten() {
+                if let Err(err) = OverrideBuilder::new(".").add(&format!("!{pattern}")) {
+                    return Err(anyhow::anyhow!(
+                        "Invalid pattern `{pattern}` in `{field}`: {err}"
+                    ));
+                }
+            }
+        }
+
         // Resolve the assignment config: extract the AssignmentOptions and
         // track whether the deprecated top-level string form was used.
         let (assignment_options, deprecated_assignment_syntax) = match &linter.assignment {
-- 
2.43.0


From 23a6e138cfcd877cfe33e480f8fe035f15139b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:54 +0000
Subject: [PATCH 59/59] fix: refuse a reason with line breaks before fixing
 files

check --fix --add-jarl-ignore=<reason> rewrote the files and only then
complained about the reason.
---
 crates/jarl/src/commands/check.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/crates/jarl/src/commands/check.rs b/crates/jarl/src/commands/check.rs
index 9b78af5..e676087 100644
--- a/crates/jarl/src/commands/check.rs
+++ b/crates/jarl/src/commands/check.rs
@@ -41,6 +41,15 @@ pub fn check(args: CheckCommand) -> Result<ExitStatus> {
         None
     };
 
+    // Newlines would break comment format. This must come before any file is modified.
+    if let Some(reason) = &args.add_jarl_ignore
+        && reason.contains(['\n', '\r'])
+    {
+        return Err(anyhow::anyhow!(
+            "--add-jarl-ignore=<reason> cannot contain newline characters."
+        ));
+    }
+
     let mut resolver = PathResolver::new(Settings::default());
 
     // Track if we're using a config from a parent directory
@@ -293,13 +302,6 @@ fn add_jarl_ignore_comments(
     reason: &str,
     parent_config_path: Option<PathBuf>,
 ) -> Result<ExitStatus> {
-    // Newlines would break comment format
-    if reason.contains(['\n', '\r']) {
-        return Err(anyhow::anyhow!(
-            "--add-jarl-ignore=<reason> cannot contain newline characters."
-        ));
-    }
-
     print_errors(all_errors);
     let mut status = if all_errors.is_empty() {
         ExitStatus::Success
-- 
2.43.0

