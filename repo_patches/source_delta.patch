From 3c7e31309e41506f9ba2b9a8aec0f3deeb6a3a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:21 +0000
Subject: [PATCH 01/25] fix: flush the formatted file so a failed write is
 reported

---
 rust/tombi-cli/src/app/command/format.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rust/tombi-cli/src/app/command/format.rs b/rust/tombi-cli/src/app/command/format.rs
index f396d31..1372a3d 100644
--- a/rust/tombi-cli/src/app/command/format.rs
+++ b/rust/tombi-cli/src/app/command/format.rs
@@ -508,7 +508,11 @@ impl FormatFile {
     async fn write_all(&mut self, buf: &[u8]) -> std::io::Result<()> {
         match self {
             Self::Stdin { .. } => tokio::io::stdout().write_all(buf).await,
-            Self::File { file, .. } => file.write_all(buf).await,
+            Self::File { file, .. } => {
+                file.write_all(buf).await?;
+                // `tokio::fs::File` reports a failed write on the next operation only.
+                file.flush().await
+            }
         }
     }
 }
-- 
2.43.0


From 7ee93748ab682a0414aa92181a98cda71c4d351b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:21 +0000
Subject: [PATCH 02/25] fix: report why a file could not be read by lint

---
 rust/tombi-cli/src/app/command/lint.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/tombi-cli/src/app/command/lint.rs b/rust/tombi-cli/src/app/command/lint.rs
index cdbbcd9..fa8c03c 100644
--- a/rust/tombi-cli/src/app/command/lint.rs
+++ b/rust/tombi-cli/src/app/command/lint.rs
@@ -262,7 +262,8 @@ where
     R: AsyncReadExt + Unpin + Send,
 {
     let mut source = String::new();
-    if reader.read_to_string(&mut source).await.is_err() {
+    if let Err(err) = reader.read_to_string(&mut source).await {
+        crate::Error::Io(err).print(&mut printer);
         return false;
     }
     let Err(diagnostics) = tombi_linter::Linter::new(
-- 
2.43.0


From 70da5704d473f09fa59870f77a8475543396061e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:39 +0000
Subject: [PATCH 03/25] fix: print the error of a failed format of stdin

---
 rust/tombi-cli/src/app/command/format.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rust/tombi-cli/src/app/command/format.rs b/rust/tombi-cli/src/app/command/format.rs
index 1372a3d..3f8f016 100644
--- a/rust/tombi-cli/src/app/command/format.rs
+++ b/rust/tombi-cli/src/app/command/format.rs
@@ -170,7 +170,7 @@ where
 
                 match format_stdin(
                     FormatFile::from_stdin(stdin_path),
-                    printer,
+                    printer.clone(),
                     toml_version,
                     args.check,
                     args.diff,
@@ -181,7 +181,10 @@ where
                 {
                     Ok(true) => summary.success_num += 1,
                     Ok(false) => summary.not_needed_num += 1,
-                    Err(_) => summary.error_num += 1,
+                    Err(error) => {
+                        error.print(&mut printer);
+                        summary.error_num += 1;
+                    }
                 }
             }
             FileSearch::Files(files) => {
-- 
2.43.0


From 2b14b58ca99dc9a63fc1bd9db94f4731277e84a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:20 +0000
Subject: [PATCH 04/25] fix: pass stdin through when it is not formatted

---
 rust/tombi-cli/src/app/command/format.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/rust/tombi-cli/src/app/command/format.rs b/rust/tombi-cli/src/app/command/format.rs
index 3f8f016..46e93a1 100644
--- a/rust/tombi-cli/src/app/command/format.rs
+++ b/rust/tombi-cli/src/app/command/format.rs
@@ -114,10 +114,8 @@ where
         std::env::current_dir().ok(),
     )
     .inspect_err(|_| {
-        if FileInputType::from(args.files.as_ref()) == FileInputType::Stdin
-            && let Err(error) = std::io::copy(&mut std::io::stdin(), &mut std::io::stdout())
-        {
-            log::error!("failed to copy stdin to stdout: {}", error);
+        if FileInputType::from(args.files.as_ref()) == FileInputType::Stdin {
+            copy_stdin_to_stdout();
         }
     })?;
 
@@ -148,7 +146,11 @@ where
             FileSearch::new(&args.files, &config, config_path.as_deref(), config_level,)
         );
 
-        schema_result?;
+        schema_result.inspect_err(|_| {
+            if matches!(input, FileSearch::Stdin) {
+                copy_stdin_to_stdout();
+            }
+        })?;
         let total_num = input.len();
         let mut summary = FormatRunSummary::default();
 
@@ -164,6 +166,9 @@ where
                     config_path.as_deref(),
                 ) else {
                     log::debug!("formatting disabled for stdin by override");
+                    if !args.check {
+                        copy_stdin_to_stdout();
+                    }
                     summary.not_needed_num += 1;
                     return Ok(summary);
                 };
@@ -288,6 +293,13 @@ where
     })
 }
 
+/// Passes the source through when standard input is not going to be formatted.
+fn copy_stdin_to_stdout() {
+    if let Err(error) = std::io::copy(&mut std::io::stdin(), &mut std::io::stdout()) {
+        log::error!("failed to copy stdin to stdout: {}", error);
+    }
+}
+
 // For standard input: --check outputs formatted TOML and returns error if different
 async fn format_stdin<P>(
     mut file: FormatFile,
-- 
2.43.0


From d0e427616dbae951dc11f83511ae3315080fb412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:54 +0000
Subject: [PATCH 05/25] fix: do not fetch remote files in the offline language
 server

---
 crates/tombi-lsp/src/config_manager.rs | 4 ++++
 crates/tombi-lsp/src/remote_file.rs    | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/crates/tombi-lsp/src/config_manager.rs b/crates/tombi-lsp/src/config_manager.rs
index aac52be..d60a98f 100644
--- a/crates/tombi-lsp/src/config_manager.rs
+++ b/crates/tombi-lsp/src/config_manager.rs
@@ -99,6 +99,10 @@ impl ConfigManager {
         }
     }
 
+    pub fn offline(&self) -> bool {
+        self.backend_options.offline.unwrap_or_default()
+    }
+
     /// Get config for a URI
     pub async fn config_schema_store_for_uri(
         &self,
diff --git a/crates/tombi-lsp/src/remote_file.rs b/crates/tombi-lsp/src/remote_file.rs
index 4ad1eb8..350833b 100644
--- a/crates/tombi-lsp/src/remote_file.rs
+++ b/crates/tombi-lsp/src/remote_file.rs
@@ -22,6 +22,10 @@ pub async fn open_remote_file(
             {
                 return Ok(Some(cached_uri));
             }
+            if backend.config_manager.offline() {
+                log::debug!("offline mode, skip fetch remote file from uri: {uri}");
+                return Ok(None);
+            }
             let remote_uri = build_remote_document_uri(uri)?;
             let content = fetch_remote_content(uri).await?;
             open_remote_content(backend, &remote_uri, content).await?;
-- 
2.43.0


From 89c478b23cc2aaf8868abab4cd83a46ef4ffd677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:38 +0000
Subject: [PATCH 06/25] fix: let override rules take precedence over the base
 rules

---
 crates/tombi-config/src/format.rs | 64 +++++++++++++++----------------
 crates/tombi-config/src/lint.rs   | 10 ++---
 2 files changed, 37 insertions(+), 37 deletions(-)

diff --git a/crates/tombi-config/src/format.rs b/crates/tombi-config/src/format.rs
index e054e26..d1def14 100644
--- a/crates/tombi-config/src/format.rs
+++ b/crates/tombi-config/src/format.rs
@@ -305,50 +305,50 @@ pub struct FormatRules {
 impl FormatRules {
     pub fn merge(self, override_rules: &Self) -> Self {
         Self {
-            array_bracket_space_width: self
+            array_bracket_space_width: override_rules
                 .array_bracket_space_width
-                .or(override_rules.array_bracket_space_width),
-            array_comma_space_width: self
+                .or(self.array_bracket_space_width),
+            array_comma_space_width: override_rules
                 .array_comma_space_width
-                .or(override_rules.array_comma_space_width),
-            comment_style: self.comment_style.or(override_rules.comment_style),
-            date_time_delimiter: self
+                .or(self.array_comma_space_width),
+            comment_style: override_rules.comment_style.or(self.comment_style),
+            date_time_delimiter: override_rules
                 .date_time_delimiter
-                .or(override_rules.date_time_delimiter),
-            group_blank_lines_limit: self
+                .or(self.date_time_delimiter),
+            group_blank_lines_limit: override_rules
                 .group_blank_lines_limit
-                .or(override_rules.group_blank_lines_limit),
-            indent_style: self.indent_style.or(override_rules.indent_style),
-            indent_sub_tables: self.indent_sub_tables.or(override_rules.indent_sub_tables),
-            indent_table_key_value_pairs: self
+                .or(self.group_blank_lines_limit),
+            indent_style: override_rules.indent_style.or(self.indent_style),
+            indent_sub_tables: override_rules.indent_sub_tables.or(self.indent_sub_tables),
+            indent_table_key_value_pairs: override_rules
                 .indent_table_key_value_pairs
-                .or(override_rules.indent_table_key_value_pairs),
-            indent_width: self.indent_width.or(override_rules.indent_width),
-            inline_table_brace_space_width: self
+                .or(self.indent_table_key_value_pairs),
+            indent_width: override_rules.indent_width.or(self.indent_width),
+            inline_table_brace_space_width: override_rules
                 .inline_table_brace_space_width
-                .or(override_rules.inline_table_brace_space_width),
-            inline_table_comma_space_width: self
+                .or(self.inline_table_brace_space_width),
+            inline_table_comma_space_width: override_rules
                 .inline_table_comma_space_width
-                .or(override_rules.inline_table_comma_space_width),
-            key_value_equals_sign_alignment: self
+                .or(self.inline_table_comma_space_width),
+            key_value_equals_sign_alignment: override_rules
                 .key_value_equals_sign_alignment
-                .or(override_rules.key_value_equals_sign_alignment),
-            key_quote_style: self.key_quote_style.or(override_rules.key_quote_style),
-            string_quote_style: self
+                .or(self.key_value_equals_sign_alignment),
+            key_quote_style: override_rules.key_quote_style.or(self.key_quote_style),
+            string_quote_style: override_rules
                 .string_quote_style
-                .or(override_rules.string_quote_style),
-            trailing_comment_alignment: self
+                .or(self.string_quote_style),
+            trailing_comment_alignment: override_rules
                 .trailing_comment_alignment
-                .or(override_rules.trailing_comment_alignment),
-            key_value_equals_sign_space_width: self
+                .or(self.trailing_comment_alignment),
+            key_value_equals_sign_space_width: override_rules
                 .key_value_equals_sign_space_width
-                .or(override_rules.key_value_equals_sign_space_width),
-            line_ending: self.line_ending.or(override_rules.line_ending),
-            line_width: self.line_width.or(override_rules.line_width),
-            table_blank_lines: self.table_blank_lines.or(override_rules.table_blank_lines),
-            trailing_comment_space_width: self
+                .or(self.key_value_equals_sign_space_width),
+            line_ending: override_rules.line_ending.or(self.line_ending),
+            line_width: override_rules.line_width.or(self.line_width),
+            table_blank_lines: override_rules.table_blank_lines.or(self.table_blank_lines),
+            trailing_comment_space_width: override_rules
                 .trailing_comment_space_width
-                .or(override_rules.trailing_comment_space_width),
+                .or(self.trailing_comment_space_width),
         }
     }
 }
diff --git a/crates/tombi-config/src/lint.rs b/crates/tombi-config/src/lint.rs
index 447d22c..9708852 100644
--- a/crates/tombi-config/src/lint.rs
+++ b/crates/tombi-config/src/lint.rs
@@ -75,13 +75,13 @@ pub struct LintRules {
 impl LintRules {
     pub fn merge(self, override_rules: &Self) -> Self {
         Self {
-            key_empty: self.key_empty.or(override_rules.key_empty),
-            dotted_keys_out_of_order: self
+            key_empty: override_rules.key_empty.or(self.key_empty),
+            dotted_keys_out_of_order: override_rules
                 .dotted_keys_out_of_order
-                .or(override_rules.dotted_keys_out_of_order),
-            tables_out_of_order: self
+                .or(self.dotted_keys_out_of_order),
+            tables_out_of_order: override_rules
                 .tables_out_of_order
-                .or(override_rules.tables_out_of_order),
+                .or(self.tables_out_of_order),
         }
     }
 }
-- 
2.43.0


From 753d6a6f42ca431bc4bd3fda892071a152154681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:14 +0000
Subject: [PATCH 07/25] fix: trim exactly one newline after the opening
 delimiter of a multi-line string

---
 crates/tombi-toml-text/src/lib.rs | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/crates/tombi-toml-text/src/lib.rs b/crates/tombi-toml-text/src/lib.rs
index 4db65c4..4131735 100644
--- a/crates/tombi-toml-text/src/lib.rs
+++ b/crates/tombi-toml-text/src/lib.rs
@@ -74,24 +74,22 @@ pub fn try_from_multi_line_basic_string(
     value: &str,
     toml_version: TomlVersion,
 ) -> Result<String, ParseError> {
-    parse_basic_string(
-        &value[3..value.len() - 3]
-            .chars()
-            .skip_while(|c| matches!(c, '\n'))
-            .collect::<String>(),
-        toml_version,
-        true,
-    )
+    parse_basic_string(multi_line_content(value), toml_version, true)
 }
 
 pub fn try_from_multi_line_literal_string(value: &str) -> Result<String, ParseError> {
-    parse_literal_string(
-        &value[3..value.len() - 3]
-            .chars()
-            .skip_while(|c| matches!(c, '\n'))
-            .collect::<String>(),
-        true,
-    )
+    parse_literal_string(multi_line_content(value), true)
+}
+
+/// Returns the text between the delimiters of a multi-line string.
+///
+/// Only the newline immediately following the opening delimiter is trimmed.
+fn multi_line_content(value: &str) -> &str {
+    let content = &value[3..value.len() - 3];
+    content
+        .strip_prefix("\r\n")
+        .or_else(|| content.strip_prefix('\n'))
+        .unwrap_or(content)
 }
 
 pub fn parse_basic_string(
-- 
2.43.0


From f6948ef61b3d3864961d4a542b2d52f306c70b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:14 +0000
Subject: [PATCH 08/25] fix: reject a sign in a unicode or hex escape sequence

---
 crates/tombi-toml-text/src/lib.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/tombi-toml-text/src/lib.rs b/crates/tombi-toml-text/src/lib.rs
index 4131735..c02dc57 100644
--- a/crates/tombi-toml-text/src/lib.rs
+++ b/crates/tombi-toml-text/src/lib.rs
@@ -144,7 +144,9 @@ pub fn parse_basic_string(
                             chars.next(); // consume 'u'
                             unicode_buf.clear();
                             for _ in 0..4 {
-                                if let Some(hex_digit) = chars.next() {
+                                if let Some(hex_digit) =
+                                    chars.next().filter(char::is_ascii_hexdigit)
+                                {
                                     unicode_buf.push(hex_digit);
                                 } else {
                                     return Err(ParseError::InvalidUnicodeEscapeSequence);
@@ -164,7 +166,9 @@ pub fn parse_basic_string(
                             chars.next(); // consume 'U'
                             unicode_buf.clear();
                             for _ in 0..8 {
-                                if let Some(hex_digit) = chars.next() {
+                                if let Some(hex_digit) =
+                                    chars.next().filter(char::is_ascii_hexdigit)
+                                {
                                     unicode_buf.push(hex_digit);
                                 } else {
                                     return Err(ParseError::InvalidUnicodeEscapeSequence);
@@ -189,7 +193,9 @@ pub fn parse_basic_string(
 
                             unicode_buf.clear();
                             for _ in 0..2 {
-                                if let Some(hex_digit) = chars.next() {
+                                if let Some(hex_digit) =
+                                    chars.next().filter(char::is_ascii_hexdigit)
+                                {
                                     unicode_buf.push(hex_digit);
                                 } else {
                                     return Err(ParseError::InvalidUnicodeEscapeSequence);
-- 
2.43.0


From f09343d8d099debdac3534f8a9669fa8adf5e140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:48 +0000
Subject: [PATCH 09/25] fix: write control characters with escapes that every
 TOML version reads

---
 crates/tombi-toml-text/src/lib.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/crates/tombi-toml-text/src/lib.rs b/crates/tombi-toml-text/src/lib.rs
index c02dc57..16ad084 100644
--- a/crates/tombi-toml-text/src/lib.rs
+++ b/crates/tombi-toml-text/src/lib.rs
@@ -292,15 +292,11 @@ pub fn to_basic_string(value: &str) -> String {
         match c {
             '"' => result.push_str("\\\""),
             '\\' => result.push_str("\\\\"),
-            '\x00' => result.push_str("\\0"),
-            '\x07' => result.push_str("\\a"),
             '\x08' => result.push_str("\\b"),
             '\x09' => result.push_str("\\t"),
             '\x0a' => result.push_str("\\n"),
-            '\x0b' => result.push_str("\\v"),
             '\x0c' => result.push_str("\\f"),
             '\x0d' => result.push_str("\\r"),
-            '\x1b' => result.push_str("\\e"),
             c if c.is_control() => {
                 result.push_str(&format!("\\u{:04x}", c as u32));
             }
-- 
2.43.0


From 0e719eac4ffc4b42b9907c15ecc5819cfb7aa660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:55 +0000
Subject: [PATCH 10/25] fix: a line-ending backslash trims only spaces, tabs
 and newlines

---
 crates/tombi-toml-text/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/tombi-toml-text/src/lib.rs b/crates/tombi-toml-text/src/lib.rs
index 16ad084..9fbc124 100644
--- a/crates/tombi-toml-text/src/lib.rs
+++ b/crates/tombi-toml-text/src/lib.rs
@@ -212,13 +212,13 @@ pub fn parse_basic_string(
                                 return Err(ParseError::InvalidUnicodeEscapeSequence);
                             }
                         }
-                        c if c.is_whitespace() => {
+                        ' ' | '\t' | '\r' | '\n' => {
                             // Skip newline characters
-                            let mut has_whitespace = c == '\n';
+                            let mut has_whitespace = next_c == '\n';
 
                             chars.next();
                             while let Some(&c) = chars.peek() {
-                                if c.is_whitespace() {
+                                if matches!(c, ' ' | '\t' | '\r' | '\n') {
                                     has_whitespace = has_whitespace || c == '\n';
                                     chars.next();
                                 } else {
-- 
2.43.0


From 2ca39acd5d80b1fc68c78abc032927f4a9dd1ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:36 +0000
Subject: [PATCH 11/25] fix: keep a failed not or if/then/else next to oneOf
 and anyOf

The failed assertion of an adjacent `not` or `if`/`then`/`else` was dropped
when the matching branch of `oneOf` only gave warnings, and when no branch of
`oneOf` or `anyOf` failed itself, so enclosing schemas saw a match.
---
 crates/tombi-validator/src/validate/any_of.rs | 6 +++++-
 crates/tombi-validator/src/validate/one_of.rs | 2 ++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/tombi-validator/src/validate/any_of.rs b/crates/tombi-validator/src/validate/any_of.rs
index df4bc85..1535102 100644
--- a/crates/tombi-validator/src/validate/any_of.rs
+++ b/crates/tombi-validator/src/validate/any_of.rs
@@ -158,9 +158,13 @@ where
                     local_evaluated_locations: matched_evaluated_locations,
                 })
             }
-        } else if !total_error.assertion_failed && total_diagnostics.is_empty() {
+        } else if !total_error.assertion_failed
+            && !adjacent_assertion_failed
+            && total_diagnostics.is_empty()
+        {
             Ok(matched_evaluated_locations)
         } else {
+            total_error.assertion_failed |= adjacent_assertion_failed;
             total_error.prepend_diagnostics(total_diagnostics);
             total_error
                 .local_evaluated_locations
diff --git a/crates/tombi-validator/src/validate/one_of.rs b/crates/tombi-validator/src/validate/one_of.rs
index e3cb4d3..65a4521 100644
--- a/crates/tombi-validator/src/validate/one_of.rs
+++ b/crates/tombi-validator/src/validate/one_of.rs
@@ -161,6 +161,7 @@ where
                         });
                     }
                     Err(mut error) if !error.assertion_failed => {
+                        error.assertion_failed |= adjacent_assertion_failed;
                         error.prepend_diagnostics(total_diagnostics);
                         error
                             .local_evaluated_locations
@@ -221,6 +222,7 @@ where
                 );
             }
 
+            error.assertion_failed |= adjacent_assertion_failed;
             error.prepend_diagnostics(total_diagnostics);
             error
                 .local_evaluated_locations
-- 
2.43.0


From e619459480f63092c4e1347bcdf954d2d7290d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:58 +0000
Subject: [PATCH 12/25] fix: keep edits that arrive while a document is still
 being opened

didOpen inserted the document only after its TOML version was resolved, which
can wait for a remote schema; a didChange arriving in the meantime found no
document and was dropped, and the opened text then overwrote it.
---
 crates/tombi-lsp/src/diagnostic.rs         | 12 +++--
 crates/tombi-lsp/src/handler/diagnostic.rs |  1 +
 crates/tombi-lsp/src/handler/did_open.rs   | 52 +++++++++++++++++-----
 3 files changed, 50 insertions(+), 15 deletions(-)

diff --git a/crates/tombi-lsp/src/diagnostic.rs b/crates/tombi-lsp/src/diagnostic.rs
index 1753190..a59e6b7 100644
--- a/crates/tombi-lsp/src/diagnostic.rs
+++ b/crates/tombi-lsp/src/diagnostic.rs
@@ -128,10 +128,14 @@ pub async fn get_diagnostics_result(
     {
         let mut workspace_diagnostics_cache = backend.workspace_diagnostics_cache.write().await;
         if let Ok(document_sources) = backend.document_sources.try_read() {
-            let current_version = document_sources
-                .get(text_document_uri)
-                .and_then(|document_source| document_source.version);
-            if current_version == diagnostics_result.version {
+            let is_current =
+                document_sources
+                    .get(text_document_uri)
+                    .is_some_and(|document_source| {
+                        document_source.version == diagnostics_result.version
+                            && document_source.toml_version == toml_version
+                    });
+            if is_current {
                 workspace_diagnostics_cache
                     .set(text_document_uri.clone(), diagnostics_result.clone());
             }
diff --git a/crates/tombi-lsp/src/handler/diagnostic.rs b/crates/tombi-lsp/src/handler/diagnostic.rs
index fca4ca9..e80d833 100644
--- a/crates/tombi-lsp/src/handler/diagnostic.rs
+++ b/crates/tombi-lsp/src/handler/diagnostic.rs
@@ -13,6 +13,7 @@ pub async fn handle_diagnostic(
     let DocumentDiagnosticParams { text_document, .. } = params;
 
     let text_document_uri = text_document.uri.into();
+    backend.wait_for_document_open(&text_document_uri).await;
 
     Ok({
         DocumentDiagnosticReportResult::Report(DocumentDiagnosticReport::Full(
diff --git a/crates/tombi-lsp/src/handler/did_open.rs b/crates/tombi-lsp/src/handler/did_open.rs
index 0cbe89c..c367b78 100644
--- a/crates/tombi-lsp/src/handler/did_open.rs
+++ b/crates/tombi-lsp/src/handler/did_open.rs
@@ -22,24 +22,54 @@ pub async fn handle_did_open(backend: &Backend, params: DidOpenTextDocumentParam
 
     let text_document_uri: tombi_uri::Uri = text_document.uri.into();
     backend.begin_document_open(text_document_uri.clone());
-    let toml_version = backend
-        .text_document_toml_version(&text_document_uri, &text_document.text)
-        .await;
     let encoding_kind = backend.capabilities.read().await.encoding_kind;
-    let document_source = DocumentSource::new(
-        text_document.text,
-        Some(text_document.version),
-        toml_version,
-        encoding_kind,
-    );
-    let document_tree = document_source.document_tree();
 
+    // Insert the document up front: resolving the TOML version may wait for a remote
+    // schema, and an edit (or a close) that arrives in the meantime must find the document.
     {
         let mut document_sources = backend.document_sources.write().await;
 
-        document_sources.insert(text_document_uri.clone(), document_source);
+        document_sources.insert(
+            text_document_uri.clone(),
+            DocumentSource::new(
+                text_document.text.clone(),
+                Some(text_document.version),
+                Default::default(),
+                encoding_kind,
+            ),
+        );
     }
 
+    backend
+        .workspace_diagnostics_cache
+        .write()
+        .await
+        .clear(&text_document_uri);
+
+    let toml_version = backend
+        .text_document_toml_version(&text_document_uri, &text_document.text)
+        .await;
+
+    let document_tree = {
+        let mut document_sources = backend.document_sources.write().await;
+
+        document_sources
+            .get_mut(&text_document_uri)
+            .map(|document| {
+                // Re-apply only when the document has not been superseded by an edit.
+                if document.version == Some(text_document.version)
+                    && document.toml_version != toml_version
+                {
+                    document.set_text(text_document.text, toml_version);
+                }
+                document.document_tree()
+            })
+    };
+    let Some(document_tree) = document_tree else {
+        backend.finish_document_open(&text_document_uri);
+        return;
+    };
+
     backend
         .workspace_diagnostics_cache
         .write()
-- 
2.43.0


From 92746a76bb3fc22c09cf7d818d7c9c60d0f3e748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:37 +0000
Subject: [PATCH 13/25] fix: keep a document that is open in the editor when
 its file is deleted on disk

The watcher event removed the open document; every later edit was dropped.
---
 .../src/handler/did_change_watched_files.rs      | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/crates/tombi-lsp/src/handler/did_change_watched_files.rs b/crates/tombi-lsp/src/handler/did_change_watched_files.rs
index 223931f..eba9e76 100644
--- a/crates/tombi-lsp/src/handler/did_change_watched_files.rs
+++ b/crates/tombi-lsp/src/handler/did_change_watched_files.rs
@@ -29,12 +29,20 @@ pub async fn handle_did_change_watched_files(
                 if let Ok(path) = uri.to_file_path() {
                     tombi_fs::remove_file(&path);
                 }
-                {
+                let is_open = {
                     let mut document_sources = backend.document_sources.write().await;
-                    document_sources.remove(&uri);
-                }
+                    let is_open = document_sources
+                        .get(&uri)
+                        .is_some_and(|source| source.version.is_some());
+                    if !is_open {
+                        document_sources.remove(&uri);
+                    }
+                    is_open
+                };
 
-                if backend.is_diagnostic_mode_push().await {
+                if is_open {
+                    log::debug!("keep open document: {uri}");
+                } else if backend.is_diagnostic_mode_push().await {
                     backend
                         .client
                         .publish_diagnostics(change.uri, Vec::new(), None)
-- 
2.43.0


From 6f28a46a9ef7c502b7250411e58ae5c2687c9a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:37 +0000
Subject: [PATCH 14/25] fix: drop the cached diagnostics when a created file
 replaces a known document

track() kept an existing cache entry, so the diagnostics of the old content were published again.
---
 crates/tombi-lsp/src/workspace_diagnostic/cache.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tombi-lsp/src/workspace_diagnostic/cache.rs b/crates/tombi-lsp/src/workspace_diagnostic/cache.rs
index 853b3d9..58d77db 100644
--- a/crates/tombi-lsp/src/workspace_diagnostic/cache.rs
+++ b/crates/tombi-lsp/src/workspace_diagnostic/cache.rs
@@ -39,7 +39,7 @@ impl WorkspaceDiagnosticsCache {
         if is_workspace_target && let Some(tracked_targets) = self.workspace_targets.as_mut() {
             tracked_targets.insert(text_document_uri.clone());
         }
-        self.cache.entry(text_document_uri).or_insert(None);
+        self.cache.insert(text_document_uri, None);
     }
 
     pub fn untrack(&mut self, text_document_uri: &tombi_uri::Uri) {
-- 
2.43.0


From d9307f50ee52276fa59897e270e0b84405d68b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:53 +0000
Subject: [PATCH 15/25] fix: drop cached diagnostics when the editor
 configuration or the schema cache changes

A pull after workspace/didChangeConfiguration kept returning the results of the previous configuration until the next edit.
---
 crates/tombi-lsp/src/handler/did_change_configuration.rs | 1 +
 crates/tombi-lsp/src/handler/refresh_cache.rs            | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/crates/tombi-lsp/src/handler/did_change_configuration.rs b/crates/tombi-lsp/src/handler/did_change_configuration.rs
index 567b216..9e3a4b2 100644
--- a/crates/tombi-lsp/src/handler/did_change_configuration.rs
+++ b/crates/tombi-lsp/src/handler/did_change_configuration.rs
@@ -23,6 +23,7 @@ pub async fn handle_did_change_configuration(
             Ok(config) => {
                 log::info!("updating editor config: {:?}", config);
                 backend.config_manager.update_editor_config(config).await;
+                backend.workspace_diagnostics_cache.write().await.reset();
             }
             Err(err) => {
                 log::error!("failed to parse editor config: {}", err);
diff --git a/crates/tombi-lsp/src/handler/refresh_cache.rs b/crates/tombi-lsp/src/handler/refresh_cache.rs
index 4e889a7..f6fdfdc 100644
--- a/crates/tombi-lsp/src/handler/refresh_cache.rs
+++ b/crates/tombi-lsp/src/handler/refresh_cache.rs
@@ -14,6 +14,11 @@ pub async fn handle_refresh_cache(
 
     match backend.config_manager.refresh_cache().await {
         Ok(true) => {
+            backend
+                .workspace_diagnostics_cache
+                .write()
+                .await
+                .clear_all();
             log::info!("cache refreshed");
             Ok(true)
         }
-- 
2.43.0


From 4fdd5e4a9ed7c8b2d15eb34532e36c13b12a1d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:16 +0000
Subject: [PATCH 16/25] fix: reject dotted keys that extend a table defined by
 a header, and inline tables in place of an implicit one

[a.b] followed by [a] with b.c = 1, and [a.b.c] followed by [a] with b = {},
were accepted; [a.b.c.d] followed by [a] with b.x.y = 1, which only adds to
an implicit table, was rejected.
---
 crates/tombi-document-tree/src/value/table.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/crates/tombi-document-tree/src/value/table.rs b/crates/tombi-document-tree/src/value/table.rs
index b4ef04e..b3b870b 100644
--- a/crates/tombi-document-tree/src/value/table.rs
+++ b/crates/tombi-document-tree/src/value/table.rs
@@ -267,10 +267,10 @@ impl Table {
             }
             (Table | InlineTable { .. } | KeyValue, Table | InlineTable { .. })
             | (InlineTable { .. }, ParentTable | ParentKey | KeyValue)
-            | (ParentTable, ParentKey) => {
+            | (ParentTable, InlineTable { .. }) => {
                 is_conflict = true;
             }
-            (ParentTable, Table | InlineTable { .. }) => {
+            (ParentTable, Table | ParentKey | KeyValue) => {
                 self.kind = other.kind;
             }
             (ParentKey, Table | InlineTable { .. }) => {
@@ -297,6 +297,18 @@ impl Table {
                 tombi_hashmap::map::Entry::Occupied(mut entry) => {
                     let value1 = entry.get_mut();
                     match (value1, value2) {
+                        // A table defined by its own header cannot be extended by dotted keys.
+                        (Value::Table(table1), Value::Table(table2))
+                            if matches!(
+                                (table1.kind, table2.kind),
+                                (Table, ParentKey | KeyValue)
+                            ) =>
+                        {
+                            errors.push(crate::Error::ConflictTable {
+                                range1: table1.symbol_range,
+                                range2: table2.symbol_range,
+                            });
+                        }
                         (Value::Table(table1), Value::Table(table2)) => {
                             if let Err(errs) = table1.merge(table2) {
                                 errors.extend(errs);
-- 
2.43.0


From a9f0a3aefdbd4538cde3f73e7dd5e98b25d64a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:40 +0000
Subject: [PATCH 17/25] fix: find the parent array of tables of a header also
 when another table stands in between

[[a]], [[b]], [a.c] is valid, but was rejected with "duplicate key: a".
---
 crates/tombi-ast/src/impls/array_of_table.rs | 4 ++--
 crates/tombi-ast/src/impls/table.rs          | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/tombi-ast/src/impls/array_of_table.rs b/crates/tombi-ast/src/impls/array_of_table.rs
index 4bf379f..e75c871 100644
--- a/crates/tombi-ast/src/impls/array_of_table.rs
+++ b/crates/tombi-ast/src/impls/array_of_table.rs
@@ -125,7 +125,7 @@ impl crate::ArrayOfTable {
     ) -> impl Iterator<Item = AstChildren<crate::Key>> + '_ {
         support::node::prev_siblings_nodes(self)
             .filter_map(|node: TableOrArrayOfTable| node.header().map(|header| header.keys()))
-            .take_while(move |keys| {
+            .filter(move |keys| {
                 match (
                     self.header().and_then(|header| header.keys().next()),
                     keys.clone().next(),
@@ -153,7 +153,7 @@ impl crate::ArrayOfTable {
     ) -> impl Iterator<Item = AstChildren<crate::Key>> + '_ {
         support::node::prev_siblings_nodes(self)
             .filter_map(|node: ArrayOfTable| node.header().map(|header| header.keys()))
-            .take_while(move |keys| {
+            .filter(move |keys| {
                 match (
                     self.header().and_then(|header| header.keys().next()),
                     keys.clone().next(),
diff --git a/crates/tombi-ast/src/impls/table.rs b/crates/tombi-ast/src/impls/table.rs
index 18eb2c5..2b29198 100644
--- a/crates/tombi-ast/src/impls/table.rs
+++ b/crates/tombi-ast/src/impls/table.rs
@@ -125,7 +125,7 @@ impl crate::Table {
     ) -> impl Iterator<Item = AstChildren<crate::Key>> + '_ {
         support::node::prev_siblings_nodes(self)
             .filter_map(|node: TableOrArrayOfTable| node.header().map(|header| header.keys()))
-            .take_while(move |keys| {
+            .filter(move |keys| {
                 match (
                     self.header().and_then(|header| header.keys().next()),
                     keys.clone().next(),
@@ -154,7 +154,7 @@ impl crate::Table {
     ) -> impl Iterator<Item = AstChildren<crate::Key>> + '_ {
         support::node::prev_siblings_nodes(self)
             .filter_map(|node: ArrayOfTable| node.header().map(|header| header.keys()))
-            .take_while(move |keys| {
+            .filter(move |keys| {
                 match (
                     self.header().and_then(|header| header.keys().next()),
                     keys.clone().next(),
-- 
2.43.0


From 2e2422aeec2c0d6e2ee0409a49c2832f25a86b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:45 +0000
Subject: [PATCH 18/25] fix: ignore nested array of tables of earlier elements
 when reading a header

[[a]], [[a.b]], [[a]], [a.b.c] made b of the second element an array of one
table instead of a table.
---
 crates/tombi-ast/src/impls/array_of_table.rs |  1 +
 crates/tombi-ast/src/impls/table.rs          |  1 +
 crates/tombi-ast/src/support/node.rs         | 19 +++++++++++++++++++
 3 files changed, 21 insertions(+)

diff --git a/crates/tombi-ast/src/impls/array_of_table.rs b/crates/tombi-ast/src/impls/array_of_table.rs
index e75c871..e185dc8 100644
--- a/crates/tombi-ast/src/impls/array_of_table.rs
+++ b/crates/tombi-ast/src/impls/array_of_table.rs
@@ -173,5 +173,6 @@ impl crate::ArrayOfTable {
                     .map(|header_keys| header_keys.keys().starts_with(keys))
                     .unwrap_or_default()
             })
+            .filter(support::node::in_current_element())
     }
 }
diff --git a/crates/tombi-ast/src/impls/table.rs b/crates/tombi-ast/src/impls/table.rs
index 2b29198..f8c22ac 100644
--- a/crates/tombi-ast/src/impls/table.rs
+++ b/crates/tombi-ast/src/impls/table.rs
@@ -174,5 +174,6 @@ impl crate::Table {
                     .map(|header_keys| header_keys.keys().starts_with(keys))
                     .unwrap_or_default()
             })
+            .filter(support::node::in_current_element())
     }
 }
diff --git a/crates/tombi-ast/src/support/node.rs b/crates/tombi-ast/src/support/node.rs
index e7746b4..f1d5b88 100644
--- a/crates/tombi-ast/src/support/node.rs
+++ b/crates/tombi-ast/src/support/node.rs
@@ -33,3 +33,22 @@ pub fn next_siblings_nodes<N: AstNode, T: AstNode>(node: &N) -> impl Iterator<It
         .siblings(tombi_syntax::Direction::Next)
         .filter_map(T::cast)
 }
+
+/// Filters the headers of parent array of tables, nearest first, down to those
+/// that belong to the current element of each array of tables around them.
+///
+/// ```toml
+/// [[a]]
+/// [[a.b]]  # <- not a parent: it belongs to the first element of `a`
+/// [[a]]
+/// [a.b.c]
+/// ```
+pub fn in_current_element() -> impl FnMut(&AstChildren<crate::Key>) -> bool {
+    let mut shortest = usize::MAX;
+    move |keys| {
+        let len = keys.clone().count();
+        let in_current_element = len <= shortest;
+        shortest = shortest.min(len);
+        in_current_element
+    }
+}
-- 
2.43.0


From b79b36a5d7518328330f39e112ea25767b99d28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:27 +0000
Subject: [PATCH 19/25] fix: end a multi-line basic string whose text ends with
 an escaped backslash

---
 crates/tombi-lexer/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/tombi-lexer/src/lib.rs b/crates/tombi-lexer/src/lib.rs
index 2ca97d7..f4e8743 100644
--- a/crates/tombi-lexer/src/lib.rs
+++ b/crates/tombi-lexer/src/lib.rs
@@ -422,7 +422,8 @@ impl Cursor<'_> {
                     ));
                 }
                 '\\' => {
-                    was_quote = true;
+                    // A backslash that is itself escaped does not escape what follows.
+                    was_quote = !was_quote;
                 }
                 _ => {
                     was_quote = false;
-- 
2.43.0


From 8d5787605ad6f13b7785f0ee2d3320173bc11235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:27 +0000
Subject: [PATCH 20/25] fix: read a dotted number as a key after white space at
 the start of a document

---
 crates/tombi-parser/src/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/tombi-parser/src/parser.rs b/crates/tombi-parser/src/parser.rs
index efc61d4..0a2f54a 100644
--- a/crates/tombi-parser/src/parser.rs
+++ b/crates/tombi-parser/src/parser.rs
@@ -225,6 +225,10 @@ impl<'t> Parser<'t> {
         let parts: Vec<&str> = text.split('.').collect();
         debug_assert!(parts.len() == 2);
 
+        // Hand on the trivia in front of the key.
+        let index = self.nth_index(0);
+        self.tokens.extend(&self.input_tokens[self.pos..index]);
+
         let key1 = {
             let m = self.start();
 
@@ -305,7 +309,7 @@ impl<'t> Parser<'t> {
 
             m.complete(self, token.kind())
         }
-        self.pos += 1;
+        self.pos = index + 1;
     }
 
     fn do_bump(&mut self, kind: SyntaxKind, n_raw_tokens: u8) {
-- 
2.43.0


From 02f52d5b0b1998edbc30c2cd06b1b822e4d8cc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:05 +0000
Subject: [PATCH 21/25] fix: honour the path toggle and disabled groups for go
 to declaration

---
 extensions/tombi-extension-cargo/src/goto_declaration.rs     | 2 +-
 extensions/tombi-extension-pyproject/src/goto_declaration.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/extensions/tombi-extension-cargo/src/goto_declaration.rs b/extensions/tombi-extension-cargo/src/goto_declaration.rs
index 009e1a2..ed07f52 100644
--- a/extensions/tombi-extension-cargo/src/goto_declaration.rs
+++ b/extensions/tombi-extension-cargo/src/goto_declaration.rs
@@ -51,7 +51,7 @@ fn cargo_goto_declaration_enabled(
             |goto_declaration| match classify_cargo_navigation_feature(accessors) {
                 CargoNavigationFeature::Dependency => goto_declaration.dependency(),
                 CargoNavigationFeature::Member => goto_declaration.member(),
-                CargoNavigationFeature::Path => None,
+                CargoNavigationFeature::Path => goto_declaration.path(),
             },
         )
         .map(|feature| feature.enabled())
diff --git a/extensions/tombi-extension-pyproject/src/goto_declaration.rs b/extensions/tombi-extension-pyproject/src/goto_declaration.rs
index b9eb70a..540e078 100644
--- a/extensions/tombi-extension-pyproject/src/goto_declaration.rs
+++ b/extensions/tombi-extension-pyproject/src/goto_declaration.rs
@@ -147,7 +147,7 @@ fn pyproject_goto_declaration_enabled(
             |goto_declaration| match classify_pyproject_navigation_feature(accessors) {
                 PyprojectNavigationFeature::Dependency => goto_declaration.dependency(),
                 PyprojectNavigationFeature::Member => goto_declaration.member(),
-                PyprojectNavigationFeature::Path => None,
+                PyprojectNavigationFeature::Path => goto_declaration.path(),
             },
         )
         .map(|feature| feature.enabled())
-- 
2.43.0


From 19b910539dbcedd733a48b8416edc36601862766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:01 +0000
Subject: [PATCH 22/25] fix: release the property lock before resolving the
 schema of a type definition

---
 crates/tombi-lsp/src/goto_type_definition/value/table.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/tombi-lsp/src/goto_type_definition/value/table.rs b/crates/tombi-lsp/src/goto_type_definition/value/table.rs
index e05a283..6bd00ee 100644
--- a/crates/tombi-lsp/src/goto_type_definition/value/table.rs
+++ b/crates/tombi-lsp/src/goto_type_definition/value/table.rs
@@ -68,13 +68,15 @@ impl GetTypeDefinition for tombi_document_tree::Table {
                                     .chain(std::iter::once(accessor))
                                     .collect_vec();
 
-                                if let Some(key_range) = table_schema
+                                // Release the read lock before `resolve_property_schema`,
+                                // which takes the write lock of the same properties.
+                                let key_range = table_schema
                                     .properties
                                     .read()
                                     .await
                                     .get(&schema_accessor)
-                                    .map(|property_schema| property_schema.key_range)
-                                {
+                                    .map(|property_schema| property_schema.key_range);
+                                if let Some(key_range) = key_range {
                                     if let Ok(Some(current_schema)) = table_schema
                                         .resolve_property_schema(
                                             &schema_accessor,
-- 
2.43.0


From d7dac65fea02b9687c97afdfa2e85f82eff8bb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:01 +0000
Subject: [PATCH 23/25] fix: take the editor config locks in the order the
 default config does

---
 crates/tombi-lsp/src/config_manager.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/tombi-lsp/src/config_manager.rs b/crates/tombi-lsp/src/config_manager.rs
index d60a98f..1b1688e 100644
--- a/crates/tombi-lsp/src/config_manager.rs
+++ b/crates/tombi-lsp/src/config_manager.rs
@@ -359,6 +359,8 @@ impl ConfigManager {
 
     /// Update editor configuration
     pub async fn update_editor_config(&self, config: Config) {
+        // Same order as `default_config_schema_store()`, so that the two cannot block each other.
+        let mut default_config_schema_store = self.default_config_schema_store.write().await;
         let associated_schemas = self.associated_schemas.read().await;
         let schema_options = schema_store_options(&config, &self.backend_options);
         let schema_store = SchemaStore::new_with_options(schema_options);
@@ -371,7 +373,6 @@ impl ConfigManager {
         }
 
         let config_schema_store = ConfigSchemaStore::new(config, None, schema_store);
-        let mut default_config_schema_store = self.default_config_schema_store.write().await;
         *default_config_schema_store = Some((DefaultConfigSource::Editor, config_schema_store));
     }
 
-- 
2.43.0


From 614711e30d1ad01f93f26fe623918efd65fe5859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:07 +0000
Subject: [PATCH 24/25] fix: a multipleOf of zero in the schema of an integer
 no longer panics

---
 crates/tombi-validator/src/validate/integer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/tombi-validator/src/validate/integer.rs b/crates/tombi-validator/src/validate/integer.rs
index ca2ef31..8913e8d 100644
--- a/crates/tombi-validator/src/validate/integer.rs
+++ b/crates/tombi-validator/src/validate/integer.rs
@@ -364,6 +364,7 @@ async fn validate_integer_schema(
     }
 
     if let Some(multiple_of) = &integer_schema.multiple_of
+        && *multiple_of > 0
         && value % *multiple_of != 0
     {
         assertion_failed = true;
-- 
2.43.0


From 5c4490a0af2c670dc38be47ba02be6f0c20fa6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:08 +0000
Subject: [PATCH 25/25] fix: keep a bound with a fraction in the schema of an
 integer

---
 .../src/schema/integer_schema.rs              | 21 +++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/crates/tombi-schema-store/src/schema/integer_schema.rs b/crates/tombi-schema-store/src/schema/integer_schema.rs
index 00e0028..ec68f52 100644
--- a/crates/tombi-schema-store/src/schema/integer_schema.rs
+++ b/crates/tombi-schema-store/src/schema/integer_schema.rs
@@ -43,10 +43,10 @@ impl IntegerSchema {
             description: object
                 .get("description")
                 .and_then(|v| v.as_str().map(|s| s.to_string())),
-            minimum: object.get("minimum").and_then(|v| v.as_i64()),
-            maximum: object.get("maximum").and_then(|v| v.as_i64()),
-            exclusive_minimum: object.get("exclusiveMinimum").and_then(|v| v.as_i64()),
-            exclusive_maximum: object.get("exclusiveMaximum").and_then(|v| v.as_i64()),
+            minimum: integer_bound(object, "minimum", f64::ceil),
+            maximum: integer_bound(object, "maximum", f64::floor),
+            exclusive_minimum: integer_bound(object, "exclusiveMinimum", f64::floor),
+            exclusive_maximum: integer_bound(object, "exclusiveMaximum", f64::ceil),
             multiple_of: object.get("multipleOf").and_then(|v| v.as_i64()),
             r#enum: object
                 .get("enum")
@@ -75,3 +75,16 @@ impl IntegerSchema {
         self.deprecation.as_ref().map(|_| true)
     }
 }
+
+/// The bound of an integer. A bound with a fraction is rounded to the integer
+/// that allows the same integers.
+fn integer_bound(
+    object: &tombi_json::ObjectNode,
+    keyword: &str,
+    round: fn(f64) -> f64,
+) -> Option<i64> {
+    let value = object.get(keyword)?;
+    value
+        .as_i64()
+        .or_else(|| value.as_f64().map(|bound| round(bound) as i64))
+}
-- 
2.43.0

