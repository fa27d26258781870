From ab173cfe31a0fdaf249cf5f387103c68cb80734b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:36 +0000
Subject: [PATCH 01/46] fix: never apply overlapping suggestions in one --fix
 round

Only neighbouring suggestions were compared for overlaps and a nested finding of the
same rule aborted the fixing of the file. Choose findings whose suggestions don't overlap
with already chosen ones instead, the rest is handled in the next iteration.
---
 crates/ludtwig/src/check.rs   |  9 ++++---
 crates/ludtwig/src/process.rs | 44 ++++++++++++++++-------------------
 2 files changed, 24 insertions(+), 29 deletions(-)

diff --git a/crates/ludtwig/src/check.rs b/crates/ludtwig/src/check.rs
index 10b97de..a0d6964 100644
--- a/crates/ludtwig/src/check.rs
+++ b/crates/ludtwig/src/check.rs
@@ -174,15 +174,14 @@ pub fn run_rules(file_context: &FileContext) -> Vec<CheckResult> {
     check_results
 }
 
+/// The rule name and all the suggestions of every check result which has suggestions.
 pub fn get_rule_context_suggestions(
     check_results: &[CheckResult],
-) -> Vec<(&'static str, &CheckSuggestion)> {
+) -> Vec<(&'static str, &[CheckSuggestion])> {
     check_results
         .iter()
-        .flat_map(|res| {
-            let rule_name = res.rule_name;
-            res.suggestions.iter().map(move |sug| (rule_name, sug))
-        })
+        .filter(|res| !res.suggestions.is_empty())
+        .map(|res| (res.rule_name, res.suggestions.as_slice()))
         .collect()
 }
 
diff --git a/crates/ludtwig/src/process.rs b/crates/ludtwig/src/process.rs
index 981b35f..ab548bb 100644
--- a/crates/ludtwig/src/process.rs
+++ b/crates/ludtwig/src/process.rs
@@ -1,4 +1,3 @@
-use std::collections::HashSet;
 use std::fs;
 use std::path::PathBuf;
 
@@ -124,39 +123,36 @@ pub fn iteratively_apply_suggestions(
 
     // try at maximum 10 parsing iterations
     for iterations in 0_usize..10 {
-        let mut suggestions = get_rule_context_suggestions(&check_results);
-        if suggestions.is_empty() {
+        let grouped_suggestions = get_rule_context_suggestions(&check_results);
+        if grouped_suggestions.is_empty() {
             return Ok((file_context, check_results, dirty, iterations));
         }
 
-        // sort by syntax range
-        suggestions
-            .sort_by(|(_, sug_a), (_, sug_b)| sug_a.syntax_range.ordering(sug_b.syntax_range));
-
-        // filter out overlapping suggestions
-        let mut overlapping_rules = HashSet::new();
-        for ((rule_a, sug_a), (rule_b, sug_b)) in suggestions.iter().zip(suggestions.iter().skip(1))
-        {
-            if sug_a.syntax_range.ordering(sug_b.syntax_range).is_eq() {
-                if rule_a == rule_b {
+        // filter out overlapping suggestions: the suggestions of a single check result belong together,
+        // they are either all applied or remain for the next iteration
+        let overlaps = |a: &CheckSuggestion, b: &CheckSuggestion| {
+            a.syntax_range.ordering(b.syntax_range).is_eq()
+        };
+        let mut suggestions: Vec<&CheckSuggestion> = vec![];
+        for (rule_name, group) in grouped_suggestions {
+            for (i, sug_a) in group.iter().enumerate() {
+                if group[i + 1..].iter().any(|sug_b| overlaps(sug_a, sug_b)) {
                     return Err(FileProcessingError::OverlappingSuggestionInSingleRule {
-                        rule_name: (*rule_a).to_string(),
+                        rule_name: rule_name.to_string(),
                     });
                 }
+            }
 
-                overlapping_rules.insert(*rule_b);
+            if !group
+                .iter()
+                .any(|a| suggestions.iter().any(|b| overlaps(a, b)))
+            {
+                suggestions.extend(group);
             }
         }
-        let suggestions = suggestions
-            .into_iter()
-            .filter_map(|(rule, suggestion)| {
-                if overlapping_rules.contains(&rule) {
-                    return None;
-                }
 
-                Some(suggestion)
-            })
-            .collect();
+        // sort by syntax range
+        suggestions.sort_by_key(|sug| (sug.syntax_range.start(), sug.syntax_range.end()));
 
         // transform source code according to non overlapping suggestions
         dirty = true;
-- 
2.43.0


From b85d86617ba27dc1d90434e9fbf108563fea9d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:09 +0000
Subject: [PATCH 02/46] fix: line-ending rule accepts correct CRLF line endings

With windows_CRLF every line break was reported (even correct ones) and consecutive LF
line breaks were merged, so --fix never finished.
---
 crates/ludtwig/src/check/rules/line_ending.rs | 20 +++++++------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/crates/ludtwig/src/check/rules/line_ending.rs b/crates/ludtwig/src/check/rules/line_ending.rs
index ad1ef0c..53c2a89 100644
--- a/crates/ludtwig/src/check/rules/line_ending.rs
+++ b/crates/ludtwig/src/check/rules/line_ending.rs
@@ -4,7 +4,6 @@ use std::sync::OnceLock;
 use ludtwig_parser::syntax::untyped::{SyntaxKind, SyntaxToken, TextRange, TextSize};
 
 use crate::check::rule::{CheckResult, Rule, RuleExt, RuleRunContext, Severity};
-use crate::config::LineEnding;
 
 pub struct RuleLineEnding;
 
@@ -14,7 +13,7 @@ impl Rule for RuleLineEnding {
     }
 
     fn check_token(&self, token: SyntaxToken, ctx: &RuleRunContext) -> Option<Vec<CheckResult>> {
-        static INVALID_REGEX: OnceLock<Regex> = OnceLock::new();
+        static LINE_ENDING_REGEX: OnceLock<Regex> = OnceLock::new();
 
         if token.kind() != SyntaxKind::TK_LINE_BREAK {
             return None;
@@ -25,19 +24,14 @@ impl Rule for RuleLineEnding {
 
         // compile regex only once and store it in a static
         // because this function is called in a hot loop this does improve it's performance significantly
-        let invalid_regex = INVALID_REGEX.get_or_init(|| {
-            Regex::new(&format!(
-                r"({})",
-                match ctx.config().format.line_ending {
-                    LineEnding::UnixLF => "\r\n", // inverse: look for windows line endings
-                    LineEnding::WindowsCRLF => "[^\r]?\n", // inverse: look for unix line endings
-                }
-            ))
-            .unwrap()
-        });
+        let line_ending_regex =
+            LINE_ENDING_REGEX.get_or_init(|| Regex::new(r"\r\n|\n").unwrap());
 
         let mut results = vec![];
-        for invalid in invalid_regex.find_iter(token.text()) {
+        for invalid in line_ending_regex
+            .find_iter(token.text())
+            .filter(|line_ending| line_ending.as_str() != correct_line_ending)
+        {
             #[allow(clippy::cast_possible_truncation)]
             let range = TextRange::new(
                 token.text_range().start() + TextSize::from(invalid.start() as u32),
-- 
2.43.0


From 1ad687569c724c2cf8dc33911fc4dacffa4cb220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:43 +0000
Subject: [PATCH 03/46] fix: keep whitespace on empty lines inside of trivia
 sensitive nodes

---
 .../src/check/rules/whitespace_between_line_breaks.rs       | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/ludtwig/src/check/rules/whitespace_between_line_breaks.rs b/crates/ludtwig/src/check/rules/whitespace_between_line_breaks.rs
index e35d248..789c4b0 100644
--- a/crates/ludtwig/src/check/rules/whitespace_between_line_breaks.rs
+++ b/crates/ludtwig/src/check/rules/whitespace_between_line_breaks.rs
@@ -9,7 +9,11 @@ impl Rule for RuleWhitespaceBetweenLineBreaks {
         "whitespace-between-line-breaks"
     }
 
-    fn check_token(&self, token: SyntaxToken, _ctx: &RuleRunContext) -> Option<Vec<CheckResult>> {
+    fn check_token(&self, token: SyntaxToken, ctx: &RuleRunContext) -> Option<Vec<CheckResult>> {
+        if ctx.traversal_ctx().inside_trivia_sensitive_node {
+            return None; // no trivia modification allowed here
+        }
+
         // rule only inspects line breaks
         if token.kind() != SyntaxKind::TK_LINE_BREAK {
             return None;
-- 
2.43.0


From d47cbd8ad7288792485d7f1c799a23ae1cf17839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:26 +0000
Subject: [PATCH 04/46] fix: nested trivia sensitive nodes don't end the outer
 one

Leaving a string or a tag like <pre> inside of a trivia sensitive tag allowed modifications of
the whitespace in the rest of the outer tag.
---
 crates/ludtwig/src/check.rs                   | 38 +++++++++----------
 crates/ludtwig/src/check/rules/indentation.rs | 28 +++++++-------
 2 files changed, 33 insertions(+), 33 deletions(-)

diff --git a/crates/ludtwig/src/check.rs b/crates/ludtwig/src/check.rs
index a0d6964..ac108a5 100644
--- a/crates/ludtwig/src/check.rs
+++ b/crates/ludtwig/src/check.rs
@@ -9,7 +9,7 @@ use ludtwig_parser::syntax::typed;
 use ludtwig_parser::syntax::typed::{
     AstNode, HtmlStringInner, HtmlTag, LudtwigDirectiveIgnore, TwigLiteralStringInner,
 };
-use ludtwig_parser::syntax::untyped::{SyntaxElement, SyntaxToken, WalkEvent, debug_tree};
+use ludtwig_parser::syntax::untyped::{SyntaxElement, SyntaxNode, SyntaxToken, WalkEvent, debug_tree};
 
 use crate::ProcessingEvent;
 use crate::check::rule::{
@@ -91,16 +91,8 @@ pub fn run_rules(file_context: &FileContext) -> Vec<CheckResult> {
                         }
 
                         // adjust traversal context when entering special nodes
-                        if HtmlStringInner::can_cast(n.kind())
-                            || TwigLiteralStringInner::can_cast(n.kind())
-                        {
+                        if is_trivia_sensitive(&n) {
                             run_context.traversal_ctx.inside_trivia_sensitive_node = true;
-                        } else if let Some(t) = HtmlTag::cast(n.clone()) {
-                            if let Some("pre" | "textarea" | "script" | "style") =
-                                t.name().as_ref().map(SyntaxToken::text)
-                            {
-                                run_context.traversal_ctx.inside_trivia_sensitive_node = true;
-                            }
                         }
 
                         // run node checks for every rule
@@ -155,16 +147,10 @@ pub fn run_rules(file_context: &FileContext) -> Vec<CheckResult> {
 
                 // adjust traversal context when exiting special nodes
                 if let SyntaxElement::Node(n) = element {
-                    if HtmlStringInner::can_cast(n.kind())
-                        || TwigLiteralStringInner::can_cast(n.kind())
-                    {
-                        run_context.traversal_ctx.inside_trivia_sensitive_node = false;
-                    } else if let Some(t) = HtmlTag::cast(n) {
-                        if let Some("pre" | "textarea" | "script" | "style") =
-                            t.name().as_ref().map(SyntaxToken::text)
-                        {
-                            run_context.traversal_ctx.inside_trivia_sensitive_node = false;
-                        }
+                    if is_trivia_sensitive(&n) {
+                        // could still be nested inside of another trivia sensitive node
+                        run_context.traversal_ctx.inside_trivia_sensitive_node =
+                            n.ancestors().skip(1).any(|a| is_trivia_sensitive(&a));
                     }
                 }
             }
@@ -174,6 +160,18 @@ pub fn run_rules(file_context: &FileContext) -> Vec<CheckResult> {
     check_results
 }
 
+/// Is the whitespace inside of this node part of its content?
+fn is_trivia_sensitive(n: &SyntaxNode) -> bool {
+    HtmlStringInner::can_cast(n.kind())
+        || TwigLiteralStringInner::can_cast(n.kind())
+        || HtmlTag::cast(n.clone()).is_some_and(|t| {
+            matches!(
+                t.name().as_ref().map(SyntaxToken::text),
+                Some("pre" | "textarea" | "script" | "style")
+            )
+        })
+}
+
 /// The rule name and all the suggestions of every check result which has suggestions.
 pub fn get_rule_context_suggestions(
     check_results: &[CheckResult],
diff --git a/crates/ludtwig/src/check/rules/indentation.rs b/crates/ludtwig/src/check/rules/indentation.rs
index b8466f6..0ad569b 100644
--- a/crates/ludtwig/src/check/rules/indentation.rs
+++ b/crates/ludtwig/src/check/rules/indentation.rs
@@ -247,22 +247,24 @@ impl RuleIndentation {
         n: &SyntaxNode,
         walk_mode: WalkMode,
     ) {
-        if let Some(t) = HtmlTag::cast(n.clone()) {
-            if let Some("pre" | "textarea" | "script" | "style") =
-                t.name().as_ref().map(SyntaxToken::text)
-            {
-                match walk_mode {
-                    WalkMode::Enter => {
-                        *inside_trivia_sensitive_node = true;
-                    }
-                    WalkMode::Leave => {
-                        *inside_trivia_sensitive_node = false;
-                    }
-                }
-            }
+        if Self::is_trivia_sensitive(n) {
+            *inside_trivia_sensitive_node = match walk_mode {
+                WalkMode::Enter => true,
+                // could still be nested inside of another trivia sensitive node
+                WalkMode::Leave => n.ancestors().skip(1).any(|a| Self::is_trivia_sensitive(&a)),
+            };
         }
     }
 
+    fn is_trivia_sensitive(n: &SyntaxNode) -> bool {
+        HtmlTag::cast(n.clone()).is_some_and(|t| {
+            matches!(
+                t.name().as_ref().map(SyntaxToken::text),
+                Some("pre" | "textarea" | "script" | "style")
+            )
+        })
+    }
+
     fn check_indentation_level(
         indentation_level: &mut usize,
         indent_block_children: bool,
-- 
2.43.0


From 1ab19a30b8f2a1585967eee754f99149c4abf88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:58 +0000
Subject: [PATCH 05/46] fix: indentation rule doesn't change the text of twig
 strings

---
 crates/ludtwig/src/check.rs                   |  4 +++-
 crates/ludtwig/src/check/rules/indentation.rs | 19 +++++++++++++------
 crates/ludtwig/src/check/rules/line_ending.rs |  3 +--
 3 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/crates/ludtwig/src/check.rs b/crates/ludtwig/src/check.rs
index ac108a5..e40e8a0 100644
--- a/crates/ludtwig/src/check.rs
+++ b/crates/ludtwig/src/check.rs
@@ -9,7 +9,9 @@ use ludtwig_parser::syntax::typed;
 use ludtwig_parser::syntax::typed::{
     AstNode, HtmlStringInner, HtmlTag, LudtwigDirectiveIgnore, TwigLiteralStringInner,
 };
-use ludtwig_parser::syntax::untyped::{SyntaxElement, SyntaxNode, SyntaxToken, WalkEvent, debug_tree};
+use ludtwig_parser::syntax::untyped::{
+    SyntaxElement, SyntaxNode, SyntaxToken, WalkEvent, debug_tree,
+};
 
 use crate::ProcessingEvent;
 use crate::check::rule::{
diff --git a/crates/ludtwig/src/check/rules/indentation.rs b/crates/ludtwig/src/check/rules/indentation.rs
index 0ad569b..3354da6 100644
--- a/crates/ludtwig/src/check/rules/indentation.rs
+++ b/crates/ludtwig/src/check/rules/indentation.rs
@@ -81,6 +81,11 @@ impl Rule for RuleIndentation {
                     if let SyntaxElement::Node(n) = element {
                         self.check_for_rule_ignore_leave(&mut is_ignored, &n);
 
+                        if n.kind() == SyntaxKind::TWIG_LITERAL_STRING_INNER {
+                            // whitespace before the closing quote would be part of the string
+                            line_break_encountered = false;
+                        }
+
                         Self::check_for_trivia_sensitivity(
                             &mut inside_trivia_sensitive_node,
                             &n,
@@ -257,12 +262,14 @@ impl RuleIndentation {
     }
 
     fn is_trivia_sensitive(n: &SyntaxNode) -> bool {
-        HtmlTag::cast(n.clone()).is_some_and(|t| {
-            matches!(
-                t.name().as_ref().map(SyntaxToken::text),
-                Some("pre" | "textarea" | "script" | "style")
-            )
-        })
+        // the text of a twig string must not be changed
+        n.kind() == SyntaxKind::TWIG_LITERAL_STRING_INNER
+            || HtmlTag::cast(n.clone()).is_some_and(|t| {
+                matches!(
+                    t.name().as_ref().map(SyntaxToken::text),
+                    Some("pre" | "textarea" | "script" | "style")
+                )
+            })
     }
 
     fn check_indentation_level(
diff --git a/crates/ludtwig/src/check/rules/line_ending.rs b/crates/ludtwig/src/check/rules/line_ending.rs
index 53c2a89..f4698fc 100644
--- a/crates/ludtwig/src/check/rules/line_ending.rs
+++ b/crates/ludtwig/src/check/rules/line_ending.rs
@@ -24,8 +24,7 @@ impl Rule for RuleLineEnding {
 
         // compile regex only once and store it in a static
         // because this function is called in a hot loop this does improve it's performance significantly
-        let line_ending_regex =
-            LINE_ENDING_REGEX.get_or_init(|| Regex::new(r"\r\n|\n").unwrap());
+        let line_ending_regex = LINE_ENDING_REGEX.get_or_init(|| Regex::new(r"\r\n|\n").unwrap());
 
         let mut results = vec![];
         for invalid in line_ending_regex
-- 
2.43.0


From d1e435fb170cdd30b507eefb19629e0187277e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:23 +0000
Subject: [PATCH 06/46] verif: execution trace behind --cfg ludtwig_verif

---
 crates/ludtwig/src/check.rs             |   5 +
 crates/ludtwig/src/check/verif_trace.rs | 221 ++++++++++++++++++++++++
 crates/ludtwig/src/main.rs              |   4 +
 crates/ludtwig/src/output.rs            |  11 ++
 crates/ludtwig/src/process.rs           |  11 ++
 5 files changed, 252 insertions(+)
 create mode 100644 crates/ludtwig/src/check/verif_trace.rs

diff --git a/crates/ludtwig/src/check.rs b/crates/ludtwig/src/check.rs
index e40e8a0..afc2e4b 100644
--- a/crates/ludtwig/src/check.rs
+++ b/crates/ludtwig/src/check.rs
@@ -22,6 +22,8 @@ use crate::process::FileContext;
 pub mod naming_convention;
 pub mod rule;
 pub mod rules;
+#[cfg(ludtwig_verif)]
+pub mod verif_trace;
 
 #[allow(clippy::too_many_lines)]
 pub fn run_rules(file_context: &FileContext) -> Vec<CheckResult> {
@@ -190,6 +192,9 @@ pub fn produce_diagnostics(
     rule_results: Vec<CheckResult>,
     buffer: &mut Buffer,
 ) {
+    #[cfg(ludtwig_verif)]
+    verif_trace::reported(file_context, &rule_results);
+
     // diagnostic output setup
     let mut files = SimpleFiles::new();
     let file_id = files.add(
diff --git a/crates/ludtwig/src/check/verif_trace.rs b/crates/ludtwig/src/check/verif_trace.rs
new file mode 100644
index 0000000..795827a
--- /dev/null
+++ b/crates/ludtwig/src/check/verif_trace.rs
@@ -0,0 +1,221 @@
+//! Execution trace for the verification framework.
+//!
+//! Only compiled with `--cfg ludtwig_verif` and only active when the environment variable
+//! `VERIF_LUDTWIG_TRACE` names a file: one JSON object per line is appended for every observable step
+//! (numbered under a lock).
+
+use std::fmt::Write as _;
+use std::fs::File;
+use std::io::Write as _;
+use std::path::Path;
+use std::sync::{Mutex, OnceLock};
+
+use ludtwig_parser::syntax::untyped::{SyntaxElement, SyntaxNode, TextRange, WalkEvent};
+
+use crate::check::rule::{CheckResult, CheckSuggestion, Severity};
+use crate::config::Config;
+use crate::output::ProcessingEvent;
+use crate::process::FileContext;
+
+struct Trace {
+    file: File,
+    seq: usize,
+}
+
+fn trace() -> Option<&'static Mutex<Trace>> {
+    static TRACE: OnceLock<Option<Mutex<Trace>>> = OnceLock::new();
+    TRACE
+        .get_or_init(|| {
+            let path = std::env::var_os("VERIF_LUDTWIG_TRACE")?;
+            let file = File::create(path).ok()?;
+            Some(Mutex::new(Trace { file, seq: 0 }))
+        })
+        .as_ref()
+}
+
+fn emit(event: &str, fields: impl FnOnce() -> String) {
+    let Some(trace) = trace() else { return };
+    let fields = fields();
+    let mut trace = trace.lock().unwrap();
+    trace.seq += 1;
+    let line = format!("{{\"seq\":{},\"ev\":\"{event}\"{fields}}}\n", trace.seq);
+    trace.file.write_all(line.as_bytes()).unwrap();
+}
+
+fn string(s: &str) -> String {
+    let mut out = String::with_capacity(s.len() + 2);
+    out.push('"');
+    for c in s.chars() {
+        match c {
+            '"' => out.push_str("\\\""),
+            '\\' => out.push_str("\\\\"),
+            '\n' => out.push_str("\\n"),
+            c if (c as u32) < 0x20 => write!(out, "\\u{:04x}", c as u32).unwrap(),
+            c => out.push(c),
+        }
+    }
+    out.push('"');
+    out
+}
+
+fn list<T>(items: impl IntoIterator<Item = T>, f: impl Fn(T) -> String) -> String {
+    let items: Vec<String> = items.into_iter().map(f).collect();
+    format!("[{}]", items.join(","))
+}
+
+fn range(r: TextRange) -> String {
+    format!("[{},{}]", u32::from(r.start()), u32::from(r.end()))
+}
+
+fn suggestion(s: &CheckSuggestion) -> String {
+    format!(
+        "[{},{},{}]",
+        u32::from(s.syntax_range.start()),
+        u32::from(s.syntax_range.end()),
+        string(&s.replace_with)
+    )
+}
+
+fn severity(s: Severity) -> &'static str {
+    match s {
+        Severity::Error => "error",
+        Severity::Warning => "warning",
+        Severity::Help => "help",
+        Severity::Info => "info",
+    }
+}
+
+fn results(results: &[CheckResult]) -> String {
+    list(results, |r| {
+        format!(
+            "{{\"rule\":{},\"sev\":\"{}\",\"prim\":{},\"sec\":{},\"sug\":{}}}",
+            string(r.rule_name),
+            severity(r.severity),
+            list(&r.primary, |n| range(n.syntax_range)),
+            list(&r.secondary, |n| range(n.syntax_range)),
+            list(&r.suggestions, suggestion)
+        )
+    })
+}
+
+/// preorder list of `[kind, index of the parent (1-based), start, text or null]`
+fn tree(root: &SyntaxNode) -> String {
+    let mut stack: Vec<usize> = vec![];
+    let mut count = 0;
+    let mut out = vec![];
+    for event in root.preorder_with_tokens() {
+        match event {
+            WalkEvent::Enter(element) => {
+                count += 1;
+                out.push(format!(
+                    "[\"{:?}\",{},{},{}]",
+                    element.kind(),
+                    stack.last().copied().unwrap_or(0),
+                    u32::from(element.text_range().start()),
+                    match &element {
+                        SyntaxElement::Node(_) => "null".to_string(),
+                        SyntaxElement::Token(t) => string(t.text()),
+                    }
+                ));
+                stack.push(count);
+            }
+            WalkEvent::Leave(_) => {
+                stack.pop();
+            }
+        }
+    }
+    format!("[{}]", out.join(","))
+}
+
+fn path(p: &Path) -> String {
+    format!(",\"path\":{}", string(&p.to_string_lossy()))
+}
+
+/// the whole program run starts
+pub fn run(fix: bool, inspect: bool, config: &Config) {
+    emit("run", || {
+        let strings = |l: &[String]| list(l, |s| string(s));
+        let f = &config.format;
+        format!(
+            ",\"fix\":{fix},\"inspect\":{inspect},\"config\":{{\"version\":{},\"activeRules\":{},\
+            \"lineEnding\":{},\"indentationMode\":{},\"indentationCount\":{},\
+            \"indentChildrenOfBlocks\":{},\"linebreaksAroundBlocks\":{},\"twigQuotation\":{},\
+            \"htmlQuotation\":{},\"validFilters\":{},\"validTests\":{},\"validFunctions\":{}}}",
+            string(&config.version),
+            strings(&config.general.active_rules),
+            string(f.line_ending.corresponding_string()),
+            string(&f.indentation_mode.corresponding_char().to_string()),
+            f.indentation_count,
+            f.indent_children_of_blocks,
+            f.linebreaks_around_blocks,
+            string(&f.twig_quotation.corresponding_char().to_string()),
+            string(&f.html_quotation.corresponding_char().to_string()),
+            strings(&config.twig.valid_filters),
+            strings(&config.twig.valid_tests),
+            strings(&config.twig.valid_functions),
+        )
+    });
+}
+
+/// a step of one file without further details
+pub fn file_step(event: &str, file: &Path) {
+    emit(event, || path(file));
+}
+
+/// the content of the file context was parsed and all the rules were run on it
+pub fn checked(ctx: &FileContext, check_results: &[CheckResult]) {
+    emit("checked", || {
+        format!(
+            "{},\"source\":{},\"tree\":{},\"errors\":{},\"rules\":{},\"results\":{}",
+            path(&ctx.file_path),
+            string(&ctx.source_code),
+            tree(&ctx.tree_root),
+            list(&ctx.parse_errors, |e| range(e.range)),
+            list(&ctx.file_rule_definitions, |r| string(r.name())),
+            results(check_results)
+        )
+    });
+}
+
+/// these suggestions are about to be applied to the current content
+pub fn chosen(ctx: &FileContext, suggestions: &[&CheckSuggestion]) {
+    emit("chosen", || {
+        format!(
+            "{},\"chosen\":{}",
+            path(&ctx.file_path),
+            list(suggestions, |s| suggestion(s))
+        )
+    });
+}
+
+/// these parser errors and results are reported to the user for that content
+pub fn reported(ctx: &FileContext, check_results: &[CheckResult]) {
+    emit("reported", || {
+        format!(
+            "{},\"source\":{},\"errors\":{},\"results\":{}",
+            path(&ctx.file_path),
+            string(&ctx.source_code),
+            list(&ctx.parse_errors, |e| range(e.range)),
+            results(check_results)
+        )
+    });
+}
+
+/// the output thread received an event
+pub fn received(event: &ProcessingEvent) {
+    emit("received", || {
+        let what = match event {
+            ProcessingEvent::FileProcessed => "file",
+            ProcessingEvent::Report(s) => severity(*s),
+            ProcessingEvent::OutputStderrMessage(_) => "message",
+        };
+        format!(",\"what\":\"{what}\"")
+    });
+}
+
+/// the output thread is done with these counts
+pub fn finished(files: i32, errors: i32, warnings: i32, helps: i32, infos: i32) {
+    emit("finished", || {
+        format!(",\"counts\":[{files},{errors},{warnings},{helps},{infos}]")
+    });
+}
diff --git a/crates/ludtwig/src/main.rs b/crates/ludtwig/src/main.rs
index ee4d269..0818b8d 100644
--- a/crates/ludtwig/src/main.rs
+++ b/crates/ludtwig/src/main.rs
@@ -3,6 +3,7 @@
 #![allow(clippy::doc_markdown)]
 #![allow(clippy::elidable_lifetime_names)]
 #![allow(clippy::needless_continue)]
+#![allow(unexpected_cfgs)] // ludtwig_verif: see check/verif_trace.rs
 
 #[global_allocator]
 static GLOBAL: mimalloc::MiMalloc = mimalloc::MiMalloc;
@@ -109,6 +110,9 @@ fn app(opts: Opts, config: Config) -> i32 {
     // sender and receiver channels for the communication between tasks and the user.
     let (tx, rx) = mpsc::channel();
 
+    #[cfg(ludtwig_verif)]
+    check::verif_trace::run(opts.fix, opts.inspect, &config);
+
     // construct active rules
     let active_rules = match get_config_active_rule_definitions(&config) {
         Ok(rules) => rules,
diff --git a/crates/ludtwig/src/output.rs b/crates/ludtwig/src/output.rs
index e8a28d4..3f4eb92 100644
--- a/crates/ludtwig/src/output.rs
+++ b/crates/ludtwig/src/output.rs
@@ -24,6 +24,8 @@ pub fn handle_processing_output(rx: &Receiver<ProcessingEvent>) -> i32 {
 
     // receive all incoming messages until all sending ends are closed.
     while let Ok(msg) = rx.recv() {
+        #[cfg(ludtwig_verif)]
+        crate::check::verif_trace::received(&msg);
         match msg {
             ProcessingEvent::FileProcessed => {
                 file_count += 1;
@@ -50,6 +52,15 @@ pub fn handle_processing_output(rx: &Receiver<ProcessingEvent>) -> i32 {
 
     drop(stderr_writer); // finish writing to stderr
 
+    #[cfg(ludtwig_verif)]
+    crate::check::verif_trace::finished(
+        file_count,
+        error_count,
+        warning_count,
+        help_count,
+        info_count,
+    );
+
     let conclusion_msg = format!(
         "\nFiles scanned: {}, Errors: {}, Warnings: {}, Helps: {}, Info: {}, Total: {}\n",
         file_count,
diff --git a/crates/ludtwig/src/process.rs b/crates/ludtwig/src/process.rs
index ab548bb..209cba2 100644
--- a/crates/ludtwig/src/process.rs
+++ b/crates/ludtwig/src/process.rs
@@ -41,6 +41,9 @@ impl FileContext {
 
 /// Process a single file with its filepath.
 pub fn process_file(path: PathBuf, cli_context: CliContext) -> Result<(), FileProcessingError> {
+    #[cfg(ludtwig_verif)]
+    crate::check::verif_trace::file_step("file", &path);
+
     // notify the output about this file (to increase the processed file counter)
     cli_context.send_processing_output(ProcessingEvent::FileProcessed);
 
@@ -77,12 +80,16 @@ fn run_analysis(
 
     // run all the rules
     let rule_result_context = run_rules(&file_context);
+    #[cfg(ludtwig_verif)]
+    crate::check::verif_trace::checked(&file_context, &rule_result_context);
 
     // apply suggestions if needed
     let (file_context, rule_result_context) = if apply_suggestions {
         let (file_context, rule_result_context, dirty, iterations) =
             iteratively_apply_suggestions(file_context, rule_result_context)?;
         if dirty {
+            #[cfg(ludtwig_verif)]
+            crate::check::verif_trace::file_step("write", &file_context.file_path);
             match fs::write(&file_context.file_path, &file_context.source_code) {
                 Ok(()) => {}
                 Err(e) => {
@@ -156,6 +163,8 @@ pub fn iteratively_apply_suggestions(
 
         // transform source code according to non overlapping suggestions
         dirty = true;
+        #[cfg(ludtwig_verif)]
+        crate::check::verif_trace::chosen(&file_context, &suggestions);
         let source_code = apply_suggestions_to_text(suggestions, file_context.source_code);
 
         // Parse the new source code again
@@ -171,6 +180,8 @@ pub fn iteratively_apply_suggestions(
 
         // Run all rules again
         check_results = run_rules(&file_context);
+        #[cfg(ludtwig_verif)]
+        crate::check::verif_trace::checked(&file_context, &check_results);
     }
 
     // suggestions still remain after max iterations
-- 
2.43.0


From 8540885b65fdd17ea8198ce5f9910b1e8c7fb430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:30 +0000
Subject: [PATCH 07/46] fix: not in and is not are operators in front of a CRLF
 line break or a bracket

---
 crates/ludtwig-parser/src/syntax/untyped.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/ludtwig-parser/src/syntax/untyped.rs b/crates/ludtwig-parser/src/syntax/untyped.rs
index 3c87813..9316978 100644
--- a/crates/ludtwig-parser/src/syntax/untyped.rs
+++ b/crates/ludtwig-parser/src/syntax/untyped.rs
@@ -556,7 +556,7 @@ fn cb_not(lexer: &mut Lexer<'_, SyntaxKind>) -> SyntaxKind {
     const SUFFIX: &str = " in";
     if lexer.remainder().starts_with(SUFFIX) {
         let after = lexer.remainder().get(SUFFIX.len()..);
-        if after.is_none_or(|s| s.starts_with([' ', '\t', '\n']) || s.is_empty()) {
+        if after.is_none_or(ends_at_word_boundary) {
             lexer.bump(SUFFIX.len());
             SyntaxKind::TK_NOT_IN
         } else {
@@ -572,7 +572,7 @@ fn cb_is(lexer: &mut Lexer<'_, SyntaxKind>) -> SyntaxKind {
     const SUFFIX: &str = " not";
     if lexer.remainder().starts_with(SUFFIX) {
         let after = lexer.remainder().get(SUFFIX.len()..);
-        if after.is_none_or(|s| s.starts_with([' ', '\t', '\n']) || s.is_empty()) {
+        if after.is_none_or(ends_at_word_boundary) {
             lexer.bump(SUFFIX.len());
             SyntaxKind::TK_IS_NOT
         } else {
@@ -583,6 +583,11 @@ fn cb_is(lexer: &mut Lexer<'_, SyntaxKind>) -> SyntaxKind {
     }
 }
 
+/// `true` if the already consumed word can't go on with the given remaining source text
+fn ends_at_word_boundary(rest: &str) -> bool {
+    !rest.starts_with(|c: char| c.is_ascii_alphanumeric() || c == '_' || c == '-')
+}
+
 #[macro_export]
 macro_rules! T {
     [ws] => { $crate::syntax::untyped::SyntaxKind::TK_WHITESPACE };
-- 
2.43.0


From e882fe0a5375ec392107849b67483635f97fc9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:59 +0000
Subject: [PATCH 08/46] fix: the argument of same as and divisible by without
 parentheses ends before looser operators

---
 crates/ludtwig-parser/src/grammar/twig/expression.rs | 9 +++++++++
 crates/ludtwig-parser/src/grammar/twig/literal.rs    | 9 ++++++---
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/crates/ludtwig-parser/src/grammar/twig/expression.rs b/crates/ludtwig-parser/src/grammar/twig/expression.rs
index 9a7caf4..7800a98 100644
--- a/crates/ludtwig-parser/src/grammar/twig/expression.rs
+++ b/crates/ludtwig-parser/src/grammar/twig/expression.rs
@@ -74,6 +74,15 @@ pub(super) fn parse_twig_expression(parser: &mut Parser) -> Option<CompletedMark
     parse_twig_expression_binding_power(parser, 0)
 }
 
+/// parses the argument of a twig test which is written without parentheses
+/// (binds like the right-hand side of `is` / `is not`)
+pub(super) fn parse_twig_test_argument(parser: &mut Parser) -> Option<CompletedMarker> {
+    let (_, right_binding_power) = T!["is"]
+        .binary_binding_power()
+        .expect("'is' should have a binding power");
+    parse_twig_expression_binding_power(parser, right_binding_power)
+}
+
 trait Operator {
     /// left and right binding power used for the Pratt parsing algorithm
     /// None means it is not a suitable binary operator (has two operands)
diff --git a/crates/ludtwig-parser/src/grammar/twig/literal.rs b/crates/ludtwig-parser/src/grammar/twig/literal.rs
index f5f0d88..10e8201 100644
--- a/crates/ludtwig-parser/src/grammar/twig/literal.rs
+++ b/crates/ludtwig-parser/src/grammar/twig/literal.rs
@@ -1,6 +1,8 @@
 use crate::T;
 use crate::grammar::parse_many;
-use crate::grammar::twig::expression::{TWIG_EXPRESSION_RECOVERY_SET, parse_twig_expression};
+use crate::grammar::twig::expression::{
+    TWIG_EXPRESSION_RECOVERY_SET, parse_twig_expression, parse_twig_test_argument,
+};
 use crate::parser::event::CompletedMarker;
 use crate::parser::{ParseErrorBuilder, Parser};
 use crate::syntax::untyped::SyntaxKind;
@@ -424,9 +426,10 @@ fn parse_twig_test_implicit_argument(
     let operand = parser.complete(m, SyntaxKind::TWIG_OPERAND);
     let outer = parser.precede(operand);
 
-    // parse the single argument expression without parentheses
+    // parse the single argument expression without parentheses,
+    // it ends before any operator that doesn't bind tighter than the test itself
     let arguments_m = parser.start();
-    if parse_twig_expression(parser).is_none() {
+    if parse_twig_test_argument(parser).is_none() {
         parser.add_error(ParseErrorBuilder::new("argument for twig test"));
         parser.recover(TWIG_EXPRESSION_RECOVERY_SET);
     }
-- 
2.43.0


From 11247f8e8e07c8ef875e819774a023fa7a4c32bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:03 +0000
Subject: [PATCH 09/46] fix: null, true and false in parentheses are literals
 and not names

---
 crates/ludtwig-parser/src/grammar/twig/expression.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/ludtwig-parser/src/grammar/twig/expression.rs b/crates/ludtwig-parser/src/grammar/twig/expression.rs
index 7800a98..c88f569 100644
--- a/crates/ludtwig-parser/src/grammar/twig/expression.rs
+++ b/crates/ludtwig-parser/src/grammar/twig/expression.rs
@@ -273,10 +273,11 @@ fn parse_paren_expression(parser: &mut Parser) -> (Marker, bool) {
     parser.bump();
 
     // first check for non existent unary expression token to be a arrow function
-    if parser
-        .peek_token()
-        .is_some_and(|t| t.kind.unary_binding_power().is_none())
-    {
+    // (neither are literals which are spelled like a name)
+    if parser.peek_token().is_some_and(|t| {
+        t.kind.unary_binding_power().is_none()
+            && !matches!(t.kind, T!["null"] | T!["true"] | T!["false"])
+    }) {
         // check for a simple name literal
         if let Some(mut lit_m) = parse_twig_name(parser) {
             if parser.at(T![","]) || parser.at_following(&[T![")"], T!["=>"]]) {
-- 
2.43.0


From c305c20dddda8caa337bb7c61f4039a98ae5081e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:08 +0000
Subject: [PATCH 10/46] fix: endcomponent ends the html elements and attribute
 values inside of it like every other end tag

---
 crates/ludtwig-parser/src/grammar/twig/tags.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/ludtwig-parser/src/grammar/twig/tags.rs b/crates/ludtwig-parser/src/grammar/twig/tags.rs
index 3dfbfca..2534a4d 100644
--- a/crates/ludtwig-parser/src/grammar/twig/tags.rs
+++ b/crates/ludtwig-parser/src/grammar/twig/tags.rs
@@ -36,6 +36,7 @@ pub(crate) fn at_twig_termination_tag(p: &mut Parser) -> bool {
         T!["endmacro"],
         T!["endwith"],
         T!["endcache"],
+        T!["endcomponent"],
         T!["endsw_silent_feature_call"],
         T!["endtrans"],
     ];
-- 
2.43.0


From 1b54d517d9fe20dca699eb2d80a24bf11b998d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:39 +0000
Subject: [PATCH 11/46] fix: names of named arguments may be spelled like a
 keyword

---
 crates/ludtwig-parser/src/grammar/twig/literal.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/ludtwig-parser/src/grammar/twig/literal.rs b/crates/ludtwig-parser/src/grammar/twig/literal.rs
index 10e8201..7c32ac0 100644
--- a/crates/ludtwig-parser/src/grammar/twig/literal.rs
+++ b/crates/ludtwig-parser/src/grammar/twig/literal.rs
@@ -464,9 +464,14 @@ pub(crate) fn parse_twig_arrow_function(
 pub(crate) fn parse_twig_function_argument(parser: &mut Parser) -> Option<CompletedMarker> {
     // must be specific here with word followed by equal, because otherwise it could
     // be a normal variable or another function call or something else..
-    if parser.at_following(&[T![word], T!["="]]) {
+    // The name itself is allowed to be spelled like a keyword.
+    let name_kind = parser
+        .peek_token()
+        .filter(|t| t.kind == T![word] || TWIG_NAME_REGEX.is_match(t.text))
+        .map(|t| t.kind);
+    if name_kind.is_some_and(|kind| parser.at_following(&[kind, T!["="]])) {
         let named_arg_m = parser.start();
-        parser.bump();
+        parser.bump_as(T![word]);
         parser.expect(T!["="], TWIG_EXPRESSION_RECOVERY_SET);
         parse_twig_expression(parser);
         Some(parser.complete(named_arg_m, SyntaxKind::TWIG_NAMED_ARGUMENT))
-- 
2.43.0


From b40f4f72e4bc1c85fefb93d527b3eb96bdc8c6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:39 +0000
Subject: [PATCH 12/46] fix: report a missing arrow after an argument list in
 parentheses

The parser panicked (debug) or swallowed the next token silently (release)
for input like {{ (a, b) }}.
---
 crates/ludtwig-parser/src/grammar/twig/literal.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/crates/ludtwig-parser/src/grammar/twig/literal.rs b/crates/ludtwig-parser/src/grammar/twig/literal.rs
index 7c32ac0..bf7ee41 100644
--- a/crates/ludtwig-parser/src/grammar/twig/literal.rs
+++ b/crates/ludtwig-parser/src/grammar/twig/literal.rs
@@ -442,12 +442,9 @@ pub(crate) fn parse_twig_arrow_function(
     parser: &mut Parser,
     last_node: CompletedMarker,
 ) -> CompletedMarker {
-    debug_assert!(parser.at(T!["=>"]));
-
     let outer = parser.precede(last_node);
 
-    // bump the arrow
-    parser.bump();
+    parser.expect(T!["=>"], TWIG_EXPRESSION_RECOVERY_SET);
 
     // parse closure expression
     if parse_twig_expression(parser).is_none() {
-- 
2.43.0


From fc0869511bb637b3741f8cf0e7800d9cfb8876ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:02 +0000
Subject: [PATCH 13/46] fix: a twig tag opened at the end of a raw text element
 doesn't crash the parser

---
 crates/ludtwig-parser/src/grammar/html.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/ludtwig-parser/src/grammar/html.rs b/crates/ludtwig-parser/src/grammar/html.rs
index d922240..bb629e0 100644
--- a/crates/ludtwig-parser/src/grammar/html.rs
+++ b/crates/ludtwig-parser/src/grammar/html.rs
@@ -106,7 +106,7 @@ fn parse_html_raw_text(
                 false
             },
             |p| {
-                if parse_any_twig(p, parse_html_raw_text_inner).is_none() {
+                if parse_any_twig(p, parse_html_raw_text_inner).is_none() && !p.at_end() {
                     p.bump(); // just bump anything until the early exit closure stops us
                 }
             },
@@ -135,7 +135,7 @@ fn parse_html_raw_text(
             false
         },
         |p| {
-            if parse_any_twig(p, parse_html_raw_text_inner).is_none() {
+            if parse_any_twig(p, parse_html_raw_text_inner).is_none() && !p.at_end() {
                 p.bump(); // just bump anything until the early exit closure stops us
             }
         },
-- 
2.43.0


From 8ea3e3775f15fe626f013710b5b7893de506b628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:02 +0000
Subject: [PATCH 14/46] fix: report a missing value of a named argument

---
 crates/ludtwig-parser/src/grammar/twig/literal.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/ludtwig-parser/src/grammar/twig/literal.rs b/crates/ludtwig-parser/src/grammar/twig/literal.rs
index bf7ee41..607e14a 100644
--- a/crates/ludtwig-parser/src/grammar/twig/literal.rs
+++ b/crates/ludtwig-parser/src/grammar/twig/literal.rs
@@ -470,7 +470,11 @@ pub(crate) fn parse_twig_function_argument(parser: &mut Parser) -> Option<Comple
         let named_arg_m = parser.start();
         parser.bump_as(T![word]);
         parser.expect(T!["="], TWIG_EXPRESSION_RECOVERY_SET);
-        parse_twig_expression(parser);
+        if parse_twig_expression(parser).is_none() {
+            parser.add_error(ParseErrorBuilder::new(
+                "twig expression as value of the named argument",
+            ));
+        }
         Some(parser.complete(named_arg_m, SyntaxKind::TWIG_NAMED_ARGUMENT))
     } else {
         parse_twig_expression(parser)
-- 
2.43.0


From 51efe962c2eadecf64ed9136aa6d2fcdedb9e6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:26 +0000
Subject: [PATCH 15/46] fix: ignore directives nested in an ignored element
 don't end the outer one

---
 crates/ludtwig/src/check/rule.rs              | 47 ++++++++++---------
 crates/ludtwig/src/check/rules/indentation.rs | 44 +++++++++--------
 2 files changed, 46 insertions(+), 45 deletions(-)

diff --git a/crates/ludtwig/src/check/rule.rs b/crates/ludtwig/src/check/rule.rs
index 4b3b1cf..7122e7c 100644
--- a/crates/ludtwig/src/check/rule.rs
+++ b/crates/ludtwig/src/check/rule.rs
@@ -88,38 +88,41 @@ impl<R: Rule> RuleExt for R {
         tree_iter: &mut Preorder,
         n: &SyntaxNode,
     ) -> bool {
-        if let Some(node) = n.prev_sibling() {
-            if let Some(directive) = LudtwigDirectiveIgnore::cast(node) {
-                let ignored_rules = directive.get_rules();
-                if ignored_rules.is_empty() {
-                    // all rules are disabled
-                    tree_iter.skip_subtree();
-                    return true;
-                }
-
-                if ignored_rules.iter().any(|r| r == self.name()) {
-                    // this rule is now ignored
-                    *is_ignored = true;
-                }
+        if let Some(directive) = ignore_directive_of(n) {
+            let ignored_rules = directive.get_rules();
+            if ignored_rules.is_empty() {
+                // all rules are disabled
+                tree_iter.skip_subtree();
+                return true;
+            }
+
+            if ignored_rules.iter().any(|r| r == self.name()) {
+                // this rule is now ignored
+                *is_ignored = true;
             }
         }
         false
     }
 
     fn check_for_rule_ignore_leave(&self, is_ignored: &mut bool, n: &SyntaxNode) {
-        if let Some(node) = n.prev_sibling() {
-            if let Some(directive) = LudtwigDirectiveIgnore::cast(node) {
-                let ignored_rules = directive.get_rules();
-
-                if ignored_rules.iter().any(|r| r == self.name()) {
-                    // this rule is no longer ignored
-                    *is_ignored = false;
-                }
-            }
+        if *is_ignored && ignore_directive_of(n).is_some() {
+            // this rule is no longer ignored, except if that is nested inside of another ignored node
+            *is_ignored = n
+                .ancestors()
+                .skip(1)
+                .filter_map(|a| ignore_directive_of(&a))
+                .any(|d| d.get_rules().iter().any(|r| r == self.name()));
         }
     }
 }
 
+/// The `LudtwigDirectiveIgnore` standing directly in front of this node
+pub fn ignore_directive_of(n: &SyntaxNode) -> Option<LudtwigDirectiveIgnore> {
+    n.prev_sibling_or_token()?
+        .into_node()
+        .and_then(LudtwigDirectiveIgnore::cast)
+}
+
 impl Debug for dyn Rule {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         write!(f, "Rule<{}>", self.name())
diff --git a/crates/ludtwig/src/check/rules/indentation.rs b/crates/ludtwig/src/check/rules/indentation.rs
index 3354da6..bb47332 100644
--- a/crates/ludtwig/src/check/rules/indentation.rs
+++ b/crates/ludtwig/src/check/rules/indentation.rs
@@ -1,10 +1,12 @@
-use ludtwig_parser::syntax::typed::{AstNode, HtmlStartingTag, HtmlTag, LudtwigDirectiveIgnore};
+use ludtwig_parser::syntax::typed::{AstNode, HtmlStartingTag, HtmlTag};
 use ludtwig_parser::syntax::untyped::{
     PreorderWithTokens, SyntaxElement, SyntaxKind, SyntaxNode, SyntaxToken, TextRange, TextSize,
     WalkEvent,
 };
 
-use crate::check::rule::{CheckResult, Rule, RuleExt, RuleRunContext, Severity};
+use crate::check::rule::{
+    CheckResult, Rule, RuleExt, RuleRunContext, Severity, ignore_directive_of,
+};
 
 pub struct RuleIndentation;
 
@@ -216,34 +218,30 @@ impl RuleIndentation {
         tree_iter: &mut PreorderWithTokens,
         n: &SyntaxNode,
     ) -> bool {
-        if let Some(node) = n.prev_sibling() {
-            if let Some(directive) = LudtwigDirectiveIgnore::cast(node) {
-                let ignored_rules = directive.get_rules();
-                if ignored_rules.is_empty() {
-                    // all rules are disabled
-                    tree_iter.skip_subtree();
-                    return true;
-                }
+        if let Some(directive) = ignore_directive_of(n) {
+            let ignored_rules = directive.get_rules();
+            if ignored_rules.is_empty() {
+                // all rules are disabled
+                tree_iter.skip_subtree();
+                return true;
+            }
 
-                if ignored_rules.iter().any(|r| r == self.name()) {
-                    // this rule is now ignored
-                    *is_ignored = true;
-                }
+            if ignored_rules.iter().any(|r| r == self.name()) {
+                // this rule is now ignored
+                *is_ignored = true;
             }
         }
         false
     }
 
     fn check_for_rule_ignore_leave(&self, is_ignored: &mut bool, n: &SyntaxNode) {
-        if let Some(node) = n.prev_sibling() {
-            if let Some(directive) = LudtwigDirectiveIgnore::cast(node) {
-                let ignored_rules = directive.get_rules();
-
-                if ignored_rules.iter().any(|r| r == self.name()) {
-                    // this rule is no longer ignored
-                    *is_ignored = false;
-                }
-            }
+        if *is_ignored && ignore_directive_of(n).is_some() {
+            // this rule is no longer ignored, except if that is nested inside of another ignored node
+            *is_ignored = n
+                .ancestors()
+                .skip(1)
+                .filter_map(|a| ignore_directive_of(&a))
+                .any(|d| d.get_rules().iter().any(|r| r == self.name()));
         }
     }
 
-- 
2.43.0


From 162f896c6422b28fab46cf6da04fbdcb819be694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:51 +0000
Subject: [PATCH 16/46] fix: indentation of what follows a skipped node in the
 same line isn't checked

---
 crates/ludtwig/src/check/rules/indentation.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/ludtwig/src/check/rules/indentation.rs b/crates/ludtwig/src/check/rules/indentation.rs
index bb47332..b5cc947 100644
--- a/crates/ludtwig/src/check/rules/indentation.rs
+++ b/crates/ludtwig/src/check/rules/indentation.rs
@@ -33,6 +33,7 @@ impl Rule for RuleIndentation {
                     match element {
                         SyntaxElement::Node(n) if n.kind() == SyntaxKind::ERROR => {
                             tree_iter.skip_subtree(); // Skip everything under error nodes!
+                            Self::after_skipped_subtree(&mut line_break_encountered, &n);
                         }
                         SyntaxElement::Token(t) if t.kind() == SyntaxKind::TK_LINE_BREAK => {
                             line_break_encountered = true;
@@ -55,6 +56,7 @@ impl Rule for RuleIndentation {
                         SyntaxElement::Node(n) => {
                             if self.check_for_rule_ignore_enter(&mut is_ignored, &mut tree_iter, &n)
                             {
+                                Self::after_skipped_subtree(&mut line_break_encountered, &n);
                                 continue;
                             }
 
@@ -245,6 +247,13 @@ impl RuleIndentation {
         }
     }
 
+    /// the tokens that were skipped could have started or ended a line as well
+    fn after_skipped_subtree(line_break_encountered: &mut bool, n: &SyntaxNode) {
+        if let Some(t) = n.last_token() {
+            *line_break_encountered = t.kind() == SyntaxKind::TK_LINE_BREAK;
+        }
+    }
+
     fn check_for_trivia_sensitivity(
         inside_trivia_sensitive_node: &mut bool,
         n: &SyntaxNode,
-- 
2.43.0


From 7496d847521f33b7206b09b4be3b87d9d8fe02e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:10 +0000
Subject: [PATCH 17/46] fix: right operand of binary expressions whose left
 operand is an operator expression

---
 crates/ludtwig-parser/src/syntax/typed.rs           | 13 +++++++++----
 .../src/check/rules/twig_use_is_not_same_as.rs      |  3 ++-
 .../ludtwig/src/check/rules/twig_use_is_same_as.rs  |  3 ++-
 3 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/crates/ludtwig-parser/src/syntax/typed.rs b/crates/ludtwig-parser/src/syntax/typed.rs
index bb188ce..77f704a 100644
--- a/crates/ludtwig-parser/src/syntax/typed.rs
+++ b/crates/ludtwig-parser/src/syntax/typed.rs
@@ -317,17 +317,22 @@ impl TwigBinaryExpression {
             })
     }
 
+    /// Left operand, if it isn't itself a binary or unary expression
     #[must_use]
     pub fn lhs_expression(&self) -> Option<TwigExpression> {
-        self.syntax.children().find_map(TwigExpression::cast)
+        self.syntax
+            .children_with_tokens()
+            .take_while(|element| element.as_token().is_none_or(|t| t.kind().is_trivia()))
+            .find_map(|element| element.into_node().and_then(TwigExpression::cast))
     }
 
+    /// Right operand
     #[must_use]
     pub fn rhs_expression(&self) -> Option<TwigExpression> {
         self.syntax
-            .children()
-            .filter_map(TwigExpression::cast)
-            .nth(1)
+            .children_with_tokens()
+            .skip_while(|element| element.as_token().is_none_or(|t| t.kind().is_trivia()))
+            .find_map(|element| element.into_node().and_then(TwigExpression::cast))
     }
 }
 
diff --git a/crates/ludtwig/src/check/rules/twig_use_is_not_same_as.rs b/crates/ludtwig/src/check/rules/twig_use_is_not_same_as.rs
index 8dc0ede..4ea73af 100644
--- a/crates/ludtwig/src/check/rules/twig_use_is_not_same_as.rs
+++ b/crates/ludtwig/src/check/rules/twig_use_is_not_same_as.rs
@@ -26,7 +26,8 @@ impl Rule for RuleTwigUseIsNotSameAs {
                 "This is not a valid Twig operator, try 'is not same as(condition)' instead",
             );
 
-        if let Some(rhs) = binary.rhs_expression() {
+        // a left operand that is an expression with operators itself would be grouped differently
+        if let (Some(_), Some(rhs)) = (binary.lhs_expression(), binary.rhs_expression()) {
             result = result.suggestion(
                 op.text_range().cover(rhs.syntax().text_range()),
                 format!("is not same as({})", rhs.syntax().text().to_string().trim()),
diff --git a/crates/ludtwig/src/check/rules/twig_use_is_same_as.rs b/crates/ludtwig/src/check/rules/twig_use_is_same_as.rs
index fda2aa9..52f8853 100644
--- a/crates/ludtwig/src/check/rules/twig_use_is_same_as.rs
+++ b/crates/ludtwig/src/check/rules/twig_use_is_same_as.rs
@@ -26,7 +26,8 @@ impl Rule for RuleTwigUseIsSameAs {
                 "This is not a valid Twig operator, try 'is same as(condition)' instead",
             );
 
-        if let Some(rhs) = binary.rhs_expression() {
+        // a left operand that is an expression with operators itself would be grouped differently
+        if let (Some(_), Some(rhs)) = (binary.lhs_expression(), binary.rhs_expression()) {
             result = result.suggestion(
                 op.text_range().cover(rhs.syntax().text_range()),
                 format!("is same as({})", rhs.syntax().text().to_string().trim()),
-- 
2.43.0


From 7f5260d758addfe4fb579dace7b8e9e85c36b8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:24 +0000
Subject: [PATCH 18/46] fix: twig-json-encode-escape-js replaces raw together
 with its arguments

---
 .../ludtwig/src/check/rules/twig_json_encode_escape_js.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/ludtwig/src/check/rules/twig_json_encode_escape_js.rs b/crates/ludtwig/src/check/rules/twig_json_encode_escape_js.rs
index 0a4ec0f..21f25fe 100644
--- a/crates/ludtwig/src/check/rules/twig_json_encode_escape_js.rs
+++ b/crates/ludtwig/src/check/rules/twig_json_encode_escape_js.rs
@@ -1,4 +1,4 @@
-use ludtwig_parser::syntax::typed::{AstNode, TwigFilter, TwigLiteralName, support};
+use ludtwig_parser::syntax::typed::{AstNode, TwigArguments, TwigFilter, TwigLiteralName, support};
 use ludtwig_parser::syntax::untyped::SyntaxNode;
 
 use crate::check::rule::{CheckResult, Rule, RuleExt, RuleRunContext, Severity};
@@ -36,7 +36,11 @@ impl Rule for RuleTwigJsonEncodeEscapeJs {
                 "help: replace 'raw' with escape('js')",
             )
             .suggestion(
-                right_name_token.text_range(),
+                // without its arguments
+                support::child::<TwigArguments>(right_operand.syntax()).map_or(
+                    right_name_token.text_range(),
+                    |args| right_name_token.text_range().cover(args.syntax().text_range()),
+                ),
                 "escape('js')",
                 "Try this filter instead",
             );
-- 
2.43.0


From 0ff161ac1f1a171a5c5b1cec7ed50266259c5487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:27 +0000
Subject: [PATCH 19/46] fix: html-string-quotation puts the opening quote
 behind the whitespace in front of an unquoted value

---
 crates/ludtwig/src/check/rules/html_string_quotation.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/ludtwig/src/check/rules/html_string_quotation.rs b/crates/ludtwig/src/check/rules/html_string_quotation.rs
index 44ced4e..698d467 100644
--- a/crates/ludtwig/src/check/rules/html_string_quotation.rs
+++ b/crates/ludtwig/src/check/rules/html_string_quotation.rs
@@ -63,7 +63,11 @@ pub fn make_changed_quotes_suggestion_if_possible(
         }
         _ => {
             result = result.suggestion(
-                TextRange::at(inner.syntax().text_range().start(), TextSize::from(0)),
+                // behind the whitespace in front of the value
+                TextRange::at(
+                    inner.syntax().text_range_trimmed_trivia().start(),
+                    TextSize::from(0),
+                ),
                 correct_quote,
                 "Try this quote instead",
             );
-- 
2.43.0


From c49e2b7e9fdda6fe1c7f69cad3404d5a4024684c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:30 +0000
Subject: [PATCH 20/46] fix: twig-string-quotation doesn't turn text into an
 interpolation

---
 crates/ludtwig/src/check/rules/twig_string_quotation.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/ludtwig/src/check/rules/twig_string_quotation.rs b/crates/ludtwig/src/check/rules/twig_string_quotation.rs
index 00d8676..833df7e 100644
--- a/crates/ludtwig/src/check/rules/twig_string_quotation.rs
+++ b/crates/ludtwig/src/check/rules/twig_string_quotation.rs
@@ -68,6 +68,15 @@ pub fn make_changed_quotes_suggestion_if_possible(
         return result; // TODO: could still try to transform the string with more effort...
     }
 
+    if correct_quote == '"'
+        && twig_string
+            .get_opening_quote()
+            .is_none_or(|t| !t.text().starts_with(correct_quote))
+        && inner_text.to_string().contains("#{")
+    {
+        return result; // would become an interpolation
+    }
+
     // opening quote
     match twig_string.get_opening_quote() {
         Some(quote) => {
-- 
2.43.0


From 4233520bc4ffa60400b7fe247d2b0eebec3ac86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:54 +0000
Subject: [PATCH 21/46] fix: html-string-quotation puts the opening quote right
 in front of an unquoted value

---
 .../ludtwig/src/check/rules/html_string_quotation.rs | 12 ++++++++++--
 .../src/check/rules/twig_json_encode_escape_js.rs    |  6 +++++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/crates/ludtwig/src/check/rules/html_string_quotation.rs b/crates/ludtwig/src/check/rules/html_string_quotation.rs
index 698d467..3e3a967 100644
--- a/crates/ludtwig/src/check/rules/html_string_quotation.rs
+++ b/crates/ludtwig/src/check/rules/html_string_quotation.rs
@@ -1,5 +1,7 @@
 use ludtwig_parser::syntax::typed::{AstNode, HtmlString};
-use ludtwig_parser::syntax::untyped::{SyntaxNode, SyntaxNodeExt, TextRange, TextSize};
+use ludtwig_parser::syntax::untyped::{
+    SyntaxElement, SyntaxNode, SyntaxNodeExt, TextRange, TextSize,
+};
 
 use crate::check::rule::{CheckResult, Rule, RuleExt, RuleRunContext, Severity};
 
@@ -65,7 +67,13 @@ pub fn make_changed_quotes_suggestion_if_possible(
             result = result.suggestion(
                 // behind the whitespace in front of the value
                 TextRange::at(
-                    inner.syntax().text_range_trimmed_trivia().start(),
+                    inner
+                        .syntax()
+                        .descendants_with_tokens()
+                        .filter_map(SyntaxElement::into_token)
+                        .find(|t| !t.kind().is_trivia())
+                        .map_or(inner.syntax().text_range(), |t| t.text_range())
+                        .start(),
                     TextSize::from(0),
                 ),
                 correct_quote,
diff --git a/crates/ludtwig/src/check/rules/twig_json_encode_escape_js.rs b/crates/ludtwig/src/check/rules/twig_json_encode_escape_js.rs
index 21f25fe..71198b5 100644
--- a/crates/ludtwig/src/check/rules/twig_json_encode_escape_js.rs
+++ b/crates/ludtwig/src/check/rules/twig_json_encode_escape_js.rs
@@ -39,7 +39,11 @@ impl Rule for RuleTwigJsonEncodeEscapeJs {
                 // without its arguments
                 support::child::<TwigArguments>(right_operand.syntax()).map_or(
                     right_name_token.text_range(),
-                    |args| right_name_token.text_range().cover(args.syntax().text_range()),
+                    |args| {
+                        right_name_token
+                            .text_range()
+                            .cover(args.syntax().text_range())
+                    },
                 ),
                 "escape('js')",
                 "Try this filter instead",
-- 
2.43.0


From a5065648b5bb5eacb9a12490d65ab3521d04e180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:46 +0000
Subject: [PATCH 22/46] fix: names of blocks and macros may be spelled like a
 keyword

---
 .../ludtwig-parser/src/grammar/twig/tags.rs   | 77 ++++++++++++-------
 1 file changed, 49 insertions(+), 28 deletions(-)

diff --git a/crates/ludtwig-parser/src/grammar/twig/tags.rs b/crates/ludtwig-parser/src/grammar/twig/tags.rs
index 2534a4d..4c6441e 100644
--- a/crates/ludtwig-parser/src/grammar/twig/tags.rs
+++ b/crates/ludtwig-parser/src/grammar/twig/tags.rs
@@ -3,8 +3,8 @@
 use crate::T;
 use crate::grammar::twig::expression::parse_twig_expression;
 use crate::grammar::twig::literal::{
-    parse_twig_filter, parse_twig_function_argument, parse_twig_hash, parse_twig_name,
-    parse_twig_string,
+    TWIG_NAME_REGEX, parse_twig_filter, parse_twig_function_argument, parse_twig_hash,
+    parse_twig_name, parse_twig_string,
 };
 use crate::grammar::twig::shopware::{BlockParseResult, parse_shopware_twig_block_statement};
 use crate::grammar::{ParseFunction, parse_many};
@@ -287,6 +287,31 @@ fn parse_twig_with(
     parser.complete(wrapper_m, SyntaxKind::TWIG_WITH)
 }
 
+/// The name of a block or macro is allowed to be spelled like a keyword, but not like an operator
+fn at_twig_tag_name(parser: &mut Parser) -> bool {
+    parser.at(T![word])
+        || (!parser.at_set(&[
+            T!["and"],
+            T!["or"],
+            T!["not"],
+            T!["in"],
+            T!["is"],
+            T!["matches"],
+        ]) && parser
+            .peek_token()
+            .is_some_and(|t| TWIG_NAME_REGEX.is_match(t.text)))
+}
+
+fn parse_twig_tag_name(parser: &mut Parser, recovery_set: &[SyntaxKind]) -> Option<String> {
+    if at_twig_tag_name(parser) {
+        Some(parser.bump_as(T![word]).text.to_owned())
+    } else {
+        parser
+            .expect(T![word], recovery_set)
+            .map(|t| t.text.to_owned())
+    }
+}
+
 fn parse_twig_macro(
     parser: &mut Parser,
     outer: Marker,
@@ -294,20 +319,18 @@ fn parse_twig_macro(
 ) -> CompletedMarker {
     debug_assert!(parser.at(T!["macro"]));
     parser.bump();
-    let macro_name = parser
-        .expect(
-            T![word],
-            &[
-                T!["("],
-                T![")"],
-                T!["endmacro"],
-                T!["%}"],
-                T!["-%}"],
-                T!["~%}"],
-                T!["</"],
-            ],
-        )
-        .map(|t| t.text.to_owned());
+    let macro_name = parse_twig_tag_name(
+        parser,
+        &[
+            T!["("],
+            T![")"],
+            T!["endmacro"],
+            T!["%}"],
+            T!["-%}"],
+            T!["~%}"],
+            T!["</"],
+        ],
+    );
 
     // macro must have parentheses (arguments can be zero)
     let arguments_m = parser.start();
@@ -365,14 +388,14 @@ fn parse_twig_macro(
     );
     parser.expect(T!["endmacro"], &[T!["%}"], T!["-%}"], T!["~%}"], T!["</"]]);
     // check for optional name behind endmacro
-    if parser.at(T![word]) {
-        let end_macro_name_token = parser.bump();
+    if at_twig_tag_name(parser) {
+        let end_macro_name_token = parser.bump_as(T![word]);
         if let Some(macro_name) = macro_name {
             if end_macro_name_token.text != macro_name {
                 let parser_err = ParseErrorBuilder::new(format!(
                     "nothing or same twig macro name as opening ({macro_name})"
                 ))
-                .at_token(end_macro_name_token);
+                .at_token(&end_macro_name_token);
 
                 parser.add_error(parser_err);
                 parser.recover(&[T!["%}"], T!["-%}"], T!["~%}"], T!["</"]]);
@@ -1168,12 +1191,10 @@ fn parse_twig_block(
 ) -> CompletedMarker {
     debug_assert!(parser.at(T!["block"]));
     parser.bump();
-    let block_name = parser
-        .expect(
-            T![word],
-            &[T!["</"], T!["%}"], T!["-%}"], T!["~%}"], T!["endblock"]],
-        )
-        .map(|t| t.text.to_owned());
+    let block_name = parse_twig_tag_name(
+        parser,
+        &[T!["</"], T!["%}"], T!["-%}"], T!["~%}"], T!["endblock"]],
+    );
     // look for optional shortcut
     let mut found_shortcut = false;
     if !parser.at_twig_block_close() {
@@ -1211,14 +1232,14 @@ fn parse_twig_block(
         );
         parser.expect(T!["endblock"], &[T!["</"], T!["%}"], T!["-%}"], T!["~%}"]]);
         // check for optional name behind endblock
-        if parser.at(T![word]) {
-            let end_block_name_token = parser.bump();
+        if at_twig_tag_name(parser) {
+            let end_block_name_token = parser.bump_as(T![word]);
             if let Some(block_name) = block_name {
                 if end_block_name_token.text != block_name {
                     let parser_err = ParseErrorBuilder::new(format!(
                         "nothing or same twig block name as opening ({block_name})"
                     ))
-                    .at_token(end_block_name_token);
+                    .at_token(&end_block_name_token);
 
                     parser.add_error(parser_err);
                     parser.recover(&[T!["%}"], T!["-%}"], T!["~%}"], T!["</"]]);
-- 
2.43.0


From 84cf1e42ece7fe1633891790d3018be476a90f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:51 +0000
Subject: [PATCH 23/46] fix: twig-block-name-snake-case renames the name behind
 endblock as well

---
 crates/ludtwig-parser/src/syntax/typed.rs      |  6 ++++++
 .../check/rules/twig_block_name_snake_case.rs  | 18 ++++++++++++++++--
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/crates/ludtwig-parser/src/syntax/typed.rs b/crates/ludtwig-parser/src/syntax/typed.rs
index 77f704a..3bbf89b 100644
--- a/crates/ludtwig-parser/src/syntax/typed.rs
+++ b/crates/ludtwig-parser/src/syntax/typed.rs
@@ -169,6 +169,12 @@ impl TwigStartingBlock {
 
 ast_node!(TwigEndingBlock, SyntaxKind::TWIG_ENDING_BLOCK);
 impl TwigEndingBlock {
+    /// Optional name of the twig block
+    #[must_use]
+    pub fn name(&self) -> Option<SyntaxToken> {
+        support::token(&self.syntax, T![word])
+    }
+
     /// Parent complete twig block
     #[must_use]
     pub fn twig_block(&self) -> Option<TwigBlock> {
diff --git a/crates/ludtwig/src/check/rules/twig_block_name_snake_case.rs b/crates/ludtwig/src/check/rules/twig_block_name_snake_case.rs
index fcec3e8..ca36477 100644
--- a/crates/ludtwig/src/check/rules/twig_block_name_snake_case.rs
+++ b/crates/ludtwig/src/check/rules/twig_block_name_snake_case.rs
@@ -11,7 +11,8 @@ impl Rule for RuleTwigBlockNameSnakeCase {
     }
 
     fn check_node(&self, node: SyntaxNode, _ctx: &RuleRunContext) -> Option<Vec<CheckResult>> {
-        let block_name = TwigStartingBlock::cast(node)?.name()?;
+        let starting_block = TwigStartingBlock::cast(node)?;
+        let block_name = starting_block.name()?;
         if !is_valid_ascii_alpha_snake_case(block_name.text(), false) {
             // name is not valid ascii snake case
             let mut result = self
@@ -25,9 +26,22 @@ impl Rule for RuleTwigBlockNameSnakeCase {
             if let Some(suggested_name) = try_make_snake_case(block_name.text(), false) {
                 result = result.suggestion(
                     block_name.text_range(),
-                    suggested_name,
+                    suggested_name.clone(),
                     "Try this name instead",
                 );
+
+                // the end of the block has to repeat the same name if there is any
+                if let Some(ending_name) = starting_block
+                    .twig_block()
+                    .and_then(|block| block.ending_block()?.name())
+                    .filter(|name| name.text() == block_name.text())
+                {
+                    result = result.suggestion(
+                        ending_name.text_range(),
+                        suggested_name,
+                        "Try this name instead",
+                    );
+                }
             }
 
             return Some(vec![result]);
-- 
2.43.0


From 4374eb340fbac2159cf8b826dca776a7e6e6f49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:53 +0000
Subject: [PATCH 24/46] fix: no missing indentation of zero characters

---
 crates/ludtwig/src/check/rules/indentation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ludtwig/src/check/rules/indentation.rs b/crates/ludtwig/src/check/rules/indentation.rs
index b5cc947..787f87d 100644
--- a/crates/ludtwig/src/check/rules/indentation.rs
+++ b/crates/ludtwig/src/check/rules/indentation.rs
@@ -182,7 +182,7 @@ impl RuleIndentation {
                 }
             }
             _ => {
-                if indentation_level > 0 || indentation_substeps > 0 {
+                if !expected_str.is_empty() {
                     // report missing whitespace token
                     let range = TextRange::at(token.text_range().start(), TextSize::from(0));
                     let result = self
-- 
2.43.0


From bb047b0da3ec112769094006b6cc44e8d07d83f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:56 +0000
Subject: [PATCH 25/46] fix: no empty names are suggested

---
 crates/ludtwig/src/check/naming_convention.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/ludtwig/src/check/naming_convention.rs b/crates/ludtwig/src/check/naming_convention.rs
index cba14c6..802b196 100644
--- a/crates/ludtwig/src/check/naming_convention.rs
+++ b/crates/ludtwig/src/check/naming_convention.rs
@@ -78,7 +78,7 @@ pub fn try_make_snake_case(original: &str, screaming: bool) -> Option<String> {
     }
 
     // validate suggestion
-    if is_valid_ascii_alpha_snake_case(&attempt, screaming) {
+    if !attempt.is_empty() && is_valid_ascii_alpha_snake_case(&attempt, screaming) {
         return Some(attempt);
     }
 
@@ -160,7 +160,7 @@ pub fn try_make_kebab_case(original: &str) -> Option<String> {
     }
 
     // validate suggestion
-    if is_valid_alphanumeric_kebab_case(&attempt) {
+    if !attempt.is_empty() && is_valid_alphanumeric_kebab_case(&attempt) {
         return Some(attempt);
     }
 
-- 
2.43.0


From efc9a7023268c165f10e06c3997d71c27be2b4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:01 +0000
Subject: [PATCH 26/46] fix: the tag of html attributes inside of twig blocks

---
 crates/ludtwig-parser/src/syntax/typed.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/crates/ludtwig-parser/src/syntax/typed.rs b/crates/ludtwig-parser/src/syntax/typed.rs
index 3bbf89b..e6e839b 100644
--- a/crates/ludtwig-parser/src/syntax/typed.rs
+++ b/crates/ludtwig-parser/src/syntax/typed.rs
@@ -279,11 +279,8 @@ impl HtmlAttribute {
     /// Parent starting html tag
     #[must_use]
     pub fn html_tag(&self) -> Option<HtmlStartingTag> {
-        // first parent is HtmlAttributeList, the parent of that is the tag itself
-        self.syntax
-            .parent()?
-            .parent()
-            .and_then(HtmlStartingTag::cast)
+        // first parent is HtmlAttributeList or the body of a twig block inside of it
+        self.syntax.ancestors().find_map(HtmlStartingTag::cast)
     }
 }
 
-- 
2.43.0


From f7174040b24961b5b09bdbf39f16b9dbcaf3ab30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:57 +0000
Subject: [PATCH 27/46] fix: the quotes of hash keys stay which can't be parsed
 without them

---
 crates/ludtwig/src/check/rules/twig_hash_key_no_quotes.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/ludtwig/src/check/rules/twig_hash_key_no_quotes.rs b/crates/ludtwig/src/check/rules/twig_hash_key_no_quotes.rs
index ad20a0d..2973064 100644
--- a/crates/ludtwig/src/check/rules/twig_hash_key_no_quotes.rs
+++ b/crates/ludtwig/src/check/rules/twig_hash_key_no_quotes.rs
@@ -1,6 +1,6 @@
 use ludtwig_parser::TWIG_NAME_REGEX;
 use ludtwig_parser::syntax::typed::{AstNode, TwigLiteralHashKey, TwigLiteralString, support};
-use ludtwig_parser::syntax::untyped::{SyntaxNode, SyntaxNodeExt, TextRange, TextSize};
+use ludtwig_parser::syntax::untyped::{SyntaxKind, SyntaxNode, SyntaxNodeExt, TextRange, TextSize};
 
 use crate::check::rule::{CheckResult, Rule, RuleExt, RuleRunContext, Severity};
 
@@ -17,8 +17,10 @@ impl Rule for RuleTwigHashKeyNoQuotes {
         let key_string_inner = key_string_literal.get_inner()?;
 
         // validate that inner string is a single valid twig word
+        // (an unknown token isn't parsed as a key without the quotes)
         let key_only_contains_one_element =
-            key_string_inner.syntax().children_with_tokens().count() == 1;
+            key_string_inner.syntax().children_with_tokens().count() == 1
+                && support::token(key_string_inner.syntax(), SyntaxKind::TK_UNKNOWN).is_none();
         let key_string_matches_twig_word_regex =
             TWIG_NAME_REGEX.is_match(&key_string_inner.syntax().text().to_string());
 
-- 
2.43.0


From f28c30656b8fa3f22d270d52f1928ff946d66212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:22 +0000
Subject: [PATCH 28/46] fix: no quotes are suggested for strings which lack one
 of their quotes

---
 crates/ludtwig/src/check/rules/html_string_quotation.rs | 4 ++++
 crates/ludtwig/src/check/rules/twig_string_quotation.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/crates/ludtwig/src/check/rules/html_string_quotation.rs b/crates/ludtwig/src/check/rules/html_string_quotation.rs
index 3e3a967..7b9722e 100644
--- a/crates/ludtwig/src/check/rules/html_string_quotation.rs
+++ b/crates/ludtwig/src/check/rules/html_string_quotation.rs
@@ -58,6 +58,10 @@ pub fn make_changed_quotes_suggestion_if_possible(
         return result; // TODO: could still try to transform the string with more effort...
     }
 
+    if twig_string.get_opening_quote().is_some() != twig_string.get_closing_quote().is_some() {
+        return result; // malformed: it isn't known where the string is meant to end
+    }
+
     // opening quote
     match twig_string.get_opening_quote() {
         Some(quote) => {
diff --git a/crates/ludtwig/src/check/rules/twig_string_quotation.rs b/crates/ludtwig/src/check/rules/twig_string_quotation.rs
index 833df7e..5bfdda2 100644
--- a/crates/ludtwig/src/check/rules/twig_string_quotation.rs
+++ b/crates/ludtwig/src/check/rules/twig_string_quotation.rs
@@ -68,6 +68,10 @@ pub fn make_changed_quotes_suggestion_if_possible(
         return result; // TODO: could still try to transform the string with more effort...
     }
 
+    if twig_string.get_opening_quote().is_some() != twig_string.get_closing_quote().is_some() {
+        return result; // malformed: it isn't known where the string is meant to end
+    }
+
     if correct_quote == '"'
         && twig_string
             .get_opening_quote()
-- 
2.43.0


From f2286602ac15c234a67dd26eba8135213f8831af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:03 +0000
Subject: [PATCH 29/46] fix: words suggested instead of operators don't stick
 to their operands

---
 crates/ludtwig/src/check/rule.rs                | 17 +++++++++++++++++
 .../ludtwig/src/check/rules/twig_logic_and.rs   |  4 ++--
 crates/ludtwig/src/check/rules/twig_logic_or.rs |  4 ++--
 .../src/check/rules/twig_use_is_not_same_as.rs  |  8 ++++++--
 .../src/check/rules/twig_use_is_same_as.rs      | 10 ++++++++--
 5 files changed, 35 insertions(+), 8 deletions(-)

diff --git a/crates/ludtwig/src/check/rule.rs b/crates/ludtwig/src/check/rule.rs
index 7122e7c..cabcb46 100644
--- a/crates/ludtwig/src/check/rule.rs
+++ b/crates/ludtwig/src/check/rule.rs
@@ -116,6 +116,23 @@ impl<R: Rule> RuleExt for R {
     }
 }
 
+/// The replacement of an operator by a word, which must not stick to the operand in front of it
+pub fn operator_word_behind_operand(operator: &SyntaxToken, word: &str) -> String {
+    match operator.prev_token() {
+        Some(t) if !t.kind().is_trivia() => format!(" {word}"),
+        _ => word.to_owned(),
+    }
+}
+
+/// The replacement of an operator by a word, which must not stick to the operands next to it
+pub fn operator_word(operator: &SyntaxToken, word: &str) -> String {
+    let mut replacement = operator_word_behind_operand(operator, word);
+    if operator.next_token().is_some_and(|t| !t.kind().is_trivia()) {
+        replacement.push(' ');
+    }
+    replacement
+}
+
 /// The `LudtwigDirectiveIgnore` standing directly in front of this node
 pub fn ignore_directive_of(n: &SyntaxNode) -> Option<LudtwigDirectiveIgnore> {
     n.prev_sibling_or_token()?
diff --git a/crates/ludtwig/src/check/rules/twig_logic_and.rs b/crates/ludtwig/src/check/rules/twig_logic_and.rs
index 77dd1d0..be39a48 100644
--- a/crates/ludtwig/src/check/rules/twig_logic_and.rs
+++ b/crates/ludtwig/src/check/rules/twig_logic_and.rs
@@ -2,7 +2,7 @@ use ludtwig_parser::T;
 use ludtwig_parser::syntax::typed::{AstNode, TwigBinaryExpression};
 use ludtwig_parser::syntax::untyped::SyntaxNode;
 
-use crate::check::rule::{CheckResult, Rule, RuleExt, RuleRunContext, Severity};
+use crate::check::rule::{CheckResult, Rule, RuleExt, RuleRunContext, Severity, operator_word};
 
 pub struct RuleTwigLogicAnd;
 
@@ -21,7 +21,7 @@ impl Rule for RuleTwigLogicAnd {
                 .primary_note(binary_expr_op.text_range(), "help: change this operator")
                 .suggestion(
                     binary_expr_op.text_range(),
-                    "and",
+                    operator_word(&binary_expr_op, "and"),
                     "Try this operator instead",
                 );
 
diff --git a/crates/ludtwig/src/check/rules/twig_logic_or.rs b/crates/ludtwig/src/check/rules/twig_logic_or.rs
index 7d151f9..be65ef6 100644
--- a/crates/ludtwig/src/check/rules/twig_logic_or.rs
+++ b/crates/ludtwig/src/check/rules/twig_logic_or.rs
@@ -2,7 +2,7 @@ use ludtwig_parser::T;
 use ludtwig_parser::syntax::typed::{AstNode, TwigBinaryExpression};
 use ludtwig_parser::syntax::untyped::SyntaxNode;
 
-use crate::check::rule::{CheckResult, Rule, RuleExt, RuleRunContext, Severity};
+use crate::check::rule::{CheckResult, Rule, RuleExt, RuleRunContext, Severity, operator_word};
 
 pub struct RuleTwigLogicOr;
 
@@ -22,7 +22,7 @@ impl Rule for RuleTwigLogicOr {
                 .primary_note(binary_expr_op.text_range(), "help: change this operator")
                 .suggestion(
                     binary_expr_op.text_range(),
-                    "or",
+                    operator_word(&binary_expr_op, "or"),
                     "Try this operator instead",
                 );
 
diff --git a/crates/ludtwig/src/check/rules/twig_use_is_not_same_as.rs b/crates/ludtwig/src/check/rules/twig_use_is_not_same_as.rs
index 4ea73af..fff216b 100644
--- a/crates/ludtwig/src/check/rules/twig_use_is_not_same_as.rs
+++ b/crates/ludtwig/src/check/rules/twig_use_is_not_same_as.rs
@@ -1,4 +1,4 @@
-use crate::check::rule::{CheckResult, RuleExt, RuleRunContext};
+use crate::check::rule::{CheckResult, RuleExt, RuleRunContext, operator_word_behind_operand};
 use crate::{Rule, Severity};
 use ludtwig_parser::T;
 use ludtwig_parser::syntax::typed::{AstNode, TwigBinaryExpression};
@@ -30,7 +30,11 @@ impl Rule for RuleTwigUseIsNotSameAs {
         if let (Some(_), Some(rhs)) = (binary.lhs_expression(), binary.rhs_expression()) {
             result = result.suggestion(
                 op.text_range().cover(rhs.syntax().text_range()),
-                format!("is not same as({})", rhs.syntax().text().to_string().trim()),
+                format!(
+                    "{}({})",
+                    operator_word_behind_operand(&op, "is not same as"),
+                    rhs.syntax().text().to_string().trim()
+                ),
                 "Try this instead",
             );
         }
diff --git a/crates/ludtwig/src/check/rules/twig_use_is_same_as.rs b/crates/ludtwig/src/check/rules/twig_use_is_same_as.rs
index 52f8853..abe922a 100644
--- a/crates/ludtwig/src/check/rules/twig_use_is_same_as.rs
+++ b/crates/ludtwig/src/check/rules/twig_use_is_same_as.rs
@@ -2,7 +2,9 @@ use ludtwig_parser::T;
 use ludtwig_parser::syntax::typed::{AstNode, TwigBinaryExpression};
 use ludtwig_parser::syntax::untyped::SyntaxNode;
 
-use crate::check::rule::{CheckResult, Rule, RuleExt, RuleRunContext, Severity};
+use crate::check::rule::{
+    CheckResult, Rule, RuleExt, RuleRunContext, Severity, operator_word_behind_operand,
+};
 
 pub struct RuleTwigUseIsSameAs;
 
@@ -30,7 +32,11 @@ impl Rule for RuleTwigUseIsSameAs {
         if let (Some(_), Some(rhs)) = (binary.lhs_expression(), binary.rhs_expression()) {
             result = result.suggestion(
                 op.text_range().cover(rhs.syntax().text_range()),
-                format!("is same as({})", rhs.syntax().text().to_string().trim()),
+                format!(
+                    "{}({})",
+                    operator_word_behind_operand(&op, "is same as"),
+                    rhs.syntax().text().to_string().trim()
+                ),
                 "Try this instead",
             );
         }
-- 
2.43.0


From 82bb5d3bac95402c3f5da9476439f1f10536cecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:13 +0000
Subject: [PATCH 30/46] fix: no 'is same as' is suggested behind a negated
 operand

---
 crates/ludtwig/src/check/rule.rs              | 29 +++++++++++++++++--
 .../check/rules/twig_use_is_not_same_as.rs    |  8 +++--
 .../src/check/rules/twig_use_is_same_as.rs    |  6 ++--
 3 files changed, 37 insertions(+), 6 deletions(-)

diff --git a/crates/ludtwig/src/check/rule.rs b/crates/ludtwig/src/check/rule.rs
index cabcb46..ae5b9df 100644
--- a/crates/ludtwig/src/check/rule.rs
+++ b/crates/ludtwig/src/check/rule.rs
@@ -1,6 +1,11 @@
 use crate::{CliSharedData, Config};
-use ludtwig_parser::syntax::typed::{AstNode, LudtwigDirectiveIgnore};
-use ludtwig_parser::syntax::untyped::{Preorder, SyntaxNode, SyntaxToken, TextRange};
+use ludtwig_parser::T;
+use ludtwig_parser::syntax::typed::{
+    AstNode, LudtwigDirectiveIgnore, TwigExpression, TwigUnaryExpression,
+};
+use ludtwig_parser::syntax::untyped::{
+    Preorder, SyntaxElement, SyntaxNode, SyntaxToken, TextRange,
+};
 use std::fmt::{Debug, Formatter};
 use std::sync::Arc;
 
@@ -133,6 +138,26 @@ pub fn operator_word(operator: &SyntaxToken, word: &str) -> String {
     replacement
 }
 
+/// Whether `not` is the outermost operation of an expression (except for signs in front of it)
+pub fn is_negation(expression: &TwigExpression) -> bool {
+    let unary = expression
+        .syntax()
+        .children()
+        .find_map(TwigUnaryExpression::cast);
+
+    unary.is_some_and(|unary| {
+        unary
+            .syntax()
+            .children_with_tokens()
+            .any(|element| match element {
+                SyntaxElement::Token(t) => t.kind() == T!["not"],
+                SyntaxElement::Node(n) => {
+                    TwigExpression::cast(n).is_some_and(|operand| is_negation(&operand))
+                }
+            })
+    })
+}
+
 /// The `LudtwigDirectiveIgnore` standing directly in front of this node
 pub fn ignore_directive_of(n: &SyntaxNode) -> Option<LudtwigDirectiveIgnore> {
     n.prev_sibling_or_token()?
diff --git a/crates/ludtwig/src/check/rules/twig_use_is_not_same_as.rs b/crates/ludtwig/src/check/rules/twig_use_is_not_same_as.rs
index fff216b..98a2004 100644
--- a/crates/ludtwig/src/check/rules/twig_use_is_not_same_as.rs
+++ b/crates/ludtwig/src/check/rules/twig_use_is_not_same_as.rs
@@ -1,4 +1,6 @@
-use crate::check::rule::{CheckResult, RuleExt, RuleRunContext, operator_word_behind_operand};
+use crate::check::rule::{
+    CheckResult, RuleExt, RuleRunContext, is_negation, operator_word_behind_operand,
+};
 use crate::{Rule, Severity};
 use ludtwig_parser::T;
 use ludtwig_parser::syntax::typed::{AstNode, TwigBinaryExpression};
@@ -27,7 +29,9 @@ impl Rule for RuleTwigUseIsNotSameAs {
             );
 
         // a left operand that is an expression with operators itself would be grouped differently
-        if let (Some(_), Some(rhs)) = (binary.lhs_expression(), binary.rhs_expression()) {
+        if let (Some(lhs), Some(rhs)) = (binary.lhs_expression(), binary.rhs_expression())
+            && !is_negation(&lhs)
+        {
             result = result.suggestion(
                 op.text_range().cover(rhs.syntax().text_range()),
                 format!(
diff --git a/crates/ludtwig/src/check/rules/twig_use_is_same_as.rs b/crates/ludtwig/src/check/rules/twig_use_is_same_as.rs
index abe922a..ade7501 100644
--- a/crates/ludtwig/src/check/rules/twig_use_is_same_as.rs
+++ b/crates/ludtwig/src/check/rules/twig_use_is_same_as.rs
@@ -3,7 +3,7 @@ use ludtwig_parser::syntax::typed::{AstNode, TwigBinaryExpression};
 use ludtwig_parser::syntax::untyped::SyntaxNode;
 
 use crate::check::rule::{
-    CheckResult, Rule, RuleExt, RuleRunContext, Severity, operator_word_behind_operand,
+    CheckResult, Rule, RuleExt, RuleRunContext, Severity, is_negation, operator_word_behind_operand,
 };
 
 pub struct RuleTwigUseIsSameAs;
@@ -29,7 +29,9 @@ impl Rule for RuleTwigUseIsSameAs {
             );
 
         // a left operand that is an expression with operators itself would be grouped differently
-        if let (Some(_), Some(rhs)) = (binary.lhs_expression(), binary.rhs_expression()) {
+        if let (Some(lhs), Some(rhs)) = (binary.lhs_expression(), binary.rhs_expression())
+            && !is_negation(&lhs)
+        {
             result = result.suggestion(
                 op.text_range().cover(rhs.syntax().text_range()),
                 format!(
-- 
2.43.0


From 76204898bd824fadeda55be18bb79aa3a60380ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:21 +0000
Subject: [PATCH 31/46] fix: a file keeps its content if writing the fixed
 content fails

---
 crates/ludtwig/src/process.rs | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/crates/ludtwig/src/process.rs b/crates/ludtwig/src/process.rs
index 209cba2..42292d1 100644
--- a/crates/ludtwig/src/process.rs
+++ b/crates/ludtwig/src/process.rs
@@ -1,5 +1,6 @@
-use std::fs;
-use std::path::PathBuf;
+use std::fs::{self, File, OpenOptions};
+use std::io::{self, Seek, Write};
+use std::path::{Path, PathBuf};
 
 use codespan_reporting::term::termcolor::{BufferWriter, ColorChoice};
 
@@ -69,6 +70,11 @@ fn run_analysis(
         get_file_active_rule_definitions(&root, &cli_context.data.rule_definitions);
 
     let apply_suggestions = cli_context.data.fix;
+    let unfixed_file_content = if apply_suggestions {
+        original_file_content.clone()
+    } else {
+        String::new()
+    };
     let file_context = FileContext {
         cli_context,
         file_path: path,
@@ -90,7 +96,11 @@ fn run_analysis(
         if dirty {
             #[cfg(ludtwig_verif)]
             crate::check::verif_trace::file_step("write", &file_context.file_path);
-            match fs::write(&file_context.file_path, &file_context.source_code) {
+            match overwrite_file(
+                &file_context.file_path,
+                &unfixed_file_content,
+                &file_context.source_code,
+            ) {
                 Ok(()) => {}
                 Err(e) => {
                     return Err(FileProcessingError::FileWrite {
@@ -120,6 +130,22 @@ fn run_analysis(
     Ok(())
 }
 
+/// Replaces the content of an existing file. If that fails the file keeps its old content.
+fn overwrite_file(path: &Path, old_content: &str, new_content: &str) -> io::Result<()> {
+    let mut file = OpenOptions::new().write(true).open(path)?;
+    let replace_content = |file: &mut File, content: &str| {
+        file.rewind()?;
+        file.write_all(content.as_bytes())?;
+        file.set_len(content.len() as u64)
+    };
+
+    replace_content(&mut file, new_content).inspect_err(|_| {
+        // whatever couldn't be written here is also still the old content in the file
+        let _ = replace_content(&mut file, old_content);
+        let _ = file.set_len(old_content.len() as u64);
+    })
+}
+
 pub fn iteratively_apply_suggestions(
     file_context: FileContext,
     check_results: Vec<CheckResult>,
-- 
2.43.0


From 8ffe00cd46004fadd15b2f57fcd2392f95f07cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:08 +0000
Subject: [PATCH 32/46] fix: files found through several arguments are
 processed once

---
 crates/ludtwig/src/main.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/crates/ludtwig/src/main.rs b/crates/ludtwig/src/main.rs
index 0818b8d..ae04ccd 100644
--- a/crates/ludtwig/src/main.rs
+++ b/crates/ludtwig/src/main.rs
@@ -15,9 +15,10 @@ use crate::output::ProcessingEvent;
 use clap::Parser;
 use ignore::types::TypesBuilder;
 use ignore::{WalkBuilder, WalkState};
+use std::collections::HashSet;
 use std::path::{Path, PathBuf};
 use std::sync::mpsc::Sender;
-use std::sync::{Arc, mpsc};
+use std::sync::{Arc, Mutex, mpsc};
 use std::thread;
 
 mod check;
@@ -174,6 +175,10 @@ fn handle_input_paths(paths: Vec<PathBuf>, cli_context: CliContext) {
     }
     let walker = walker.build_parallel();
 
+    // paths that were already handed to a worker: overlapping arguments must not process a file twice
+    let seen_paths = Mutex::new(HashSet::new());
+    let seen_paths = &seen_paths;
+
     // parallel directory traversal but move the work for each file to a different thread in the thread pool.
     rayon::scope(move |s| {
         walker.run(|| {
@@ -195,6 +200,19 @@ fn handle_input_paths(paths: Vec<PathBuf>, cli_context: CliContext) {
                     return WalkState::Continue;
                 }
 
+                // filter out files which were already found through another argument
+                let unique_path = entry
+                    .path()
+                    .canonicalize()
+                    .unwrap_or_else(|_| entry.path().into());
+                if !seen_paths
+                    .lock()
+                    .expect("seen paths should not be poisoned")
+                    .insert(unique_path)
+                {
+                    return WalkState::Continue;
+                }
+
                 let clone = cli_context.clone();
                 let tx_clone = cli_context.output_tx.clone();
                 s.spawn(
-- 
2.43.0


From fa7837110f4ca14e72738bb17e117fb7e92f00eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:11 +0000
Subject: [PATCH 33/46] fix: ignore files above several directories are matched
 relative to the right one

---
 crates/ludtwig/src/main.rs | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/crates/ludtwig/src/main.rs b/crates/ludtwig/src/main.rs
index ae04ccd..ad75cc9 100644
--- a/crates/ludtwig/src/main.rs
+++ b/crates/ludtwig/src/main.rs
@@ -135,8 +135,20 @@ fn app(opts: Opts, config: Config) -> i32 {
 
     let output_handler = thread::spawn(move || output::handle_processing_output(&rx));
 
-    // work on each user specified file / directory path concurrently
-    handle_input_paths(opts.files, cli_context.clone());
+    // paths that were already handed to a worker: overlapping arguments must not process a file twice
+    let seen_paths = Mutex::new(HashSet::new());
+
+    // work on the user specified files concurrently and then on each directory. Directories need separate
+    // walkers, because a single one would share the matchers for the ignore files above of them,
+    // which then match their patterns relative to the wrong directory.
+    let (directories, files): (Vec<PathBuf>, Vec<PathBuf>) =
+        opts.files.into_iter().partition(|path| path.is_dir());
+    if !files.is_empty() {
+        handle_input_paths(files, &seen_paths, cli_context.clone());
+    }
+    for directory in directories {
+        handle_input_paths(vec![directory], &seen_paths, cli_context.clone());
+    }
 
     drop(cli_context); // drop this tx channel
 
@@ -147,7 +159,11 @@ fn app(opts: Opts, config: Config) -> i32 {
 }
 
 /// Process a directory path.
-fn handle_input_paths(paths: Vec<PathBuf>, cli_context: CliContext) {
+fn handle_input_paths(
+    paths: Vec<PathBuf>,
+    seen_paths: &Mutex<HashSet<PathBuf>>,
+    cli_context: CliContext,
+) {
     let types = TypesBuilder::new()
         .add_defaults()
         .select("twig")
@@ -175,10 +191,6 @@ fn handle_input_paths(paths: Vec<PathBuf>, cli_context: CliContext) {
     }
     let walker = walker.build_parallel();
 
-    // paths that were already handed to a worker: overlapping arguments must not process a file twice
-    let seen_paths = Mutex::new(HashSet::new());
-    let seen_paths = &seen_paths;
-
     // parallel directory traversal but move the work for each file to a different thread in the thread pool.
     rayon::scope(move |s| {
         walker.run(|| {
-- 
2.43.0


From c6d88c5aca727e2ef27de6d20faa374c1a183fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:55 +0000
Subject: [PATCH 34/46] fix: the configuration is read from the path that is
 shown and not from the directories above

---
 crates/ludtwig/src/config.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/crates/ludtwig/src/config.rs b/crates/ludtwig/src/config.rs
index 65d2313..c1a7d10 100644
--- a/crates/ludtwig/src/config.rs
+++ b/crates/ludtwig/src/config.rs
@@ -141,13 +141,17 @@ pub const LUDTWIG_VERSION: &str = env!("CARGO_PKG_VERSION");
 impl Config {
     #[allow(clippy::result_large_err)]
     pub fn new<P: AsRef<Path>>(path: P) -> Result<Self, figment::Error> {
-        let config: Config = Figment::new()
-            // first read the raw config from memory (for default values)
-            .merge(Toml::string(
-                &DEFAULT_RAW_CONFIG.replace("{{LUDTWIG_VERSION}}", LUDTWIG_VERSION),
-            ))
-            // then read the config in the file system (if it exists)
-            .merge(Toml::file(path))
+        // first read the raw config from memory (for default values)
+        let mut figment = Figment::new().merge(Toml::string(
+            &DEFAULT_RAW_CONFIG.replace("{{LUDTWIG_VERSION}}", LUDTWIG_VERSION),
+        ));
+
+        // then read the config in the file system (if it exists), but not one in the directories above
+        if path.as_ref().exists() {
+            figment = figment.merge(Toml::file_exact(path));
+        }
+
+        let config: Config = figment
             // last read from the environment
             .merge(
                 Env::prefixed("LUDTWIG_")
-- 
2.43.0


From 80b1b73086062b8afc3d3c3f73cf60e94e351904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:55 +0000
Subject: [PATCH 35/46] fix: environment variables which aren't unicode don't
 crash ludtwig

---
 crates/ludtwig/src/config.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/ludtwig/src/config.rs b/crates/ludtwig/src/config.rs
index c1a7d10..1451075 100644
--- a/crates/ludtwig/src/config.rs
+++ b/crates/ludtwig/src/config.rs
@@ -204,8 +204,10 @@ pub fn handle_config_or_exit(opts: &Opts) -> Config {
                 );
             }
 
-            for (k, v) in env::vars() {
+            for (k, v) in env::vars_os() {
+                let k = k.to_string_lossy();
                 if k.starts_with("LUDTWIG_") {
+                    let v = v.to_string_lossy();
                     println!("Found environment variable for overriding config: {k}={v}");
                 }
             }
-- 
2.43.0


From c3572c444ca3f1a70faf53851f8b8cb01ece8913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:56 +0000
Subject: [PATCH 36/46] fix: an error instead of a crash if the default
 configuration can't be written

---
 crates/ludtwig/src/config.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/ludtwig/src/config.rs b/crates/ludtwig/src/config.rs
index 1451075..52afba2 100644
--- a/crates/ludtwig/src/config.rs
+++ b/crates/ludtwig/src/config.rs
@@ -181,7 +181,13 @@ pub fn handle_config_or_exit(opts: &Opts) -> Config {
         }
 
         let config_raw = DEFAULT_RAW_CONFIG.replace("{{LUDTWIG_VERSION}}", LUDTWIG_VERSION);
-        std::fs::write(&config_path, config_raw).expect("can't write default config");
+        if let Err(e) = std::fs::write(&config_path, config_raw) {
+            eprintln!(
+                "Error: can't write default config to {}: {e}",
+                config_path.display()
+            );
+            std::process::exit(1);
+        }
         println!(
             "Default config was written to {}",
             config_path.to_string_lossy()
-- 
2.43.0


From b637544f1c092d6488582c1681e669c5692d8222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:01 +0000
Subject: [PATCH 37/46] fix: whitespace, escaped backslashes and escaped
 hashtags in twig strings

---
 crates/ludtwig-parser/src/grammar/twig/literal.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/ludtwig-parser/src/grammar/twig/literal.rs b/crates/ludtwig-parser/src/grammar/twig/literal.rs
index 607e14a..4a6a1b6 100644
--- a/crates/ludtwig-parser/src/grammar/twig/literal.rs
+++ b/crates/ludtwig-parser/src/grammar/twig/literal.rs
@@ -98,11 +98,15 @@ pub(crate) fn parse_twig_string(
         parser,
         |p| p.at(quote_kind),
         |p| {
-            if p.at_following(&[T!["\\"], quote_kind]) {
-                // escaped quote should be consumed
+            // whitespace is part of the string, so only the directly following token counts here
+            let following_kind = p.peek_nth_token(1).map(|t| t.kind);
+            if p.at(T!["\\"])
+                && following_kind.is_some_and(|k| k == quote_kind || k == T!["\\"] || k == T!["#"])
+            {
+                // escaped quote, backslash or hashtag should be consumed
                 p.bump();
                 p.bump();
-            } else if p.at_following(&[T!["#"], T!["{"]]) {
+            } else if p.at(T!["#"]) && following_kind == Some(T!["{"]) {
                 if !interpolation_allowed {
                     let opening_token = p.bump();
                     let interpolation_error = ParseErrorBuilder::new(
-- 
2.43.0


From a8de6b2c6944c1bddaaf7d46720658369d0dbc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:19 +0000
Subject: [PATCH 38/46] fix: --fix gave up on a file that needs exactly ten
 rounds

---
 crates/ludtwig/src/process.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/ludtwig/src/process.rs b/crates/ludtwig/src/process.rs
index 42292d1..1d1397f 100644
--- a/crates/ludtwig/src/process.rs
+++ b/crates/ludtwig/src/process.rs
@@ -210,6 +210,10 @@ pub fn iteratively_apply_suggestions(
         crate::check::verif_trace::checked(&file_context, &check_results);
     }
 
+    if get_rule_context_suggestions(&check_results).is_empty() {
+        return Ok((file_context, check_results, dirty, 10));
+    }
+
     // suggestions still remain after max iterations
     Err(FileProcessingError::MaxApplyIteration)
 }
-- 
2.43.0


From d7213c5d25134994a85e368571bfe6b51ef68097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:25 +0000
Subject: [PATCH 39/46] fix: '#{' in a single quoted twig string is no
 interpolation and no syntax error

---
 crates/ludtwig-parser/src/grammar/twig/literal.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/crates/ludtwig-parser/src/grammar/twig/literal.rs b/crates/ludtwig-parser/src/grammar/twig/literal.rs
index 4a6a1b6..34e0cd8 100644
--- a/crates/ludtwig-parser/src/grammar/twig/literal.rs
+++ b/crates/ludtwig-parser/src/grammar/twig/literal.rs
@@ -82,16 +82,12 @@ fn parse_twig_number(parser: &mut Parser) -> CompletedMarker {
 
 pub(crate) fn parse_twig_string(
     parser: &mut Parser,
-    mut interpolation_allowed: bool,
+    interpolation_allowed: bool,
 ) -> CompletedMarker {
     debug_assert!(parser.at_set(&[T!["\""], T!["'"]]));
     let m = parser.start();
     let starting_quote_token = parser.bump();
     let quote_kind = starting_quote_token.kind;
-    interpolation_allowed = match quote_kind {
-        T!["\""] => interpolation_allowed,
-        _ => false, // interpolation only allowed in double quoted strings,
-    };
 
     let m_inner = parser.start();
     parse_many(
@@ -106,7 +102,7 @@ pub(crate) fn parse_twig_string(
                 // escaped quote, backslash or hashtag should be consumed
                 p.bump();
                 p.bump();
-            } else if p.at(T!["#"]) && following_kind == Some(T!["{"]) {
+            } else if quote_kind == T!["\""] && p.at(T!["#"]) && following_kind == Some(T!["{"]) {
                 if !interpolation_allowed {
                     let opening_token = p.bump();
                     let interpolation_error = ParseErrorBuilder::new(
-- 
2.43.0


From 66df46fc0c26acab3593f15b17332b58242f8232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:29 +0000
Subject: [PATCH 40/46] fix: missing operands, arguments and list elements of
 twig expressions were accepted silently

---
 .../src/grammar/twig/expression.rs             | 18 ++++++++++++++----
 .../ludtwig-parser/src/grammar/twig/literal.rs | 16 ++++++++++++----
 crates/ludtwig-parser/src/grammar/twig/tags.rs |  8 ++++++--
 3 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/crates/ludtwig-parser/src/grammar/twig/expression.rs b/crates/ludtwig-parser/src/grammar/twig/expression.rs
index c88f569..d754ec8 100644
--- a/crates/ludtwig-parser/src/grammar/twig/expression.rs
+++ b/crates/ludtwig-parser/src/grammar/twig/expression.rs
@@ -157,6 +157,13 @@ fn parse_twig_expression_binding_power(
     Some(lhs)
 }
 
+/// parses an expression that must not be missing
+fn expect_twig_expression_binding_power(parser: &mut Parser, minimum_binding_power: u8) {
+    if parse_twig_expression_binding_power(parser, minimum_binding_power).is_none() {
+        parser.add_error(ParseErrorBuilder::new("twig expression"));
+    }
+}
+
 pub(crate) fn parse_twig_expression_binding_power_rhs(
     parser: &mut Parser,
     minimum_binding_power: u8,
@@ -181,6 +188,7 @@ pub(crate) fn parse_twig_expression_binding_power_rhs(
         lhs = parser.complete(m, SyntaxKind::TWIG_BINARY_EXPRESSION);
 
         if !parsed_rhs {
+            parser.add_error(ParseErrorBuilder::new("twig expression"));
             break;
         }
     }
@@ -298,11 +306,11 @@ fn parse_paren_expression(parser: &mut Parser) -> (Marker, bool) {
             parse_twig_expression_binding_power_rhs(parser, 0, lhs);
         } else {
             // found a real expression, so it can't be a arrow function at this point anymore
-            parse_twig_expression_binding_power(parser, 0);
+            expect_twig_expression_binding_power(parser, 0);
         }
     } else {
         // found a real expression, so it can't be a arrow function at this point anymore
-        parse_twig_expression_binding_power(parser, 0);
+        expect_twig_expression_binding_power(parser, 0);
     }
 
     parser.expect(T![")"], TWIG_EXPRESSION_RECOVERY_SET);
@@ -318,7 +326,9 @@ fn parse_paren_arrow_function(parser: &mut Parser, m: Marker) -> CompletedMarker
         |p| p.at(T![")"]),
         |p| {
             p.expect(T![","], TWIG_EXPRESSION_RECOVERY_SET);
-            parse_twig_name(p);
+            if parse_twig_name(p).is_none() {
+                p.add_error(ParseErrorBuilder::new("argument name"));
+            }
         },
     );
 
@@ -339,7 +349,7 @@ fn parse_unary_expression(parser: &mut Parser) -> CompletedMarker {
         .unary_binding_power()
         .expect("'-', '+', 'not' and '...' should have a binding power");
 
-    parse_twig_expression_binding_power(parser, right_binding_power);
+    expect_twig_expression_binding_power(parser, right_binding_power);
 
     parser.complete(m, SyntaxKind::TWIG_UNARY_EXPRESSION)
 }
diff --git a/crates/ludtwig-parser/src/grammar/twig/literal.rs b/crates/ludtwig-parser/src/grammar/twig/literal.rs
index 34e0cd8..345cab8 100644
--- a/crates/ludtwig-parser/src/grammar/twig/literal.rs
+++ b/crates/ludtwig-parser/src/grammar/twig/literal.rs
@@ -150,7 +150,9 @@ fn parse_twig_array(parser: &mut Parser) -> CompletedMarker {
         parser,
         |p| p.at(T!["]"]),
         |p| {
-            parse_twig_expression(p);
+            if parse_twig_expression(p).is_none() && p.at(T![","]) {
+                p.add_error(ParseErrorBuilder::new("twig expression"));
+            }
 
             if p.at(T![","]) {
                 // consume separator
@@ -193,7 +195,9 @@ pub(crate) fn parse_twig_hash(parser: &mut Parser) -> CompletedMarker {
         parser,
         |p| p.at(T!["}"]),
         |p| {
-            parse_twig_hash_pair(p);
+            if parse_twig_hash_pair(p).is_none() && p.at(T![","]) {
+                p.add_error(ParseErrorBuilder::new("key value pair"));
+            }
 
             if p.at(T![","]) {
                 // consume separator
@@ -278,7 +282,9 @@ pub(crate) fn parse_twig_filter(
             parser,
             |p| p.at(T![")"]),
             |p| {
-                parse_twig_function_argument(p);
+                if parse_twig_function_argument(p).is_none() && p.at(T![","]) {
+                    p.add_error(ParseErrorBuilder::new("argument"));
+                }
                 if p.at(T![","]) {
                     p.bump();
                 } else if !p.at(T![")"]) {
@@ -400,7 +406,9 @@ pub(crate) fn parse_twig_function(
         parser,
         |p| p.at(T![")"]),
         |p| {
-            parse_twig_function_argument(p);
+            if parse_twig_function_argument(p).is_none() && p.at(T![","]) {
+                p.add_error(ParseErrorBuilder::new("argument"));
+            }
             if p.at(T![","]) {
                 p.bump();
             } else if !p.at(T![")"]) {
diff --git a/crates/ludtwig-parser/src/grammar/twig/tags.rs b/crates/ludtwig-parser/src/grammar/twig/tags.rs
index 4c6441e..b594f61 100644
--- a/crates/ludtwig-parser/src/grammar/twig/tags.rs
+++ b/crates/ludtwig-parser/src/grammar/twig/tags.rs
@@ -349,7 +349,9 @@ fn parse_twig_macro(
         parser,
         |p| p.at_set(&[T!["%}"], T!["-%}"], T!["~%}"], T![")"]]),
         |p| {
-            parse_twig_function_argument(p);
+            if parse_twig_function_argument(p).is_none() && p.at(T![","]) {
+                p.add_error(ParseErrorBuilder::new("argument"));
+            }
             if p.at(T![","]) {
                 p.bump();
             } else if !p.at_set(&[T!["%}"], T!["-%}"], T!["~%}"], T![")"]]) {
@@ -610,7 +612,9 @@ fn parse_twig_apply(
                 parser,
                 |p| p.at_set(&[T!["%}"], T!["-%}"], T!["~%}"], T![")"]]),
                 |p| {
-                    parse_twig_function_argument(p);
+                    if parse_twig_function_argument(p).is_none() && p.at(T![","]) {
+                        p.add_error(ParseErrorBuilder::new("argument"));
+                    }
                     if p.at(T![","]) {
                         p.bump();
                     } else if !p.at_set(&[T!["%}"], T!["-%}"], T!["~%}"], T![")"]]) {
-- 
2.43.0


From 2e1d3d1087d314213a81b1a2650198f208811708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:58 +0000
Subject: [PATCH 41/46] fix: unknown characters between the elements of twig
 lists, operands and filters were accepted silently

---
 crates/ludtwig-parser/src/grammar.rs          | 22 ++++++++++++++++---
 .../src/grammar/twig/expression.rs            |  4 ++--
 .../src/grammar/twig/literal.rs               | 12 +++++-----
 .../ludtwig-parser/src/grammar/twig/tags.rs   | 18 +++++++--------
 4 files changed, 36 insertions(+), 20 deletions(-)

diff --git a/crates/ludtwig-parser/src/grammar.rs b/crates/ludtwig-parser/src/grammar.rs
index de163ec..735a1ab 100644
--- a/crates/ludtwig-parser/src/grammar.rs
+++ b/crates/ludtwig-parser/src/grammar.rs
@@ -34,6 +34,24 @@ pub(super) fn root(parser: &mut Parser) -> CompletedMarker {
 }
 
 fn parse_many<'source, E, P>(
+    parser: &mut Parser<'source>,
+    early_exit_closure: E,
+    mut child_parser: P,
+) where
+    E: FnMut(&mut Parser<'source>) -> bool,
+    P: FnMut(&mut Parser<'source>),
+{
+    parse_many_known(parser, early_exit_closure, |p| {
+        if p.at(SyntaxKind::TK_UNKNOWN) {
+            p.bump(); // skip / ignore unknown tokens
+        } else {
+            child_parser(p);
+        }
+    });
+}
+
+/// Same as `parse_many` but unknown tokens have no meaning in between and are left to the child parser.
+fn parse_many_known<'source, E, P>(
     parser: &mut Parser<'source>,
     mut early_exit_closure: E,
     mut child_parser: P,
@@ -45,9 +63,7 @@ fn parse_many<'source, E, P>(
         // capture parser token position to prevent infinite loops!
         let parser_pos = parser.get_pos();
 
-        if parser.at(SyntaxKind::TK_UNKNOWN) {
-            parser.bump(); // skip / ignore unknown tokens
-        } else if parser.at_end() || early_exit_closure(parser) || {
+        if parser.at_end() || early_exit_closure(parser) || {
             child_parser(parser);
             parser.get_pos() == parser_pos
         } {
diff --git a/crates/ludtwig-parser/src/grammar/twig/expression.rs b/crates/ludtwig-parser/src/grammar/twig/expression.rs
index d754ec8..35a898f 100644
--- a/crates/ludtwig-parser/src/grammar/twig/expression.rs
+++ b/crates/ludtwig-parser/src/grammar/twig/expression.rs
@@ -1,5 +1,5 @@
 use crate::T;
-use crate::grammar::parse_many;
+use crate::grammar::parse_many_known;
 use crate::grammar::twig::literal::{
     parse_postfix_operators, parse_twig_arrow_function, parse_twig_function, parse_twig_literal,
     parse_twig_name,
@@ -321,7 +321,7 @@ fn parse_paren_arrow_function(parser: &mut Parser, m: Marker) -> CompletedMarker
     debug_assert!(parser.at(T![","]) || parser.at(T![")"]));
 
     // parse any remaining arguments
-    parse_many(
+    parse_many_known(
         parser,
         |p| p.at(T![")"]),
         |p| {
diff --git a/crates/ludtwig-parser/src/grammar/twig/literal.rs b/crates/ludtwig-parser/src/grammar/twig/literal.rs
index 345cab8..e5cfaf8 100644
--- a/crates/ludtwig-parser/src/grammar/twig/literal.rs
+++ b/crates/ludtwig-parser/src/grammar/twig/literal.rs
@@ -1,8 +1,8 @@
 use crate::T;
-use crate::grammar::parse_many;
 use crate::grammar::twig::expression::{
     TWIG_EXPRESSION_RECOVERY_SET, parse_twig_expression, parse_twig_test_argument,
 };
+use crate::grammar::{parse_many, parse_many_known};
 use crate::parser::event::CompletedMarker;
 use crate::parser::{ParseErrorBuilder, Parser};
 use crate::syntax::untyped::SyntaxKind;
@@ -55,7 +55,7 @@ pub(crate) fn parse_postfix_operators(
     parser: &mut Parser,
     mut node: CompletedMarker,
 ) -> CompletedMarker {
-    parse_many(
+    parse_many_known(
         parser,
         |_| false,
         |p| {
@@ -146,7 +146,7 @@ fn parse_twig_array(parser: &mut Parser) -> CompletedMarker {
 
     // parse any amount of array values
     let list_m = parser.start();
-    parse_many(
+    parse_many_known(
         parser,
         |p| p.at(T!["]"]),
         |p| {
@@ -191,7 +191,7 @@ pub(crate) fn parse_twig_hash(parser: &mut Parser) -> CompletedMarker {
 
     // parse any amount of hash pairs
     let list_m = parser.start();
-    parse_many(
+    parse_many_known(
         parser,
         |p| p.at(T!["}"]),
         |p| {
@@ -278,7 +278,7 @@ pub(crate) fn parse_twig_filter(
         // parse any amount of arguments
         let arguments_m = parser.start();
         parser.bump();
-        parse_many(
+        parse_many_known(
             parser,
             |p| p.at(T![")"]),
             |p| {
@@ -402,7 +402,7 @@ pub(crate) fn parse_twig_function(
     let arguments_m = parser.start();
     // bump the opening '('
     parser.bump();
-    parse_many(
+    parse_many_known(
         parser,
         |p| p.at(T![")"]),
         |p| {
diff --git a/crates/ludtwig-parser/src/grammar/twig/tags.rs b/crates/ludtwig-parser/src/grammar/twig/tags.rs
index b594f61..3028e10 100644
--- a/crates/ludtwig-parser/src/grammar/twig/tags.rs
+++ b/crates/ludtwig-parser/src/grammar/twig/tags.rs
@@ -7,7 +7,7 @@ use crate::grammar::twig::literal::{
     parse_twig_name, parse_twig_string,
 };
 use crate::grammar::twig::shopware::{BlockParseResult, parse_shopware_twig_block_statement};
-use crate::grammar::{ParseFunction, parse_many};
+use crate::grammar::{ParseFunction, parse_many, parse_many_known};
 use crate::parser::event::{CompletedMarker, Marker};
 use crate::parser::{ParseErrorBuilder, Parser, TWIG_BLOCK_CLOSE_SET, TWIG_BLOCK_OPEN_SET};
 use crate::syntax::untyped::SyntaxKind;
@@ -345,7 +345,7 @@ fn parse_twig_macro(
             T!["</"],
         ],
     );
-    parse_many(
+    parse_many_known(
         parser,
         |p| p.at_set(&[T!["%}"], T!["-%}"], T!["~%}"], T![")"]]),
         |p| {
@@ -608,7 +608,7 @@ fn parse_twig_apply(
             // parse any amount of arguments
             let arguments_m = parser.start();
             parser.bump();
-            parse_many(
+            parse_many_known(
                 parser,
                 |p| p.at_set(&[T!["%}"], T!["-%}"], T!["~%}"], T![")"]]),
                 |p| {
@@ -630,7 +630,7 @@ fn parse_twig_apply(
         }
 
         // parse any amount of piped filters
-        parse_many(parser, Parser::at_twig_block_close, |p| {
+        parse_many_known(parser, Parser::at_twig_block_close, |p| {
             if p.at(T!["|"]) {
                 node = parse_twig_filter(p, node.clone());
             }
@@ -717,7 +717,7 @@ fn parse_twig_from(parser: &mut Parser, outer: Marker) -> CompletedMarker {
     }
 
     let mut override_count = 0;
-    parse_many(parser, Parser::at_twig_block_close, |p| {
+    parse_many_known(parser, Parser::at_twig_block_close, |p| {
         override_count += 1;
         parse_name_as_name_override(p, "macro name");
         if p.at(T![","]) {
@@ -777,7 +777,7 @@ fn parse_twig_use(parser: &mut Parser, outer: Marker) -> CompletedMarker {
         parser.bump();
 
         let mut override_count = 0;
-        parse_many(parser, Parser::at_twig_block_close, |p| {
+        parse_many_known(parser, Parser::at_twig_block_close, |p| {
             override_count += 1;
             parse_name_as_name_override(p, "block name");
             if p.at(T![","]) {
@@ -1098,7 +1098,7 @@ fn parse_twig_set(
     // parse any amount of words seperated by comma
     let assignment_m = parser.start();
     let mut declaration_count = 0;
-    parse_many(
+    parse_many_known(
         parser,
         |p| p.at_set(&[T!["="], T!["%}"], T!["-%}"], T!["~%}"]]),
         |p| {
@@ -1126,7 +1126,7 @@ fn parse_twig_set(
         is_assigned_by_equal = true;
 
         let mut assignment_count = 0;
-        parse_many(parser, Parser::at_twig_block_close, |p| {
+        parse_many_known(parser, Parser::at_twig_block_close, |p| {
             if parse_twig_expression(p).is_some() {
                 assignment_count += 1;
             } else {
@@ -1402,7 +1402,7 @@ fn parse_twig_props(parser: &mut Parser, outer: Marker) -> CompletedMarker {
     debug_assert!(parser.at(T!["props"]));
     parser.bump();
 
-    parse_many(
+    parse_many_known(
         parser,
         |p| p.at_set(&[T!["%}"], T!["-%}"], T!["~%}"], T![","], T!["="], T!["</"]]),
         |p| {
-- 
2.43.0


From 5a3b07ef268dac725795cb178ddab53bcc87fe20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:58 +0000
Subject: [PATCH 42/46] fix: branches behind the else of an if were accepted
 silently

---
 crates/ludtwig-parser/src/grammar/twig/tags.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/ludtwig-parser/src/grammar/twig/tags.rs b/crates/ludtwig-parser/src/grammar/twig/tags.rs
index 3028e10..0232db8 100644
--- a/crates/ludtwig-parser/src/grammar/twig/tags.rs
+++ b/crates/ludtwig-parser/src/grammar/twig/tags.rs
@@ -1295,6 +1295,7 @@ fn parse_twig_if(
     let wrapper_m = parser.precede(wrapper_m);
 
     // parse branches
+    let mut had_else = false;
     loop {
         // parse body (all the children)
         let body_m = parser.start();
@@ -1315,6 +1316,11 @@ fn parse_twig_if(
             break; // no more branches
         }
 
+        if had_else && (parser.at_twig_tag(T!["elseif"]) || parser.at_twig_tag(T!["else"])) {
+            // else has to be the last branch
+            parser.add_error(ParseErrorBuilder::new("{% endif"));
+        }
+
         // parse next branch header
         if parser.at_twig_tag(T!["elseif"]) {
             let branch_m = parser.start();
@@ -1338,6 +1344,7 @@ fn parse_twig_if(
                 &[T!["endif"], T!["%}"], T!["-%}"], T!["~%}"], T!["</"]],
             );
             parser.complete(branch_m, SyntaxKind::TWIG_ELSE_BLOCK);
+            had_else = true;
         } else {
             // not an actual branch found, the child parser has ended
             break;
-- 
2.43.0


From 08adecd93932b226f1cf2897beaef28bf0a298e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:26 +0000
Subject: [PATCH 43/46] fix: a second else in a for inside of an attribute
 value ended the value

---
 crates/ludtwig-parser/src/grammar/twig/tags.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/ludtwig-parser/src/grammar/twig/tags.rs b/crates/ludtwig-parser/src/grammar/twig/tags.rs
index 0232db8..8de4675 100644
--- a/crates/ludtwig-parser/src/grammar/twig/tags.rs
+++ b/crates/ludtwig-parser/src/grammar/twig/tags.rs
@@ -1052,7 +1052,14 @@ fn parse_twig_for(
     parser.complete(body_m, SyntaxKind::BODY);
 
     // check for else block
-    if parser.at_twig_tag(T!["else"]) {
+    let mut had_else = false;
+    while parser.at_twig_tag(T!["else"]) {
+        if had_else {
+            // else has to be the last branch
+            parser.add_error(ParseErrorBuilder::new("{% endfor"));
+        }
+        had_else = true;
+
         let else_m = parser.start();
         parser.bump();
         parser.bump();
@@ -1062,11 +1069,11 @@ fn parse_twig_for(
         );
         parser.complete(else_m, SyntaxKind::TWIG_FOR_ELSE_BLOCK);
 
-        // parse all the children except endfor
+        // parse all the children except else or endfor
         let body_m = parser.start();
         parse_many(
             parser,
-            |p| p.at_twig_tag(T!["endfor"]),
+            |p| p.at_twig_tag(T!["endfor"]) || p.at_twig_tag(T!["else"]),
             |p| {
                 child_parser(p);
             },
-- 
2.43.0


From cc5a3ce0a1576c76ee9a3986cf0d48da7c851c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:30 +0000
Subject: [PATCH 44/46] fix: greater and less than signs inside of attribute
 values were syntax errors

---
 crates/ludtwig-parser/src/grammar/html.rs | 64 ++++++++++++++++++-----
 1 file changed, 52 insertions(+), 12 deletions(-)

diff --git a/crates/ludtwig-parser/src/grammar/html.rs b/crates/ludtwig-parser/src/grammar/html.rs
index bb629e0..4e4d59b 100644
--- a/crates/ludtwig-parser/src/grammar/html.rs
+++ b/crates/ludtwig-parser/src/grammar/html.rs
@@ -1,8 +1,12 @@
 use crate::T;
 use crate::grammar::twig::{at_twig_termination_tag, parse_any_twig, parse_twig_var_statement};
 use crate::grammar::{ParseFunction, parse_any_element, parse_ludtwig_directive, parse_many};
+use crate::lexer::Token;
 use crate::parser::event::{CompletedMarker, Marker};
-use crate::parser::{GENERAL_RECOVERY_SET, ParseErrorBuilder, Parser};
+use crate::parser::{
+    GENERAL_RECOVERY_SET, ParseErrorBuilder, Parser, TWIG_BLOCK_CLOSE_SET, TWIG_COMMENT_CLOSE_SET,
+    TWIG_VAR_CLOSE_SET,
+};
 use crate::syntax::untyped::SyntaxKind;
 use regex::Regex;
 use std::sync::LazyLock;
@@ -53,14 +57,17 @@ fn parse_html_doctype(parser: &mut Parser) -> CompletedMarker {
     parser.complete(m, SyntaxKind::HTML_DOCTYPE)
 }
 
-fn parse_html_text(parser: &mut Parser) -> Option<CompletedMarker> {
-    fn parser_at_less_than_non_word(p: &mut Parser) -> bool {
-        p.at(T!["<"])
-            && p.peek_nth_token(1).is_none_or(|t| {
-                t.kind == T![ws] || t.kind == T![number] || GENERAL_RECOVERY_SET.contains(&t.kind)
-            })
-    }
+fn is_non_word_after_less_than(token: Option<&Token>) -> bool {
+    token.is_none_or(|t| {
+        t.kind == T![ws] || t.kind == T![number] || GENERAL_RECOVERY_SET.contains(&t.kind)
+    })
+}
 
+fn parser_at_less_than_non_word(p: &mut Parser) -> bool {
+    p.at(T!["<"]) && is_non_word_after_less_than(p.peek_nth_token(1))
+}
+
+fn parse_html_text(parser: &mut Parser) -> Option<CompletedMarker> {
     if parser.at_end()
         || parser.at_set(&[T!["</"]])
         || (parser.at_set(GENERAL_RECOVERY_SET) && !parser_at_less_than_non_word(parser))
@@ -336,7 +343,7 @@ fn parse_html_attribute_value_string(parser: &mut Parser) -> CompletedMarker {
 
                 at_twig_termination_tag(p)
             },
-            |p| child_parser(p, inner_double_quote_parser),
+            |p| child_parser(p, inner_double_quote_parser, T!["\""]),
         );
         None
     }
@@ -351,7 +358,7 @@ fn parse_html_attribute_value_string(parser: &mut Parser) -> CompletedMarker {
 
                 at_twig_termination_tag(p)
             },
-            |p| child_parser(p, inner_single_quote_parser),
+            |p| child_parser(p, inner_single_quote_parser, T!["'"]),
         );
         None
     }
@@ -370,9 +377,16 @@ fn parse_html_attribute_value_string(parser: &mut Parser) -> CompletedMarker {
         None
     }
 
-    fn child_parser(p: &mut Parser, inner_twig_child_parser: ParseFunction) {
+    fn child_parser(
+        p: &mut Parser,
+        inner_twig_child_parser: ParseFunction,
+        quote_kind: SyntaxKind,
+    ) {
         if parse_any_twig(p, inner_twig_child_parser).is_none() {
-            if p.at_set(&[T![">"], T!["/>"]]) || p.at_set(GENERAL_RECOVERY_SET) || p.at_end() {
+            if p.at_end()
+                || (p.at_set(&[T![">"], T!["/>"]]) && !closing_quote_follows(p, quote_kind))
+                || (p.at_set(GENERAL_RECOVERY_SET) && !parser_at_less_than_non_word(p))
+            {
                 return;
             }
 
@@ -380,6 +394,32 @@ fn parse_html_attribute_value_string(parser: &mut Parser) -> CompletedMarker {
         }
     }
 
+    /// Otherwise the `>` most likely ends the starting tag and the closing quote is missing
+    fn closing_quote_follows(p: &mut Parser, quote_kind: SyntaxKind) -> bool {
+        let mut in_twig = false;
+        for n in 1.. {
+            let Some(kind) = p.peek_nth_token(n).map(|t| t.kind) else {
+                break;
+            };
+            if in_twig {
+                in_twig = !(TWIG_BLOCK_CLOSE_SET.contains(&kind)
+                    || TWIG_VAR_CLOSE_SET.contains(&kind)
+                    || TWIG_COMMENT_CLOSE_SET.contains(&kind));
+            } else if kind == quote_kind {
+                return true;
+            } else if kind == T!["<"] {
+                if !is_non_word_after_less_than(p.peek_nth_token(n + 1)) {
+                    break;
+                }
+            } else if [T!["</"], T!["<!"], T!["<!--"]].contains(&kind) {
+                break;
+            } else {
+                in_twig = GENERAL_RECOVERY_SET.contains(&kind);
+            }
+        }
+        false
+    }
+
     let m = parser.start();
     let quote_kind = if parser.at_set(&[T!["\""], T!["'"]]) {
         let starting_quote_token = parser.bump();
-- 
2.43.0


From 437d8fb9352a544a22de224f8ed475286a005785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:30 +0000
Subject: [PATCH 45/46] fix: an unknown twig tag inside of a starting tag ended
 the starting tag

---
 crates/ludtwig-parser/src/grammar/html.rs | 31 ++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/crates/ludtwig-parser/src/grammar/html.rs b/crates/ludtwig-parser/src/grammar/html.rs
index 4e4d59b..5b57bb2 100644
--- a/crates/ludtwig-parser/src/grammar/html.rs
+++ b/crates/ludtwig-parser/src/grammar/html.rs
@@ -315,7 +315,18 @@ fn parse_html_attribute_or_twig(parser: &mut Parser) -> Option<CompletedMarker>
         } else {
             // parse any twig block / comment syntax where its children can only be html attributes (this parser)
             // this structure itself doesn't count as an HTML_ATTRIBUTE node
-            return parse_any_twig(parser, parse_html_attribute_or_twig);
+            let at_block = parser.at_twig_block_open();
+            let twig_m = parse_any_twig(parser, parse_html_attribute_or_twig);
+            if at_block && twig_m.is_none() && twig_block_close_follows(parser) {
+                // only the unknown tag is malformed, more attributes may follow
+                let error_m = parser.start();
+                while !parser.at_twig_block_close() {
+                    parser.bump();
+                }
+                parser.bump();
+                parser.complete(error_m, SyntaxKind::ERROR);
+            }
+            return twig_m;
         }
     };
 
@@ -328,6 +339,24 @@ fn parse_html_attribute_or_twig(parser: &mut Parser) -> Option<CompletedMarker>
     Some(parser.complete(attribute_m, SyntaxKind::HTML_ATTRIBUTE))
 }
 
+/// Is there an end of the twig block before the end of the starting tag?
+fn twig_block_close_follows(parser: &mut Parser) -> bool {
+    let mut next_kind = parser.peek_token().map(|t| t.kind);
+    for n in 1.. {
+        let Some(kind) = next_kind else {
+            break;
+        };
+        if TWIG_BLOCK_CLOSE_SET.contains(&kind) {
+            return true;
+        }
+        if [T![">"], T!["/>"]].contains(&kind) || GENERAL_RECOVERY_SET.contains(&kind) {
+            break;
+        }
+        next_kind = parser.peek_nth_token(n).map(|t| t.kind);
+    }
+    false
+}
+
 /// html attribute value can be either a single word or twig var expression or
 /// a single / double quoted string (which can contain arbitrary twig syntax)
 /// In either case it will be wrapped into an `HTML_STRING` node which may or may
-- 
2.43.0


From 2680f957694652a9130f6f64d75636ab97b6d02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:47 +0000
Subject: [PATCH 46/46] fix: range without leading trivia of nodes whose trivia
 belongs to a child node

---
 crates/ludtwig-parser/src/syntax/untyped.rs | 22 ++++++++-------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/crates/ludtwig-parser/src/syntax/untyped.rs b/crates/ludtwig-parser/src/syntax/untyped.rs
index 9316978..9b3432e 100644
--- a/crates/ludtwig-parser/src/syntax/untyped.rs
+++ b/crates/ludtwig-parser/src/syntax/untyped.rs
@@ -994,20 +994,14 @@ pub trait SyntaxNodeExt {
 impl SyntaxNodeExt for SyntaxNode {
     /// Trims leading trivia from the original `text_range`
     fn text_range_trimmed_trivia(&self) -> TextRange {
-        let mut range = self.text_range();
+        let range = self.text_range();
 
-        for element in self.children_with_tokens() {
-            match element {
-                SyntaxElement::Token(t) if t.kind().is_trivia() => {
-                    let new_start = range.start() + t.text_range().len();
-                    if new_start < range.end() {
-                        range = TextRange::new(new_start, range.end());
-                    }
-                }
-                _ => return range,
-            }
-        }
-
-        range
+        // the trivia can belong to the first child nodes as well
+        self.descendants_with_tokens()
+            .filter_map(SyntaxElement::into_token)
+            .find(|t| !t.kind().is_trivia())
+            .map_or(range, |t| {
+                TextRange::new(t.text_range().start(), range.end())
+            })
     }
 }
-- 
2.43.0

