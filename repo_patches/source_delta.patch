From e0c212ac31a0597c6e00cca972c41f9611ffa238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:11 +0000
Subject: [PATCH 01/78] verif hooks: step fuel, story seed and virtual clock
 behind cfg(bladeink_verif)

---
 runtime/src/lib.rs            |  4 +++
 runtime/src/story/progress.rs | 14 ++++++++
 runtime/src/story_state.rs    |  2 ++
 runtime/src/verif_hooks.rs    | 68 +++++++++++++++++++++++++++++++++++
 4 files changed, 88 insertions(+)
 create mode 100644 runtime/src/verif_hooks.rs

diff --git a/runtime/src/lib.rs b/runtime/src/lib.rs
index 3c0587d..77a3e61 100644
--- a/runtime/src/lib.rs
+++ b/runtime/src/lib.rs
@@ -45,6 +45,8 @@
 //! all the examples can be found in the `runtime/tests` folder in the source code
 //! of this crate.
 
+#![allow(unexpected_cfgs)]
+
 mod callstack;
 pub mod choice;
 mod choice_point;
@@ -74,4 +76,6 @@ pub mod value_type;
 mod variable_assigment;
 mod variable_reference;
 mod variables_state;
+#[cfg(bladeink_verif)]
+pub mod verif_hooks;
 mod void;
diff --git a/runtime/src/story/progress.rs b/runtime/src/story/progress.rs
index 5c5ca7d..2188e54 100644
--- a/runtime/src/story/progress.rs
+++ b/runtime/src/story/progress.rs
@@ -106,6 +106,9 @@ impl Story {
         let mut output_stream_ends_in_newline = false;
         self.saw_lookahead_unsafe_function_after_new_line = false;
 
+        #[cfg(bladeink_verif)]
+        let first_step = crate::verif_hooks::steps_taken();
+
         loop {
             match self.continue_single_step() {
                 Ok(r) => output_stream_ends_in_newline = r,
@@ -119,6 +122,14 @@ impl Story {
                 break;
             }
 
+            // Virtual clock of the verification hooks
+            #[cfg(bladeink_verif)]
+            let millisecs_limit_async = match crate::verif_hooks::slice_steps() {
+                Some(budget) if crate::verif_hooks::steps_taken() - first_step >= budget => -1.0,
+                Some(_) => f32::INFINITY,
+                None => millisecs_limit_async,
+            };
+
             // Run out of async time?
             if self.async_continue_active
                 && duration_stopwatch.as_ref().unwrap().elapsed().as_millis() as f32
@@ -344,6 +355,9 @@ impl Story {
     pub(crate) fn step(&mut self) -> Result<(), StoryError> {
         let mut should_add_to_stream = true;
 
+        #[cfg(bladeink_verif)]
+        crate::verif_hooks::tick()?;
+
         // Get current content
         let mut pointer = self.get_state().get_current_pointer().clone();
 
diff --git a/runtime/src/story_state.rs b/runtime/src/story_state.rs
index b9886d1..d2526f8 100644
--- a/runtime/src/story_state.rs
+++ b/runtime/src/story_state.rs
@@ -66,6 +66,8 @@ impl StoryState {
 
         let mut rng = rand::rng();
         let story_seed = rng.random_range(0..100);
+        #[cfg(bladeink_verif)]
+        let story_seed = crate::verif_hooks::story_seed().unwrap_or(story_seed);
 
         let state = StoryState {
             current_flow,
diff --git a/runtime/src/verif_hooks.rs b/runtime/src/verif_hooks.rs
new file mode 100644
index 0000000..dfafb0f
--- /dev/null
+++ b/runtime/src/verif_hooks.rs
@@ -0,0 +1,68 @@
+//! Verification hooks. This module and everything that refers to it is only
+//! compiled with `--cfg bladeink_verif`; normal builds never see it.
+//!
+//! All controls are thread-local, because a `Story` never leaves its thread.
+use std::cell::Cell;
+
+use crate::story_error::StoryError;
+
+/// Message of the error raised by an exhausted step-fuel limit.
+pub const OUT_OF_FUEL: &str = "verif-hooks: out of step fuel";
+
+thread_local! {
+    static FUEL: Cell<Option<u64>> = const { Cell::new(None) };
+    static STEPS: Cell<u64> = const { Cell::new(0) };
+    static EXHAUSTED: Cell<bool> = const { Cell::new(false) };
+    static SEED: Cell<Option<i32>> = const { Cell::new(None) };
+    static SLICE: Cell<Option<u64>> = const { Cell::new(None) };
+}
+
+/// Limits the number of interpreter steps this thread may still take.
+pub fn set_fuel(fuel: Option<u64>) {
+    FUEL.with(|f| f.set(fuel));
+    EXHAUSTED.with(|e| e.set(false));
+}
+
+/// Whether the step-fuel limit was hit since the last `set_fuel`.
+pub fn fuel_exhausted() -> bool {
+    EXHAUSTED.with(|e| e.get())
+}
+
+/// Number of interpreter steps taken on this thread so far.
+pub fn steps_taken() -> u64 {
+    STEPS.with(|s| s.get())
+}
+
+/// Fixes the seed of every story state created on this thread from now on.
+pub fn set_story_seed(seed: Option<i32>) {
+    SEED.with(|s| s.set(seed));
+}
+
+/// Virtual clock: with `Some(n)`, a time-limited continue pauses after `n`
+/// interpreter steps, whatever the wall clock says.
+pub fn set_slice_steps(steps: Option<u64>) {
+    SLICE.with(|s| s.set(steps));
+}
+
+pub(crate) fn story_seed() -> Option<i32> {
+    SEED.with(|s| s.get())
+}
+
+pub(crate) fn slice_steps() -> Option<u64> {
+    SLICE.with(|s| s.get())
+}
+
+pub(crate) fn tick() -> Result<(), StoryError> {
+    STEPS.with(|s| s.set(s.get() + 1));
+    match FUEL.with(|f| f.get()) {
+        None => Ok(()),
+        Some(0) => {
+            EXHAUSTED.with(|e| e.set(true));
+            Err(StoryError::InvalidStoryState(OUT_OF_FUEL.to_owned()))
+        }
+        Some(n) => {
+            FUEL.with(|f| f.set(Some(n - 1)));
+            Ok(())
+        }
+    }
+}
-- 
2.43.0


From fc65cee51053110358b4d5a84fedf2822c20f0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:01 +0000
Subject: [PATCH 02/78] fix: compile nested blocks inside sequence and switch
 branches at the right content index

---
 compiler/src/emitter/conditional.rs | 6 ++++--
 compiler/src/emitter/context.rs     | 6 ++++++
 compiler/src/emitter/expression.rs  | 6 ++++--
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/compiler/src/emitter/conditional.rs b/compiler/src/emitter/conditional.rs
index c7ce76c..73d7102 100644
--- a/compiler/src/emitter/conditional.rs
+++ b/compiler/src/emitter/conditional.rs
@@ -234,8 +234,10 @@ fn emit_switch_conditional(
     let mut branch_bodies: Vec<EmittedContainer> = Vec::new();
     for (branch_index, (_, body_nodes)) in branches.iter().enumerate() {
         let branch_array_index = switch_index + preamble_len + branch_index;
-        let branch_scope =
-            scope.conditional_branch(&format!("{branch_array_index}.b"));
+        // The body starts with "pop", which shifts the content emitted below by one.
+        let branch_scope = scope
+            .conditional_branch(&format!("{branch_array_index}.b"))
+            .with_content_offset(1);
         let mut body = emit_nodes(body_nodes, &branch_scope, context)?;
         body.push(json!({"->": exit_target}));
         branch_bodies.push(body);
diff --git a/compiler/src/emitter/context.rs b/compiler/src/emitter/context.rs
index f0d2f10..aa11301 100644
--- a/compiler/src/emitter/context.rs
+++ b/compiler/src/emitter/context.rs
@@ -475,6 +475,12 @@ impl EmitScope {
         self.choice_branch(branch_name)
     }
 
+    /// The same scope for a container that starts with `offset` extra tokens.
+    fn with_content_offset(mut self, offset: usize) -> Self {
+        self.param_offset = offset;
+        self
+    }
+
     fn with_choice_labels(&self, labels: BTreeMap<String, String>) -> Self {
         // Merge: start with existing labels and overlay the new ones
         let mut merged = self.choice_label_targets.clone();
diff --git a/compiler/src/emitter/expression.rs b/compiler/src/emitter/expression.rs
index 6a4020a..c3e9b26 100644
--- a/compiler/src/emitter/expression.rs
+++ b/compiler/src/emitter/expression.rs
@@ -79,8 +79,10 @@ fn emit_sequence(
 
     let mut named = Map::new();
     for (index, branch) in sequence.branches.iter().enumerate() {
-        let branch_scope =
-            scope.at_path(joined_path(&sequence_path, format!("s{index}")));
+        // The branch starts with "pop", which shifts the content emitted below by one.
+        let branch_scope = scope
+            .at_path(joined_path(&sequence_path, format!("s{index}")))
+            .with_content_offset(1);
         let mut branch_container = emit_nodes(branch, &branch_scope, context)?;
         branch_container.content.insert(0, json!("pop"));
         branch_container.push(json!({"->": joined_path(&sequence_path, rejoin_index)}));
-- 
2.43.0


From c62035f487a3874bfe72c4b195e90f6f0333a675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:31 +0000
Subject: [PATCH 03/78] fix: keep a plain choice's tags on the line it prints
 when chosen

---
 compiler/src/parser/choice.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/src/parser/choice.rs b/compiler/src/parser/choice.rs
index b3bfad4..44e18d8 100644
--- a/compiler/src/parser/choice.rs
+++ b/compiler/src/parser/choice.rs
@@ -498,8 +498,8 @@ pub fn parse_choice_text(input: &str) -> Result<ParsedChoiceText, CompilerError>
         has_choice_only_content: false,
         inline_target,
         inline_body_nodes: Vec::new(),
-        start_tags,
+        start_tags: start_tags.clone(),
         choice_only_tags: Vec::new(),
-        selected_tags: Vec::new(),
+        selected_tags: start_tags,
     })
 }
-- 
2.43.0


From 64ab43906c58360be925f62b31e3b7d6a4ae6c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:55 +0000
Subject: [PATCH 04/78] fix: resolve list items in global initial values

---
 compiler/src/emitter/context.rs    | 2 +-
 compiler/src/emitter/expression.rs | 4 ----
 compiler/src/emitter/flow.rs       | 8 +++++++-
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/compiler/src/emitter/context.rs b/compiler/src/emitter/context.rs
index aa11301..fb911ef 100644
--- a/compiler/src/emitter/context.rs
+++ b/compiler/src/emitter/context.rs
@@ -40,7 +40,7 @@ pub fn story_to_json_value(
     if !story.globals().is_empty() || !story.list_declarations().is_empty() {
         named_content.insert(
             "global decl".to_owned(),
-            emit_global_declarations(story.globals(), story.list_declarations())?
+            emit_global_declarations(story.globals(), story.list_declarations(), &context)?
                 .into_json_array(None, None)?,
         );
     }
diff --git a/compiler/src/emitter/expression.rs b/compiler/src/emitter/expression.rs
index c3e9b26..615ce7f 100644
--- a/compiler/src/emitter/expression.rs
+++ b/compiler/src/emitter/expression.rs
@@ -223,10 +223,6 @@ fn emit_assignment(
     }
 }
 
-fn emit_expression(expression: &Expression, out: &mut Vec<Value>) {
-    emit_expression_ctx(expression, out, None, None);
-}
-
 fn emit_expression_ctx(
     expression: &Expression,
     out: &mut Vec<Value>,
diff --git a/compiler/src/emitter/flow.rs b/compiler/src/emitter/flow.rs
index 801e490..b58ffff 100644
--- a/compiler/src/emitter/flow.rs
+++ b/compiler/src/emitter/flow.rs
@@ -1,6 +1,7 @@
 fn emit_global_declarations(
     globals: &[GlobalVariable],
     list_decls: &[ListDeclaration],
+    context: &EmitContext,
 ) -> Result<EmittedContainer, CompilerError> {
     let mut container = EmittedContainer::default();
     container.push(json!("ev"));
@@ -26,7 +27,12 @@ fn emit_global_declarations(
     }
 
     for global in globals {
-        emit_expression(&global.initial_value, &mut container.content);
+        emit_expression_ctx(
+            &global.initial_value,
+            &mut container.content,
+            Some(context),
+            None,
+        );
         container.push(json!({ "VAR=": global.name }));
     }
 
-- 
2.43.0


From f0f57332198774dfd486de0f66b82eb4aa3807d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:33 +0000
Subject: [PATCH 05/78] fix: resolve constants in choice text, strings, tags
 and divert arguments

---
 compiler/src/emitter/context.rs    |  4 ++++
 compiler/src/emitter/expression.rs | 13 +++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/compiler/src/emitter/context.rs b/compiler/src/emitter/context.rs
index fb911ef..91e619e 100644
--- a/compiler/src/emitter/context.rs
+++ b/compiler/src/emitter/context.rs
@@ -119,6 +119,9 @@ struct EmitContext {
     /// Unqualified flow/stitch target names mapped to their absolute path
     /// when the name is unique across the story.
     unqualified_flow_targets: BTreeMap<String, String>,
+    /// CONST values, for references inside text that is only parsed when it is
+    /// emitted (choice text, tags, strings).
+    consts: std::collections::HashMap<String, Expression>,
 }
 
 fn register_unqualified_flow_target(
@@ -379,6 +382,7 @@ impl EmitContext {
             qualified_choice_labels,
             function_ref_param_positions,
             unqualified_flow_targets,
+            consts: story.consts.clone(),
         }
     }
 
diff --git a/compiler/src/emitter/expression.rs b/compiler/src/emitter/expression.rs
index 615ce7f..62700d0 100644
--- a/compiler/src/emitter/expression.rs
+++ b/compiler/src/emitter/expression.rs
@@ -283,6 +283,19 @@ fn emit_expression_ctx(
             }
             out.push(json!("/str"));
         }
+        Expression::Variable(name)
+            if context.is_some_and(|ctx| ctx.consts.contains_key(name)) =>
+        {
+            match context.map(|ctx| &ctx.consts[name]) {
+                Some(value @ (Expression::ListItems(_) | Expression::DivertTarget(_))) => {
+                    emit_expression_ctx(value, out, context, scope)
+                }
+                // Without context, so a constant that mentions itself is not
+                // expanded over and over.
+                Some(value) => emit_expression_ctx(value, out, None, None),
+                None => {}
+            }
+        }
         Expression::Variable(name) => {
             if let Some(path) = scope.and_then(|s| s.resolve_choice_label(name)) {
                 out.push(json!({"CNT?": path}))
-- 
2.43.0


From 2601ff02373a678d7b307405475b4f2343d9495b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:16 +0000
Subject: [PATCH 06/78] fix: count turns for targets mentioned in text, tags,
 alternatives and stored divert targets

---
 compiler/src/emitter/conditional.rs |  4 +-
 compiler/src/emitter/context.rs     | 63 +++++++++++++++++++++++++++++
 2 files changed, 66 insertions(+), 1 deletion(-)

diff --git a/compiler/src/emitter/conditional.rs b/compiler/src/emitter/conditional.rs
index 73d7102..640b360 100644
--- a/compiler/src/emitter/conditional.rs
+++ b/compiler/src/emitter/conditional.rs
@@ -76,7 +76,9 @@ fn node_is_terminal(node: &Node) -> bool {
 fn recover_selected_text_inline_divert(selected_text: &str) -> Option<(String, String)> {
     let (text, target) = selected_text.rsplit_once("->")?;
     let target = target.trim();
-    if target.is_empty() || target.contains(' ') {
+    // An arrow inside braces or parentheses belongs to an expression such as
+    // `{TURNS_SINCE(-> knot)}`.
+    if target.is_empty() || target.contains([' ', ')', '}']) {
         return None;
     }
 
diff --git a/compiler/src/emitter/context.rs b/compiler/src/emitter/context.rs
index 91e619e..fe2e1bc 100644
--- a/compiler/src/emitter/context.rs
+++ b/compiler/src/emitter/context.rs
@@ -234,8 +234,38 @@ fn collect_flow_count_flags_from_nodes(nodes: &[Node], targets: &mut BTreeMap<St
                         collect_flow_count_flags_from_expr(e, targets);
                     }
                 }
+                for text in [&choice.start_text, &choice.choice_only_text]
+                    .into_iter()
+                    .chain(&choice.selected_text)
+                {
+                    collect_flow_count_flags_from_text(text, targets);
+                }
+                for tag in choice
+                    .start_tags
+                    .iter()
+                    .chain(&choice.choice_only_tags)
+                    .chain(&choice.selected_tags)
+                {
+                    collect_flow_count_flags_from_string(tag, targets);
+                }
                 collect_flow_count_flags_from_nodes(&choice.body, targets);
             }
+            Node::Tag(tag) => collect_flow_count_flags_from_string(tag, targets),
+            Node::Sequence(sequence) => {
+                for branch in &sequence.branches {
+                    collect_flow_count_flags_from_nodes(branch, targets);
+                }
+            }
+            Node::Divert(divert) | Node::ThreadDivert(divert) => {
+                for arg in &divert.arguments {
+                    collect_flow_count_flags_from_expr(arg, targets);
+                }
+            }
+            Node::TunnelDivert { args, .. } | Node::TunnelOnwardsWithTarget { args, .. } => {
+                for arg in args {
+                    collect_flow_count_flags_from_expr(arg, targets);
+                }
+            }
             Node::Conditional {
                 condition,
                 when_true,
@@ -278,6 +308,31 @@ fn collect_flow_count_flags_from_nodes(nodes: &[Node], targets: &mut BTreeMap<St
     }
 }
 
+fn collect_flow_count_flags_from_text(text: &str, targets: &mut BTreeMap<String, i32>) {
+    if let Ok(parsed) = parse_dynamic_string(text) {
+        collect_flow_count_flags_from_string(&parsed, targets);
+    }
+}
+
+fn collect_flow_count_flags_from_string(
+    string: &DynamicString,
+    targets: &mut BTreeMap<String, i32>,
+) {
+    for part in &string.parts {
+        match part {
+            DynamicStringPart::Text(_) => {}
+            DynamicStringPart::Expression(expr) => {
+                collect_flow_count_flags_from_expr(expr, targets);
+            }
+            DynamicStringPart::Sequence(sequence) => {
+                for branch in &sequence.branches {
+                    collect_flow_count_flags_from_nodes(branch, targets);
+                }
+            }
+        }
+    }
+}
+
 fn collect_flow_count_flags_from_expr(expr: &Expression, targets: &mut BTreeMap<String, i32>) {
     match expr {
         Expression::FunctionCall { name, args } => {
@@ -307,6 +362,11 @@ fn collect_flow_count_flags_from_expr(expr: &Expression, targets: &mut BTreeMap<
             collect_flow_count_flags_from_expr(left, targets);
             collect_flow_count_flags_from_expr(right, targets);
         }
+        Expression::Str(text) => collect_flow_count_flags_from_text(text, targets),
+        // A target that is stored or passed on may reach TURNS_SINCE or READ_COUNT later.
+        Expression::DivertTarget(target) => {
+            add_flow_count_flags(targets, target, COUNT_VISITS | COUNT_TURNS);
+        }
         _ => {}
     }
 }
@@ -327,6 +387,9 @@ impl EmitContext {
         let mut raw_flow_count_flags = BTreeMap::new();
         collect_flow_count_flags_from_nodes(story.root(), &mut raw_flow_count_flags);
         collect_flow_count_flags_from_flows_into(story.flows(), &mut raw_flow_count_flags);
+        for global in story.globals() {
+            collect_flow_count_flags_from_expr(&global.initial_value, &mut raw_flow_count_flags);
+        }
         let mut flow_count_flags = BTreeMap::new();
         for (target, flags) in raw_flow_count_flags {
             // First try unqualified flow targets (knots/stitches)
-- 
2.43.0


From 60e335e7422072188bed38bcb44f88e288890a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:28 +0000
Subject: [PATCH 07/78] fix: parse expressions containing non-ASCII text by
 character

---
 compiler/src/parser/expression.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/compiler/src/parser/expression.rs b/compiler/src/parser/expression.rs
index 1280cbf..d865cc8 100644
--- a/compiler/src/parser/expression.rs
+++ b/compiler/src/parser/expression.rs
@@ -49,8 +49,8 @@ pub fn tokenize_expression(input: &str) -> Result<Vec<Token>, CompilerError> {
         }
 
         if ch == '-' && chars.get(index + 1) == Some(&'>') {
-            let rest = input[index + 2..].trim_start();
-            let parsed = parse_path_identifier(rest).ok_or_else(|| {
+            let rest: String = chars[index + 2..].iter().collect();
+            let parsed = parse_path_identifier(rest.trim_start()).ok_or_else(|| {
                 CompilerError::invalid_source("expected divert target after '->'".to_owned())
             })?;
             tokens.push(Token::DivertTarget(parsed.to_owned()));
@@ -179,16 +179,16 @@ pub fn tokenize_expression(input: &str) -> Result<Vec<Token>, CompilerError> {
                     }
                     index += 1;
                 }
-                let token_text = &input[start..index];
+                let token_text: String = chars[start..index].iter().collect();
                 if saw_identifier_tail {
-                    tokens.push(Token::Ident(token_text.to_owned()));
+                    tokens.push(Token::Ident(token_text));
                 } else if saw_dot {
-                    let value = input[start..index].parse::<f32>().map_err(|error| {
+                    let value = token_text.parse::<f32>().map_err(|error| {
                         CompilerError::invalid_source(format!("invalid float literal: {error}"))
                     })?;
                     tokens.push(Token::Float(value));
                 } else {
-                    let value = input[start..index].parse::<i32>().map_err(|error| {
+                    let value = token_text.parse::<i32>().map_err(|error| {
                         CompilerError::invalid_source(format!("invalid integer literal: {error}"))
                     })?;
                     tokens.push(Token::Int(value));
@@ -202,8 +202,8 @@ pub fn tokenize_expression(input: &str) -> Result<Vec<Token>, CompilerError> {
                 {
                     index += 1;
                 }
-                let ident = &input[start..index];
-                match ident {
+                let ident: String = chars[start..index].iter().collect();
+                match ident.as_str() {
                     "true" => tokens.push(Token::Bool(true)),
                     "false" => tokens.push(Token::Bool(false)),
                     "and" => tokens.push(Token::AndAnd),
@@ -211,7 +211,7 @@ pub fn tokenize_expression(input: &str) -> Result<Vec<Token>, CompilerError> {
                     "not" => tokens.push(Token::Bang),
                     "has" => tokens.push(Token::Has),
                     "hasnt" => tokens.push(Token::Hasnt),
-                    _ => tokens.push(Token::Ident(ident.to_owned())),
+                    _ => tokens.push(Token::Ident(ident)),
                 }
             }
             _ => {
@@ -294,9 +294,8 @@ pub fn split_top_level_commas(input: &str) -> Vec<&str> {
     let mut start = 0;
     let mut depth = 0;
     let mut in_string = false;
-    let chars: Vec<char> = input.chars().collect();
 
-    for (index, ch) in chars.iter().enumerate() {
+    for (index, ch) in input.char_indices() {
         match ch {
             '"' => in_string = !in_string,
             '(' if !in_string => depth += 1,
-- 
2.43.0


From e12e3592151f4c1e81036f34467bc94b76bcc981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:22 +0000
Subject: [PATCH 08/78] fix: find the colon that ends a condition outside
 nested braces and strings

---
 compiler/src/inline.rs             | 31 +++++++++++++++++++++++++++++-
 compiler/src/parser/conditional.rs | 16 +++++++++------
 2 files changed, 40 insertions(+), 7 deletions(-)

diff --git a/compiler/src/inline.rs b/compiler/src/inline.rs
index 218089f..e556a8e 100644
--- a/compiler/src/inline.rs
+++ b/compiler/src/inline.rs
@@ -491,6 +491,35 @@ pub fn find_matching_brace(content: &str, start: usize) -> Option<usize> {
     None
 }
 
+/// Splits `condition: rest` at the colon that ends the condition. A colon inside
+/// braces, parentheses or a string does not count, nor does one after a `|` that
+/// separates alternatives (`||` is an operator).
+pub fn split_condition_colon(input: &str) -> Option<(&str, &str)> {
+    let mut depth = 0usize;
+    let mut in_string = false;
+    let mut chars = input.char_indices().peekable();
+    while let Some((index, ch)) = chars.next() {
+        match ch {
+            '\\' => {
+                chars.next();
+            }
+            '"' if depth == 0 => in_string = !in_string,
+            '{' | '(' => depth += 1,
+            '}' | ')' => depth = depth.saturating_sub(1),
+            _ if depth > 0 || in_string => {}
+            '|' => {
+                if !matches!(chars.peek(), Some((_, '|'))) {
+                    return None;
+                }
+                chars.next();
+            }
+            ':' => return Some((&input[..index], &input[index + 1..])),
+            _ => {}
+        }
+    }
+    None
+}
+
 pub fn parse_inline_conditional(
     content: &str,
 ) -> Result<Option<(crate::ast::Condition, &str)>, CompilerError> {
@@ -500,7 +529,7 @@ pub fn parse_inline_conditional(
     }
 
     let inner = &trimmed[1..trimmed.len() - 1];
-    let (condition, branch) = match inner.split_once(':') {
+    let (condition, branch) = match split_condition_colon(inner) {
         Some(parts) => parts,
         None => return Ok(None),
     };
diff --git a/compiler/src/parser/conditional.rs b/compiler/src/parser/conditional.rs
index 830c9e7..549e247 100644
--- a/compiler/src/parser/conditional.rs
+++ b/compiler/src/parser/conditional.rs
@@ -6,11 +6,15 @@ use crate::{
 use super::{
     Line, ParsedStatement,
     expression::parse_expression,
-    inline::{parse_condition, parse_inline_conditional, tokenize_inline_content},
+    inline::{
+        parse_condition, parse_inline_conditional, split_condition_colon, tokenize_inline_content,
+    },
 };
 
 pub fn looks_like_conditional(content: &str) -> bool {
-    content.starts_with('{') && content.contains(':')
+    content
+        .strip_prefix('{')
+        .is_some_and(|inner| split_condition_colon(inner).is_some())
 }
 
 pub fn parse_conditional(
@@ -60,7 +64,7 @@ pub fn parse_conditional(
         .trim()
         .strip_prefix('{')
         .ok_or_else(|| CompilerError::invalid_source("expected conditional block".to_owned()))?;
-    let (condition_text, rest_after_colon) = header.split_once(':').ok_or_else(|| {
+    let (condition_text, rest_after_colon) = split_condition_colon(header).ok_or_else(|| {
         CompilerError::invalid_source("conditional block is missing ':'".to_owned())
     })?;
 
@@ -74,7 +78,7 @@ pub fn parse_conditional(
         {
             // Check that the branch looks like "- case_expr: body" (has a colon after stripping -)
             let branch_content = first_body.trim_start_matches('-').trim_start();
-            branch_content.contains(':') && !branch_content.starts_with("->")
+            split_condition_colon(branch_content).is_some() && !branch_content.starts_with("->")
         } else {
             false
         }
@@ -353,7 +357,7 @@ pub fn parse_multi_branch_conditional(
                 continue;
             }
 
-            let (condition, rest) = match header.split_once(':') {
+            let (condition, rest) = match split_condition_colon(header) {
                 Some(pair) => pair,
                 None => {
                     // Bare default branch: `- content` with no colon — treat as else
@@ -514,7 +518,7 @@ fn parse_switch_conditional(
                 continue;
             }
 
-            let (case_text, rest) = match header.split_once(':') {
+            let (case_text, rest) = match split_condition_colon(header) {
                 Some(pair) => pair,
                 None => {
                     // Bare default branch `- content` with no colon
-- 
2.43.0


From cbd49e2c4d3fc796f07e8b887a83fd4a84aebc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:10 +0000
Subject: [PATCH 09/78] fix: loose ends after a top-level gather end the story
 instead of running out of content

---
 compiler/src/emitter/choice_threaded.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/compiler/src/emitter/choice_threaded.rs b/compiler/src/emitter/choice_threaded.rs
index f0017e9..c0c60c3 100644
--- a/compiler/src/emitter/choice_threaded.rs
+++ b/compiler/src/emitter/choice_threaded.rs
@@ -104,8 +104,11 @@ fn emit_choice_block(
                 .any(|n| matches!(n, Node::Choice(_)));
             let g_n_path = format!("{}.{}", scope.path, name);
             let fallback_is_self = fallback_continuation == Some(g_n_path.as_str());
+            // This gather takes the place of the terminal one, so loose ends inside it
+            // need a terminal gather of their own.
+            let inner_terminal = joined_path(&g_n_path, "g-0");
             let inner_fallback = if fallback_is_self {
-                None
+                has_nested_choices_in_continuation.then_some(inner_terminal.as_str())
             } else {
                 fallback_continuation
             };
@@ -115,6 +118,15 @@ fn emit_choice_block(
                 context,
                 inner_fallback,
             )?;
+            if fallback_is_self
+                && has_nested_choices_in_continuation
+                && !gather_container.named.contains_key("g-0")
+            {
+                gather_container.insert_named(
+                    "g-0".to_owned(),
+                    Value::Array(vec![json!("done"), Value::Null]),
+                );
+            }
             if let Some(token) = loose_end_append_for_nodes(
                 continuation_body,
                 has_nested_choices_in_continuation,
-- 
2.43.0


From 3ea3084192722737ec70cdaa05dd6e0c729e19e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:10 +0000
Subject: [PATCH 10/78] fix: keep the line break between a choice's text and a
 divert on the next line

---
 compiler/src/emitter/choice.rs         | 1 +
 compiler/src/emitter/choice_wrapped.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/compiler/src/emitter/choice.rs b/compiler/src/emitter/choice.rs
index 34deadf..71837b8 100644
--- a/compiler/src/emitter/choice.rs
+++ b/compiler/src/emitter/choice.rs
@@ -53,6 +53,7 @@ fn emit_choice(
 
         if choice.has_choice_only_content
             && !choice.has_start_content
+            && choice.body_divert_is_inline
             && matches!(choice.body.as_slice(), [Node::Divert(_)])
         {
             branch_nodes.extend(tokenize_inline_content(&format!(" {selected_text}"))?);
diff --git a/compiler/src/emitter/choice_wrapped.rs b/compiler/src/emitter/choice_wrapped.rs
index 29948b8..137e176 100644
--- a/compiler/src/emitter/choice_wrapped.rs
+++ b/compiler/src/emitter/choice_wrapped.rs
@@ -212,6 +212,7 @@ fn emit_wrapped_loop_choice_body(
 
         if choice.has_choice_only_content
             && !choice.has_start_content
+            && choice.body_divert_is_inline
             && matches!(choice.body.as_slice(), [Node::Divert(_)])
         {
             branch_nodes.extend(tokenize_inline_content(&format!(" {selected_text}"))?);
-- 
2.43.0


From 5a669223ecb375cffdc77d6844fbb2aa98ea7f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:12 +0000
Subject: [PATCH 11/78] fix: count turns for labels named by their qualified
 path

---
 compiler/src/emitter/context.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/compiler/src/emitter/context.rs b/compiler/src/emitter/context.rs
index fe2e1bc..f6fdcbe 100644
--- a/compiler/src/emitter/context.rs
+++ b/compiler/src/emitter/context.rs
@@ -397,7 +397,8 @@ impl EmitContext {
                 add_flow_count_flags(&mut flow_count_flags, resolved, flags);
             } else if target.contains('.') {
                 // Already qualified path
-                add_flow_count_flags(&mut flow_count_flags, &target, flags);
+                let resolved = qualified_choice_labels.get(&target).unwrap_or(&target);
+                add_flow_count_flags(&mut flow_count_flags, resolved, flags);
             } else {
                 // Try to resolve through qualified choice labels (gather labels).
                 // A bare name like "ans_agent" may correspond to one or more
-- 
2.43.0


From e7c1d3744a09fb9fa53ef4d02de5f85dec69a5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:16 +0000
Subject: [PATCH 12/78] fix: only a lone call is parsed as a bare function-call
 condition

---
 compiler/src/inline.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/compiler/src/inline.rs b/compiler/src/inline.rs
index e556a8e..a5343a7 100644
--- a/compiler/src/inline.rs
+++ b/compiler/src/inline.rs
@@ -548,8 +548,11 @@ pub fn parse_condition(condition: &str) -> Result<crate::ast::Condition, Compile
         "true" => Ok(Condition::Bool(true)),
         "false" => Ok(Condition::Bool(false)),
         _ => {
-            if let Some(name) = condition.strip_suffix("()") {
-                return Ok(Condition::FunctionCall(name.trim().to_owned()));
+            if let Some(name) = condition.strip_suffix("()").map(str::trim)
+                && !name.is_empty()
+                && name.chars().all(|c| c.is_alphanumeric() || c == '_')
+            {
+                return Ok(Condition::FunctionCall(name.to_owned()));
             }
 
             Ok(Condition::Expression(parse_expression(condition)?))
-- 
2.43.0


From b59cf298ae31f30a204b27897c5a1ac7b3868ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:59 +0000
Subject: [PATCH 13/78] fix: keep the line break between a tagged choice and a
 divert on the next line

---
 compiler/src/emitter/choice.rs         | 3 ++-
 compiler/src/emitter/choice_wrapped.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/compiler/src/emitter/choice.rs b/compiler/src/emitter/choice.rs
index 71837b8..e07401e 100644
--- a/compiler/src/emitter/choice.rs
+++ b/compiler/src/emitter/choice.rs
@@ -81,7 +81,8 @@ fn emit_choice(
                 choice.body.as_slice(),
                 [Node::Divert(d)] if d.target == "END" || d.target == "DONE"
             );
-            let body_is_inline_divert = matches!(choice.body.as_slice(), [Node::Divert(_)])
+            let body_is_inline_divert = choice.body_divert_is_inline
+                && matches!(choice.body.as_slice(), [Node::Divert(_)])
                 && selected_text.ends_with(char::is_whitespace);
             if !body_is_terminal_divert && !body_is_inline_divert {
                 branch_nodes.push(Node::Newline);
diff --git a/compiler/src/emitter/choice_wrapped.rs b/compiler/src/emitter/choice_wrapped.rs
index 137e176..9523a09 100644
--- a/compiler/src/emitter/choice_wrapped.rs
+++ b/compiler/src/emitter/choice_wrapped.rs
@@ -237,7 +237,8 @@ fn emit_wrapped_loop_choice_body(
                 choice.body.as_slice(),
                 [Node::Divert(d)] if d.target == "END" || d.target == "DONE"
             );
-            let body_is_inline_divert = matches!(choice.body.as_slice(), [Node::Divert(_)])
+            let body_is_inline_divert = choice.body_divert_is_inline
+                && matches!(choice.body.as_slice(), [Node::Divert(_)])
                 && selected_text.ends_with(char::is_whitespace);
             if !body_is_terminal_divert && !body_is_inline_divert {
                 branch_nodes.push(Node::Newline);
-- 
2.43.0


From 059496fb6e87000c7408e7d7c1302d0d5900afa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:49 +0000
Subject: [PATCH 14/78] fix: select the empty branch of an exhausted once-only
 sequence so that its counter is popped

---
 compiler/src/emitter/expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/src/emitter/expression.rs b/compiler/src/emitter/expression.rs
index 62700d0..28a21aa 100644
--- a/compiler/src/emitter/expression.rs
+++ b/compiler/src/emitter/expression.rs
@@ -63,7 +63,7 @@ fn emit_sequence(
     }
     out.push(json!("/ev"));
 
-    for (index, _) in sequence.branches.iter().enumerate() {
+    for index in 0..branch_count {
         out.push(json!("ev"));
         out.push(json!("du"));
         out.push(json!(index as i32));
-- 
2.43.0


From 1c5d27745687e1a909071249c79afafeb6d2c36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:55 +0000
Subject: [PATCH 15/78] fix: start every branch of a switch block on a new line

---
 compiler/src/emitter/conditional.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/compiler/src/emitter/conditional.rs b/compiler/src/emitter/conditional.rs
index 640b360..0d51010 100644
--- a/compiler/src/emitter/conditional.rs
+++ b/compiler/src/emitter/conditional.rs
@@ -240,7 +240,10 @@ fn emit_switch_conditional(
         let branch_scope = scope
             .conditional_branch(&format!("{branch_array_index}.b"))
             .with_content_offset(1);
-        let mut body = emit_nodes(body_nodes, &branch_scope, context)?;
+        // Every branch of a multi-line block starts on a line of its own.
+        let mut nodes = vec![Node::Newline];
+        nodes.extend_from_slice(body_nodes);
+        let mut body = emit_nodes(&nodes, &branch_scope, context)?;
         body.push(json!({"->": exit_target}));
         branch_bodies.push(body);
     }
-- 
2.43.0


From c676e90262ada37d3dba7f11d83efe2b19791c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:47 +0000
Subject: [PATCH 16/78] fix: an assigned empty list keeps its origins in a
 copy, not in the shared value

---
 runtime/src/callstack.rs       |  9 ++++-----
 runtime/src/value.rs           | 22 +++++++++++++++++-----
 runtime/src/variables_state.rs |  7 ++++---
 3 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/runtime/src/callstack.rs b/runtime/src/callstack.rs
index 5c162c7..87c3585 100644
--- a/runtime/src/callstack.rs
+++ b/runtime/src/callstack.rs
@@ -340,11 +340,10 @@ impl CallStack {
             )));
         }
 
-        let old_value = context_element.temporary_variables.get(&name).cloned();
-
-        if let Some(old_value) = &old_value {
-            Value::retain_list_origins_for_assignment(old_value.as_ref(), value.as_ref());
-        }
+        let value = match context_element.temporary_variables.get(&name) {
+            Some(old_value) => Value::retain_list_origins_for_assignment(old_value, value),
+            None => value,
+        };
 
         context_element.temporary_variables.insert(name, value);
 
diff --git a/runtime/src/value.rs b/runtime/src/value.rs
index 73fea70..9b49eb8 100644
--- a/runtime/src/value.rs
+++ b/runtime/src/value.rs
@@ -1,4 +1,4 @@
-use std::fmt;
+use std::{fmt, rc::Rc};
 
 use crate::{
     ink_list::InkList,
@@ -187,13 +187,25 @@ impl Value {
         }
     }
 
-    pub fn retain_list_origins_for_assignment(old_value: &dyn RTObject, new_value: &dyn RTObject) {
-        if let Some(old_list) = Self::get_value::<&InkList>(old_value)
-            && let Some(new_list) = Self::get_value::<&InkList>(new_value)
+    /// The value to store when `new_value` is assigned over `old_value`. An
+    /// empty list keeps the origins of the list that it replaces. The value may
+    /// be shared with other variables and with the story content, so the origins
+    /// are set in a copy of it.
+    pub fn retain_list_origins_for_assignment(
+        old_value: &Rc<Value>,
+        new_value: Rc<Value>,
+    ) -> Rc<Value> {
+        if !Rc::ptr_eq(old_value, &new_value)
+            && let Some(old_list) = Self::get_value::<&InkList>(old_value.as_ref())
+            && let Some(new_list) = Self::get_value::<&InkList>(new_value.as_ref())
             && new_list.items.is_empty()
         {
-            new_list.set_initial_origin_names(old_list.get_origin_names());
+            let list = new_list.clone();
+            list.set_initial_origin_names(old_list.get_origin_names());
+            return Rc::new(Value::new::<InkList>(list));
         }
+
+        new_value
     }
 
     pub fn get_cast_ordinal(&self) -> u8 {
diff --git a/runtime/src/variables_state.rs b/runtime/src/variables_state.rs
index 1730c4c..c85c22e 100644
--- a/runtime/src/variables_state.rs
+++ b/runtime/src/variables_state.rs
@@ -289,9 +289,10 @@ impl VariablesState {
             old_value = self.global_variables.get(name).cloned();
         }
 
-        if let Some(old_value) = &old_value {
-            Value::retain_list_origins_for_assignment(old_value.as_ref(), value.as_ref());
-        }
+        let value = match &old_value {
+            Some(old_value) => Value::retain_list_origins_for_assignment(old_value, value),
+            None => value,
+        };
 
         if let Some(patch) = &mut self.patch {
             patch.set_global(name, value.clone());
-- 
2.43.0


From a0f128ccc78518e3a7a9e5d79c097fa3d1946932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:19 +0000
Subject: [PATCH 17/78] fix: a fallback choice's content starts on a new line

---
 compiler/src/emitter/choice.rs         | 4 ++++
 compiler/src/emitter/choice_wrapped.rs | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/compiler/src/emitter/choice.rs b/compiler/src/emitter/choice.rs
index e07401e..5a515c3 100644
--- a/compiler/src/emitter/choice.rs
+++ b/compiler/src/emitter/choice.rs
@@ -119,7 +119,11 @@ fn emit_choice(
         // container with a "\n" (representing the line break after the user selects).
         branch_nodes.push(Node::Newline);
         body_already_emitted = true;
+    } else if choice.is_invisible_default && !choice.body_divert_is_inline {
+        // A fallback choice whose content follows on the next lines.
+        branch_nodes.push(Node::Newline);
     }
+
     if !body_already_emitted {
         branch_nodes.extend(choice.body.clone());
     }
diff --git a/compiler/src/emitter/choice_wrapped.rs b/compiler/src/emitter/choice_wrapped.rs
index 9523a09..115f956 100644
--- a/compiler/src/emitter/choice_wrapped.rs
+++ b/compiler/src/emitter/choice_wrapped.rs
@@ -259,6 +259,9 @@ fn emit_wrapped_loop_choice_body(
         body_already_emitted = true;
     } else if choice.has_choice_only_content && !choice.has_start_content {
         branch_nodes.push(Node::Newline);
+    } else if choice.is_invisible_default && !choice.body_divert_is_inline {
+        // A fallback choice whose content follows on the next lines.
+        branch_nodes.push(Node::Newline);
     }
 
     if !body_already_emitted {
-- 
2.43.0


From 8388a85eb85595b2eaacf92fb496dbe8df35432c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:19 +0000
Subject: [PATCH 18/78] fix: a list derived from another keeps its origins when
 it becomes empty

---
 runtime/src/ink_list.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtime/src/ink_list.rs b/runtime/src/ink_list.rs
index e171a48..58b7a77 100644
--- a/runtime/src/ink_list.rs
+++ b/runtime/src/ink_list.rs
@@ -59,7 +59,8 @@ impl InkList {
             ink_list.items.insert(item.clone(), *value);
         }
 
-        ink_list.initial_origin_names = other_list.initial_origin_names.clone();
+        // The origins survive even when all the items are taken out of the copy.
+        ink_list.set_initial_origin_names(other_list.get_origin_names());
 
         ink_list.origins = other_list.origins.clone();
 
-- 
2.43.0


From 7d44afe90d91ffc7d3cd23676b4629c8ec078ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:47 +0000
Subject: [PATCH 19/78] fix: start every branch of a multi-line conditional on
 a new line

---
 compiler/src/parser/conditional.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/compiler/src/parser/conditional.rs b/compiler/src/parser/conditional.rs
index 549e247..33134d0 100644
--- a/compiler/src/parser/conditional.rs
+++ b/compiler/src/parser/conditional.rs
@@ -276,7 +276,7 @@ pub fn parse_multi_branch_conditional(
             let closing_had_newline = line.had_newline && (*line_index + 1) < lines.len();
             *line_index += 1;
             if current_condition.is_some() || !current_nodes.is_empty() {
-                branches.push((current_condition.take(), current_nodes));
+                branches.push((current_condition.take(), on_new_line(current_nodes)));
             }
             let mut nodes = fold_conditional_branches(branches)?;
             // Parse any inline content after `}` (e.g. `} <> more text`)
@@ -308,7 +308,7 @@ pub fn parse_multi_branch_conditional(
                 continue;
             }
             if current_condition.is_some() || !current_nodes.is_empty() {
-                branches.push((current_condition.take(), current_nodes));
+                branches.push((current_condition.take(), on_new_line(current_nodes)));
                 current_nodes = Vec::new();
             }
 
@@ -329,7 +329,7 @@ pub fn parse_multi_branch_conditional(
             // Push the current branch and parse the nested block as an else branch.
             if header.trim_start().starts_with('{') {
                 if current_condition.is_some() || !current_nodes.is_empty() {
-                    branches.push((current_condition.take(), current_nodes));
+                    branches.push((current_condition.take(), on_new_line(current_nodes)));
                     current_nodes = Vec::new();
                 }
                 current_condition = None;
@@ -430,6 +430,12 @@ pub fn parse_multi_branch_conditional(
     ))
 }
 
+/// Every branch of a multi-line block starts on a line of its own.
+fn on_new_line(mut nodes: Vec<Node>) -> Vec<Node> {
+    nodes.insert(0, Node::Newline);
+    nodes
+}
+
 pub fn fold_conditional_branches(
     mut branches: Vec<(Option<crate::ast::Condition>, Vec<Node>)>,
 ) -> Result<Vec<Node>, CompilerError> {
-- 
2.43.0


From 9243f133c893f46a375115dba2dc14f227850371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:23 +0000
Subject: [PATCH 20/78] fix: keep only parked flows in the named-flow map of a
 snapshot

---
 runtime/src/story_state.rs | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/runtime/src/story_state.rs b/runtime/src/story_state.rs
index d2526f8..9c6d4a2 100644
--- a/runtime/src/story_state.rs
+++ b/runtime/src/story_state.rs
@@ -795,19 +795,11 @@ impl StoryState {
             copy.current_flow.current_choices = self.current_flow.current_choices.clone();
         }
 
-        // The copy of the state has its own copy of the named flows dictionary,
-        // except with the current flow replaced with the copy above
-        // (Assuming we're in multi-flow mode at all. If we're not then
-        // the above copy is simply the default flow copy and we're done)
+        // The copy of the state has its own copy of the named flows dictionary.
+        // It only holds the parked flows: the current flow is not one of them.
         if self.named_flows.is_some() {
-            let mut nf = self.named_flows.clone();
-            nf.as_mut().unwrap().insert(
-                copy.current_flow.name.to_string(),
-                copy.current_flow.clone(),
-            );
             copy.alive_flow_names_dirty = true;
-
-            copy.named_flows = nf;
+            copy.named_flows = self.named_flows.clone();
         }
 
         if self.has_error() {
-- 
2.43.0


From 2aa194b62aee0dcf21d73798b3137884c3fdfe3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:29 +0000
Subject: [PATCH 21/78] fix: removing a flow that does not exist is an error,
 not a panic

---
 runtime/src/story_state.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/runtime/src/story_state.rs b/runtime/src/story_state.rs
index 9c6d4a2..93ccab7 100644
--- a/runtime/src/story_state.rs
+++ b/runtime/src/story_state.rs
@@ -1441,12 +1441,26 @@ impl StoryState {
             ));
         }
 
+        let is_current = self.current_flow.name.eq(flow_name);
+        let is_parked = self
+            .named_flows
+            .as_ref()
+            .is_some_and(|flows| flows.contains_key(flow_name));
+
+        if !is_current && !is_parked {
+            return Err(StoryError::BadArgument(format!(
+                "Cannot remove flow {flow_name}: there is no such flow"
+            )));
+        }
+
         // If we're currently in the flow that's being removed, switch back to default
-        if self.current_flow.name.eq(flow_name) {
+        if is_current {
             self.switch_to_default_flow_internal();
         }
 
-        self.named_flows.as_mut().unwrap().remove(flow_name);
+        if let Some(named_flows) = self.named_flows.as_mut() {
+            named_flows.remove(flow_name);
+        }
         self.alive_flow_names_dirty = true;
 
         Ok(())
-- 
2.43.0


From 83c89815d44c79ed358421ef27b7282b77adca7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:34 +0000
Subject: [PATCH 22/78] fix: a saved fallback choice stays invisible when it is
 loaded

---
 runtime/src/choice.rs          | 3 ++-
 runtime/src/json/json_read.rs  | 3 +++
 runtime/src/json/json_write.rs | 4 ++++
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/runtime/src/choice.rs b/runtime/src/choice.rs
index fb55f9d..fbe075b 100644
--- a/runtime/src/choice.rs
+++ b/runtime/src/choice.rs
@@ -56,11 +56,12 @@ impl Choice {
         index: usize,
         original_thread_index: usize,
         choice_tags: Vec<String>,
+        is_invisible_default: bool,
     ) -> Choice {
         Choice {
             obj: Object::new(),
             target_path: Path::new_with_components_string(Some(path_string_on_choice)),
-            is_invisible_default: false,
+            is_invisible_default,
             tags: choice_tags,
             index: RefCell::new(index),
             original_thread_index: RefCell::new(original_thread_index),
diff --git a/runtime/src/json/json_read.rs b/runtime/src/json/json_read.rs
index 900a6ed..ab862d6 100644
--- a/runtime/src/json/json_read.rs
+++ b/runtime/src/json/json_read.rs
@@ -430,6 +430,9 @@ fn jobject_to_choice(obj: &Map<String, serde_json::Value>) -> Result<Rc<dyn RTOb
         index,
         original_thread_index,
         choice_tags,
+        obj.get("isInvisibleDefault")
+            .and_then(|v| v.as_bool())
+            .unwrap_or(false),
     )))
 }
 
diff --git a/runtime/src/json/json_write.rs b/runtime/src/json/json_write.rs
index 6a89456..2a128ac 100644
--- a/runtime/src/json/json_write.rs
+++ b/runtime/src/json/json_write.rs
@@ -286,6 +286,10 @@ pub fn write_choice(choice: &Choice) -> serde_json::Value {
 
     jobj.insert("tags".to_owned(), write_choice_tags(choice));
 
+    if choice.is_invisible_default {
+        jobj.insert("isInvisibleDefault".to_owned(), json!(true));
+    }
+
     serde_json::Value::Object(jobj)
 }
 
-- 
2.43.0


From 4444901fd5b8e04f619d3991edd860607caa751c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:51 +0000
Subject: [PATCH 23/78] fix: save the origins of an empty list

---
 runtime/src/ink_list.rs        | 4 ++++
 runtime/src/json/json_write.rs | 8 ++++++++
 runtime/src/variables_state.rs | 4 +++-
 3 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/runtime/src/ink_list.rs b/runtime/src/ink_list.rs
index 58b7a77..968e911 100644
--- a/runtime/src/ink_list.rs
+++ b/runtime/src/ink_list.rs
@@ -115,6 +115,10 @@ impl InkList {
                 names.push(k.get_origin_name().unwrap().clone());
             }
 
+            // the items come in no particular order
+            names.sort();
+            names.dedup();
+
             return names;
         }
 
diff --git a/runtime/src/json/json_write.rs b/runtime/src/json/json_write.rs
index 2a128ac..41697e9 100644
--- a/runtime/src/json/json_write.rs
+++ b/runtime/src/json/json_write.rs
@@ -266,6 +266,14 @@ pub fn write_ink_list(list: &InkList) -> serde_json::Value {
 
     jobj.insert("list".to_owned(), serde_json::Value::Object(jlist));
 
+    // The origins of a list with items follow from its items.
+    if list.items.is_empty() {
+        let origin_names = list.get_origin_names();
+        if !origin_names.is_empty() {
+            jobj.insert("origins".to_owned(), json!(origin_names));
+        }
+    }
+
     serde_json::Value::Object(jobj)
 }
 
diff --git a/runtime/src/variables_state.rs b/runtime/src/variables_state.rs
index c85c22e..443e0ef 100644
--- a/runtime/src/variables_state.rs
+++ b/runtime/src/variables_state.rs
@@ -369,7 +369,9 @@ impl VariablesState {
                 _ => false,
             },
             ValueType::List(val) => match &default_val.value {
-                ValueType::List(default_val) => *val == *default_val,
+                ValueType::List(default_val) => {
+                    *val == *default_val && val.get_origin_names() == default_val.get_origin_names()
+                }
                 _ => false,
             },
             ValueType::String(val) => match &default_val.value {
-- 
2.43.0


From aa6787a908bb211348b630ee149643b92c0669ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:56 +0000
Subject: [PATCH 24/78] fix: a refused continue leaves the story's continue
 state alone

---
 runtime/src/story/progress.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/runtime/src/story/progress.rs b/runtime/src/story/progress.rs
index 2188e54..f81b64d 100644
--- a/runtime/src/story/progress.rs
+++ b/runtime/src/story/progress.rs
@@ -70,6 +70,13 @@ impl Story {
     ) -> Result<(), StoryError> {
         let is_async_time_limited = millisecs_limit_async > 0.0;
 
+        // Refuse before anything is changed
+        if !self.async_continue_active && !self.can_continue() {
+            return Err(StoryError::InvalidStoryState(
+                "Can't continue - should check can_continue before calling Continue".to_owned(),
+            ));
+        }
+
         self.recursive_continue_count += 1;
 
         // Doing either:
@@ -77,11 +84,6 @@ impl Story {
         // - Starting async run-through
         if !self.async_continue_active {
             self.async_continue_active = is_async_time_limited;
-            if !self.can_continue() {
-                return Err(StoryError::InvalidStoryState(
-                    "Can't continue - should check can_continue before calling Continue".to_owned(),
-                ));
-            }
 
             self.get_state_mut().set_did_safe_exit(false);
 
-- 
2.43.0


From 8809e3f4c724ca2b6c8a67bf92035570e909f9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:02 +0000
Subject: [PATCH 25/78] fix: removing a variable observer that is not there is
 an error, not a panic

---
 runtime/src/story/variable_observer.rs | 48 +++++++++++---------------
 1 file changed, 21 insertions(+), 27 deletions(-)

diff --git a/runtime/src/story/variable_observer.rs b/runtime/src/story/variable_observer.rs
index e53e7cc..4691846 100644
--- a/runtime/src/story/variable_observer.rs
+++ b/runtime/src/story/variable_observer.rs
@@ -54,7 +54,8 @@ impl Story {
     /// Removes a variable observer, to stop getting variable change
     /// notifications. If you pass a specific variable name, it will stop
     /// observing that particular one. If you pass None, then the observer
-    /// will be removed from all variables that it's subscribed to.
+    /// will be removed from all variables that it's subscribed to. It is an
+    /// error if the observer isn't subscribed.
     pub fn remove_variable_observer(
         &mut self,
         observer: &Rc<RefCell<dyn VariableObserver>>,
@@ -62,38 +63,31 @@ impl Story {
     ) -> Result<(), StoryError> {
         self.if_async_we_cant("remove a variable observer")?;
 
-        // Remove observer for this specific variable
-        match specific_variable_name {
-            Some(specific_variable_name) => {
-                if let Some(v) = self.variable_observers.get_mut(specific_variable_name) {
-                    let index = v.iter().position(|x| Rc::ptr_eq(x, observer)).unwrap();
-                    v.remove(index);
-
-                    if v.is_empty() {
-                        self.variable_observers.remove(specific_variable_name);
-                    }
+        let not_observing = || {
+            StoryError::BadArgument(format!(
+                "Cannot remove a variable observer that isn't observing {}.",
+                match specific_variable_name {
+                    Some(name) => format!("variable '{name}'"),
+                    None => "any variable".to_owned(),
                 }
-            }
-            None => {
-                // Remove observer for all variables
-                let mut keys_to_remove = Vec::new();
-
-                for (k, v) in self.variable_observers.iter_mut() {
-                    let index = v.iter().position(|x| Rc::ptr_eq(x, observer)).unwrap();
-                    v.remove(index);
+            ))
+        };
 
-                    if v.is_empty() {
-                        keys_to_remove.push(k.to_string());
-                    }
-                }
+        let mut found = false;
 
-                for key_to_remove in keys_to_remove.iter() {
-                    self.variable_observers.remove(key_to_remove);
-                }
+        // Remove observer for this specific variable, or for all variables
+        for (name, observers) in self.variable_observers.iter_mut() {
+            if specific_variable_name.is_none_or(|specific| specific == name)
+                && let Some(index) = observers.iter().position(|x| Rc::ptr_eq(x, observer))
+            {
+                observers.remove(index);
+                found = true;
             }
         }
 
-        Ok(())
+        self.variable_observers.retain(|_, v| !v.is_empty());
+
+        if found { Ok(()) } else { Err(not_observing()) }
     }
 
     pub(crate) fn notify_variable_changed(&self, variable_name: &str, value: &ValueType) {
-- 
2.43.0


From 73f2b22e163d29a943c83686db056e21827bd676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:28 +0000
Subject: [PATCH 26/78] fix: refuse bad paths and arguments before changing
 anything

---
 runtime/src/story/navigation.rs | 26 ++++++++++++++++++++++----
 runtime/src/story_state.rs      | 18 +++++++++++++++++-
 2 files changed, 39 insertions(+), 5 deletions(-)

diff --git a/runtime/src/story/navigation.rs b/runtime/src/story/navigation.rs
index eee8c6e..d9ec687 100644
--- a/runtime/src/story/navigation.rs
+++ b/runtime/src/story/navigation.rs
@@ -7,6 +7,7 @@ use crate::{
     search_result::SearchResult,
     story::Story,
     story_error::StoryError,
+    story_state::StoryState,
     value_type::ValueType,
 };
 use std::rc::Rc;
@@ -68,9 +69,17 @@ impl Story {
     ) -> Result<(), StoryError> {
         self.if_async_we_cant("call ChoosePathString right now")?;
 
-        if reset_call_stack {
-            self.reset_callstack()?;
-        } else {
+        // Refuse a bad path or bad arguments before anything is changed
+        let target = Path::new_with_components_string(Some(path));
+        if self.content_at_path(&target).approximate {
+            return Err(StoryError::BadArgument(format!(
+                "Failed to find content at path '{path}'."
+            )));
+        }
+
+        StoryState::check_arguments(args)?;
+
+        if !reset_call_stack {
             // ChoosePathString is potentially dangerous since you can call it when the
             // stack is
             // pretty much in any state. Let's catch one of the worst offenders.
@@ -104,11 +113,13 @@ impl Story {
                         .get_callstack_trace()
                 )));
             }
+        } else {
+            self.reset_callstack()?;
         }
 
         self.get_state_mut()
             .pass_arguments_to_evaluation_stack(args)?;
-        self.choose_path(&Path::new_with_components_string(Some(path)), true)?;
+        self.choose_path(&target, true)?;
 
         Ok(())
     }
@@ -142,6 +153,13 @@ impl Story {
             return Err(StoryError::BadArgument(e));
         }
 
+        // Refuse bad arguments or missing bindings before anything is changed
+        StoryState::check_arguments(args)?;
+
+        if !self.has_validated_externals {
+            self.validate_external_bindings()?;
+        }
+
         // Snapshot the output stream
         let output_stream_before = self.get_state().get_output_stream().clone();
         self.get_state_mut().reset_output(None);
diff --git a/runtime/src/story_state.rs b/runtime/src/story_state.rs
index 93ccab7..279b9db 100644
--- a/runtime/src/story_state.rs
+++ b/runtime/src/story_state.rs
@@ -913,10 +913,11 @@ impl StoryState {
         path: &Path,
         incrementing_turn_index: bool,
     ) -> Result<(), StoryError> {
+        let mut new_pointer = Story::pointer_at_path(&self.main_content_container, path)?;
+
         // Changing direction, assume we need to clear current set of choices
         self.current_flow.current_choices.clear();
 
-        let mut new_pointer = Story::pointer_at_path(&self.main_content_container, path)?;
         if !new_pointer.is_null() && new_pointer.index == -1 {
             new_pointer.index = 0;
         }
@@ -1009,6 +1010,21 @@ impl StoryState {
         Ok(())
     }
 
+    /// Whether the host may pass these arguments to an ink function or knot.
+    pub fn check_arguments(arguments: Option<&Vec<ValueType>>) -> Result<(), StoryError> {
+        for arg in arguments.into_iter().flatten() {
+            if matches!(
+                arg,
+                ValueType::DivertTarget(_) | ValueType::VariablePointer(_)
+            ) {
+                return Err(StoryError::InvalidStoryState("ink arguments when calling EvaluateFunction / ChoosePathStringWithParameters must be \
+                        int, float, string, bool or InkList.".to_owned()));
+            }
+        }
+
+        Ok(())
+    }
+
     pub fn pass_arguments_to_evaluation_stack(
         &mut self,
         arguments: Option<&Vec<ValueType>>,
-- 
2.43.0


From a21ad16d5395a35a529bf4b2007e38d57b142688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:47 +0000
Subject: [PATCH 27/78] fix: refuse state-changing calls while a time-limited
 continue is unfinished

---
 runtime/src/story/choices.rs | 2 ++
 runtime/src/story/flow.rs    | 9 ++++++++-
 runtime/src/story/state.rs   | 4 ++++
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/runtime/src/story/choices.rs b/runtime/src/story/choices.rs
index c9ed16e..a98733b 100644
--- a/runtime/src/story/choices.rs
+++ b/runtime/src/story/choices.rs
@@ -12,6 +12,8 @@ impl Story {
     /// [`Choice`](crate::choice::Choice) points to, ready
     /// to continue story evaluation.
     pub fn choose_choice_index(&mut self, choice_index: usize) -> Result<(), StoryError> {
+        self.if_async_we_cant("choose a choice")?;
+
         let choices = self.get_current_choices();
         if choice_index >= choices.len() {
             return Err(StoryError::BadArgument("choice out of range".to_owned()));
diff --git a/runtime/src/story/flow.rs b/runtime/src/story/flow.rs
index 230ecc8..8b431d9 100644
--- a/runtime/src/story/flow.rs
+++ b/runtime/src/story/flow.rs
@@ -29,12 +29,19 @@ impl Story {
 
     /// Removes the specified flow from the story.
     pub fn remove_flow(&mut self, flow_name: &str) -> Result<(), StoryError> {
+        self.if_async_we_cant("remove a flow")?;
+
         self.get_state_mut().remove_flow_internal(flow_name)
     }
 
     /// Switches to the default flow, keeping the current flow around for
-    /// later.
+    /// later. Does nothing in the middle of a
+    /// [`continue_async`](Story::continue_async).
     pub fn switch_to_default_flow(&mut self) {
+        if self.async_continue_active {
+            return;
+        }
+
         self.get_state_mut().switch_to_default_flow_internal();
     }
 }
diff --git a/runtime/src/story/state.rs b/runtime/src/story/state.rs
index 43cb81f..f6c09ff 100644
--- a/runtime/src/story/state.rs
+++ b/runtime/src/story/state.rs
@@ -50,6 +50,8 @@ impl Story {
         variable_name: &str,
         value_type: &ValueType,
     ) -> Result<(), StoryError> {
+        self.if_async_we_cant("set a variable")?;
+
         let notify_observers = self
             .get_state_mut()
             .variables_state
@@ -118,6 +120,8 @@ impl Story {
 
     /// Loads a previously saved state in JSON format.
     pub fn load_state(&mut self, json_state: &str) -> Result<(), StoryError> {
+        self.if_async_we_cant("load a saved state")?;
+
         self.get_state_mut().load_json(json_state)
     }
 
-- 
2.43.0


From b1ce4725e86887c70aa2c0d12c3378668a1ee27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:05 +0000
Subject: [PATCH 28/78] fix: refuse look-ahead-unsafe external functions inside
 strings, not the safe ones

---
 runtime/src/story/external_functions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/story/external_functions.rs b/runtime/src/story/external_functions.rs
index 177dc8a..1829228 100644
--- a/runtime/src/story/external_functions.rs
+++ b/runtime/src/story/external_functions.rs
@@ -94,7 +94,7 @@ impl Story {
         // Should this function break glue? Abort run if we've already seen a newline.
         // Set a bool to tell it to restore the snapshot at the end of this instruction.
         if let Some(func_def) = self.externals.get(func_name) {
-            if func_def.lookahead_safe && self.get_state().in_string_evaluation() {
+            if !func_def.lookahead_safe && self.get_state().in_string_evaluation() {
                 // 16th Jan 2023: Example ink that was failing:
                 //
                 //      A line above
-- 
2.43.0


From 8432f7f61c7a3128f072b7786f444b78d860fba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:27 +0000
Subject: [PATCH 29/78] fix: deliver every warning once, and keep it readable
 when there is no handler

---
 runtime/src/story/mod.rs      |  2 ++
 runtime/src/story/progress.rs | 19 +++++++++++++++----
 runtime/src/story_state.rs    |  5 +++++
 3 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/runtime/src/story/mod.rs b/runtime/src/story/mod.rs
index e9c369f..f2311c0 100644
--- a/runtime/src/story/mod.rs
+++ b/runtime/src/story/mod.rs
@@ -32,6 +32,7 @@ pub struct Story {
     recursive_continue_count: usize,
     async_continue_active: bool,
     async_saving: bool,
+    warnings_were_readable: bool,
     prev_containers: Vec<Rc<Container>>,
     list_definitions: Rc<ListDefinitionsOrigin>,
     pub(crate) on_error: Option<Rc<RefCell<dyn ErrorHandler>>>,
@@ -73,6 +74,7 @@ mod misc {
                 recursive_continue_count: 0,
                 async_continue_active: false,
                 async_saving: false,
+                warnings_were_readable: false,
                 saw_lookahead_unsafe_function_after_new_line: false,
                 state_snapshot_at_last_new_line: None,
                 on_error: None,
diff --git a/runtime/src/story/progress.rs b/runtime/src/story/progress.rs
index f81b64d..d032c30 100644
--- a/runtime/src/story/progress.rs
+++ b/runtime/src/story/progress.rs
@@ -85,6 +85,12 @@ impl Story {
         if !self.async_continue_active {
             self.async_continue_active = is_async_time_limited;
 
+            // Warnings of an earlier continue have had their chance to be read
+            if self.warnings_were_readable {
+                self.get_state_mut().reset_warnings();
+                self.warnings_were_readable = false;
+            }
+
             self.get_state_mut().set_did_safe_exit(false);
 
             self.get_state_mut().reset_output(None);
@@ -213,7 +219,11 @@ impl Story {
         // Report any errors that occured during evaluation.
         // This may either have been StoryExceptions that were thrown
         // and caught during evaluation, or directly added with AddError.
-        if self.get_state().has_error() || self.get_state().has_warning() {
+        // Not while the line is unfinished: look-ahead may yet be discarded,
+        // and would raise the same message again.
+        if !self.async_continue_active
+            && (self.get_state().has_error() || self.get_state().has_warning())
+        {
             match &self.on_error {
                 Some(on_err) => {
                     if self.get_state().has_error() {
@@ -260,10 +270,11 @@ impl Story {
                         sb.push_str(self.get_state().get_current_errors()[0].as_str());
                         return Err(StoryError::InvalidStoryState(sb));
                     }
-                    // Only warnings and no handler: discard silently (consistent
+                    // Only warnings and no handler: don't fail (consistent
                     // with the C# reference implementation which does not throw
-                    // for warnings without a handler).
-                    self.reset_errors();
+                    // for warnings without a handler). They stay readable until
+                    // the next continue.
+                    self.warnings_were_readable = true;
                 }
             }
         }
diff --git a/runtime/src/story_state.rs b/runtime/src/story_state.rs
index 279b9db..1b86de4 100644
--- a/runtime/src/story_state.rs
+++ b/runtime/src/story_state.rs
@@ -1498,5 +1498,10 @@ impl StoryState {
 
     pub(crate) fn reset_errors(&mut self) {
         self.current_errors.clear();
+        self.reset_warnings();
+    }
+
+    pub(crate) fn reset_warnings(&mut self) {
+        self.current_warnings.clear();
     }
 }
-- 
2.43.0


From 84eaaa6134efd9ce3502890ea905dbb61ccd27e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:50 +0000
Subject: [PATCH 30/78] fix: evaluating a function restores where the main
 story came from

---
 runtime/src/story/navigation.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/runtime/src/story/navigation.rs b/runtime/src/story/navigation.rs
index d9ec687..6ed288f 100644
--- a/runtime/src/story/navigation.rs
+++ b/runtime/src/story/navigation.rs
@@ -162,6 +162,7 @@ impl Story {
 
         // Snapshot the output stream
         let output_stream_before = self.get_state().get_output_stream().clone();
+        let previous_pointer_before = self.get_state().get_previous_pointer();
         self.get_state_mut().reset_output(None);
 
         // State will temporarily replace the callstack in order to evaluate
@@ -169,10 +170,9 @@ impl Story {
             .start_function_evaluation_from_game(func_container.unwrap(), args)?;
 
         // Evaluate the function, and collect the string output
-        while self.can_continue() {
-            let text = self.cont()?;
-
-            text_output.push_str(&text);
+        let mut outcome = Ok(());
+        while outcome.is_ok() && self.can_continue() {
+            outcome = self.cont().map(|text| text_output.push_str(&text));
         }
 
         // Restore the output stream in case this was called
@@ -180,9 +180,18 @@ impl Story {
         self.get_state_mut()
             .reset_output(Some(output_stream_before));
 
+        outcome?;
+
         // Finish evaluation, and see whether anything was produced
-        self.get_state_mut()
-            .complete_function_evaluation_from_game()
+        let returned = self
+            .get_state_mut()
+            .complete_function_evaluation_from_game()?;
+
+        // The function's content is not where the main story came from
+        self.get_state()
+            .set_previous_pointer(previous_pointer_before);
+
+        Ok(returned)
     }
 
     pub(crate) fn visit_changed_containers_due_to_divert(&mut self) {
-- 
2.43.0


From 268bbd28e647efe8e0c771278266a64d0ae0db13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:15 +0000
Subject: [PATCH 31/78] fix: a refused save leaves the story as it was, and a
 load leaves nothing of the old state

---
 runtime/src/story/state.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/runtime/src/story/state.rs b/runtime/src/story/state.rs
index f6c09ff..1598c8b 100644
--- a/runtime/src/story/state.rs
+++ b/runtime/src/story/state.rs
@@ -122,7 +122,25 @@ impl Story {
     pub fn load_state(&mut self, json_state: &str) -> Result<(), StoryError> {
         self.if_async_we_cant("load a saved state")?;
 
-        self.get_state_mut().load_json(json_state)
+        // Load into a state of its own: a save that is refused changes nothing,
+        // and nothing of the old state is left over once it is accepted
+        let mut state = StoryState::new(
+            self.main_content_container.clone(),
+            self.list_definitions.clone(),
+        );
+        state.story_seed = self.state.story_seed;
+        state.variables_state.global_variables =
+            self.state.variables_state.global_variables.clone();
+        state.variables_state.default_global_variables = self
+            .state
+            .variables_state
+            .default_global_variables
+            .clone();
+        state.load_json(json_state)?;
+
+        self.state = state;
+
+        Ok(())
     }
 
     /// Reset the Story back to its initial state as it was when it was first constructed.
-- 
2.43.0


From f60db681004e6507acc7d9f67f5c9641f59d258a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:02 +0000
Subject: [PATCH 32/78] fix: arithmetic wraps and dividing by zero is an error,
 and faulty operands are errors rather than panics

---
 runtime/src/callstack.rs                | 19 +++--
 runtime/src/ink_list.rs                 | 22 ++++--
 runtime/src/ink_list_item.rs            |  7 ++
 runtime/src/list_definition.rs          | 14 ++--
 runtime/src/native_function_call.rs     | 33 ++++++---
 runtime/src/story/choices.rs            | 49 +++++++------
 runtime/src/story/control_logic.rs      | 95 ++++++++++++++++---------
 runtime/src/story/external_functions.rs |  2 +-
 runtime/src/story/mod.rs                | 20 ++++--
 runtime/src/story_state.rs              | 25 ++++---
 runtime/src/variable_reference.rs       |  4 +-
 runtime/src/variables_state.rs          | 13 +++-
 12 files changed, 202 insertions(+), 101 deletions(-)

diff --git a/runtime/src/callstack.rs b/runtime/src/callstack.rs
index 87c3585..fbd6f6f 100644
--- a/runtime/src/callstack.rs
+++ b/runtime/src/callstack.rs
@@ -328,10 +328,15 @@ impl CallStack {
             context_index = self.get_current_element_index() + 1;
         }
 
-        let context_element = self
-            .get_callstack_mut()
-            .get_mut((context_index - 1) as usize)
-            .unwrap();
+        let Some(context_element) = usize::try_from(context_index - 1)
+            .ok()
+            .and_then(|i| self.get_callstack_mut().get_mut(i))
+        else {
+            return Err(StoryError::InvalidStoryState(format!(
+                "Could not find temporary variable to set: {}",
+                name
+            )));
+        };
 
         if !declare_new && !context_element.temporary_variables.contains_key(&name) {
             return Err(StoryError::InvalidStoryState(format!(
@@ -376,10 +381,10 @@ impl CallStack {
             context_index = self.get_current_element_index() + 1;
         }
 
-        let context_element = self.get_callstack().get((context_index - 1) as usize);
-        let var_value = context_element.unwrap().temporary_variables.get(name);
+        let element_index = usize::try_from(context_index - 1).ok()?;
+        let context_element = self.get_callstack().get(element_index)?;
 
-        var_value.cloned()
+        context_element.temporary_variables.get(name).cloned()
     }
 
     pub fn push(
diff --git a/runtime/src/ink_list.rs b/runtime/src/ink_list.rs
index 968e911..8387725 100644
--- a/runtime/src/ink_list.rs
+++ b/runtime/src/ink_list.rs
@@ -71,7 +71,7 @@ impl InkList {
         let mut ordered: Vec<_> = self.items.iter().collect();
         ordered.sort_by(|a, b| {
             if a.1 == b.1 {
-                a.0.get_origin_name().cmp(&b.0.get_origin_name())
+                a.0.cmp_name(b.0)
             } else {
                 a.1.cmp(b.1)
             }
@@ -83,7 +83,14 @@ impl InkList {
         let mut max: Option<(&InkListItem, i32)> = None;
 
         for (k, v) in &self.items {
-            if max.is_none() || *v > max.as_ref().unwrap().1 {
+            // The items come in no particular order: of several items with the same
+            // value, it is always the first by name.
+            let better = match &max {
+                Some((mk, mv)) => *v > *mv || (*v == *mv && k.cmp_name(mk).is_lt()),
+                None => true,
+            };
+
+            if better {
                 max = Some((k, *v));
             }
         }
@@ -95,7 +102,12 @@ impl InkList {
         let mut min: Option<(&InkListItem, i32)> = None;
 
         for (k, v) in &self.items {
-            if min.is_none() || *v < min.as_ref().unwrap().1 {
+            let better = match &min {
+                Some((mk, mv)) => *v < *mv || (*v == *mv && k.cmp_name(mk).is_lt()),
+                None => true,
+            };
+
+            if better {
                 min = Some((k, *v));
             }
         }
@@ -112,7 +124,9 @@ impl InkList {
             let mut names = Vec::new();
 
             for k in self.items.keys() {
-                names.push(k.get_origin_name().unwrap().clone());
+                if let Some(name) = k.get_origin_name() {
+                    names.push(name.clone());
+                }
             }
 
             // the items come in no particular order
diff --git a/runtime/src/ink_list_item.rs b/runtime/src/ink_list_item.rs
index 6cc390b..d3bcd5a 100644
--- a/runtime/src/ink_list_item.rs
+++ b/runtime/src/ink_list_item.rs
@@ -46,6 +46,13 @@ impl InkListItem {
         format!("{}.{}", origin, self.item_name)
     }
 
+    /// Orders items by the list they belong to and their name.
+    pub(crate) fn cmp_name(&self, other: &Self) -> std::cmp::Ordering {
+        self.origin_name
+            .cmp(&other.origin_name)
+            .then_with(|| self.item_name.cmp(&other.item_name))
+    }
+
     pub fn is_null(&self) -> bool {
         self.origin_name.is_none() && self.item_name.is_empty()
     }
diff --git a/runtime/src/list_definition.rs b/runtime/src/list_definition.rs
index e057912..b458dc4 100644
--- a/runtime/src/list_definition.rs
+++ b/runtime/src/list_definition.rs
@@ -49,11 +49,13 @@ impl ListDefinition {
     }
 
     pub fn get_item_with_value(&self, val: i32) -> Option<InkListItem> {
-        for (item_name, value) in &self.item_name_to_values {
-            if *value == val {
-                return Some(InkListItem::new(Some(self.name.clone()), item_name.clone()));
-            }
-        }
-        None
+        // The names come in no particular order: of several items with the same
+        // value, it is always the first by name.
+        self.item_name_to_values
+            .iter()
+            .filter(|(_, value)| **value == val)
+            .map(|(item_name, _)| item_name)
+            .min()
+            .map(|item_name| InkListItem::new(Some(self.name.clone()), item_name.clone()))
     }
 }
diff --git a/runtime/src/native_function_call.rs b/runtime/src/native_function_call.rs
index f048af4..60cc1ba 100644
--- a/runtime/src/native_function_call.rs
+++ b/runtime/src/native_function_call.rs
@@ -252,8 +252,15 @@ impl NativeFunctionCall {
             return Ok(self.call_list_increment_operation(params));
         }
 
-        let v1 = params[0].clone().into_any().downcast::<Value>().unwrap();
-        let v2 = params[1].clone().into_any().downcast::<Value>().unwrap();
+        let (Ok(v1), Ok(v2)) = (
+            params[0].clone().into_any().downcast::<Value>(),
+            params[1].clone().into_any().downcast::<Value>(),
+        ) else {
+            return Err(StoryError::InvalidStoryState(format!(
+                "Can not use '{}' on something that is not a value",
+                Self::get_name(self.op)
+            )));
+        };
 
         // And/or with any other type requires coercion to bool
         if (self.op == Op::And || self.op == Op::Or)
@@ -297,9 +304,9 @@ impl NativeFunctionCall {
         for (list_item, list_item_value) in list_val.items.iter() {
             let target_int = {
                 if self.op == Op::Add {
-                    list_item_value + int_val
+                    list_item_value.wrapping_add(int_val)
                 } else {
-                    list_item_value - int_val
+                    list_item_value.wrapping_sub(int_val)
                 }
             };
 
@@ -545,7 +552,7 @@ impl NativeFunctionCall {
     fn subtract_op(&self, params: &[Rc<Value>]) -> Result<Rc<dyn RTObject>, StoryError> {
         match &params[0].value {
             ValueType::Int(op1) => match params[1].value {
-                ValueType::Int(op2) => Ok(Rc::new(Value::new::<i32>(*op1 - op2))),
+                ValueType::Int(op2) => Ok(Rc::new(Value::new::<i32>(op1.wrapping_sub(op2)))),
                 _ => Err(StoryError::InvalidStoryState(
                     "Operation not available for type.".to_owned(),
                 )),
@@ -571,7 +578,7 @@ impl NativeFunctionCall {
     fn add_op(&self, params: &[Rc<Value>]) -> Result<Rc<dyn RTObject>, StoryError> {
         match &params[0].value {
             ValueType::Int(op1) => match params[1].value {
-                ValueType::Int(op2) => Ok(Rc::new(Value::new::<i32>(op1 + op2))),
+                ValueType::Int(op2) => Ok(Rc::new(Value::new::<i32>(op1.wrapping_add(op2)))),
                 _ => Err(StoryError::InvalidStoryState(
                     "Operation not available for type.".to_owned(),
                 )),
@@ -608,7 +615,10 @@ impl NativeFunctionCall {
     fn divide_op(&self, params: &[Rc<Value>]) -> Result<Rc<dyn RTObject>, StoryError> {
         match params[0].value {
             ValueType::Int(op1) => match params[1].value {
-                ValueType::Int(op2) => Ok(Rc::new(Value::new::<i32>(op1 / op2))),
+                ValueType::Int(0) => Err(StoryError::InvalidStoryState(
+                    "Attempting to divide by zero.".to_owned(),
+                )),
+                ValueType::Int(op2) => Ok(Rc::new(Value::new::<i32>(op1.wrapping_div(op2)))),
                 _ => Err(StoryError::InvalidStoryState(
                     "Operation not available for type.".to_owned(),
                 )),
@@ -650,7 +660,7 @@ impl NativeFunctionCall {
     fn multiply_op(&self, params: &[Rc<Value>]) -> Result<Rc<dyn RTObject>, StoryError> {
         match params[0].value {
             ValueType::Int(op1) => match params[1].value {
-                ValueType::Int(op2) => Ok(Rc::new(Value::new::<i32>(op1 * op2))),
+                ValueType::Int(op2) => Ok(Rc::new(Value::new::<i32>(op1.wrapping_mul(op2)))),
                 _ => Err(StoryError::InvalidStoryState(
                     "Operation not available for type.".to_owned(),
                 )),
@@ -850,7 +860,10 @@ impl NativeFunctionCall {
     fn mod_op(&self, params: &[Rc<Value>]) -> Result<Rc<dyn RTObject>, StoryError> {
         match params[0].value {
             ValueType::Int(op1) => match params[1].value {
-                ValueType::Int(op2) => Ok(Rc::new(Value::new::<i32>(op1 % op2))),
+                ValueType::Int(0) => Err(StoryError::InvalidStoryState(
+                    "Attempting to take the remainder of a division by zero.".to_owned(),
+                )),
+                ValueType::Int(op2) => Ok(Rc::new(Value::new::<i32>(op1.wrapping_rem(op2)))),
                 _ => Err(StoryError::InvalidStoryState(
                     "Operation not available for type.".to_owned(),
                 )),
@@ -984,7 +997,7 @@ impl NativeFunctionCall {
 
     fn negate_op(&self, params: &[Rc<Value>]) -> Result<Rc<dyn RTObject>, StoryError> {
         match &params[0].value {
-            ValueType::Int(op1) => Ok(Rc::new(Value::new::<i32>(-op1))),
+            ValueType::Int(op1) => Ok(Rc::new(Value::new::<i32>(op1.wrapping_neg()))),
             ValueType::Float(op1) => Ok(Rc::new(Value::new::<f32>(-op1))),
             _ => Err(StoryError::InvalidStoryState(
                 "Operation not available for type.".to_owned(),
diff --git a/runtime/src/story/choices.rs b/runtime/src/story/choices.rs
index a98733b..97176bc 100644
--- a/runtime/src/story/choices.rs
+++ b/runtime/src/story/choices.rs
@@ -57,7 +57,7 @@ impl Story {
 
         // Don't create choice if choice point doesn't pass conditional
         if choice_point.has_condition() {
-            let condition_value = self.get_state_mut().pop_evaluation_stack();
+            let condition_value = self.get_state_mut().pop_evaluation_stack()?;
             if !self.is_truthy(condition_value)? {
                 show_choice = false;
             }
@@ -68,18 +68,22 @@ impl Story {
         let mut tags: Vec<String> = Vec::with_capacity(0);
 
         if choice_point.has_choice_only_content() {
-            choice_only_text = self.pop_choice_string_and_tags(&mut tags);
+            choice_only_text = self.pop_choice_string_and_tags(&mut tags)?;
         }
 
         if choice_point.has_start_content() {
-            start_text = self.pop_choice_string_and_tags(&mut tags);
+            start_text = self.pop_choice_string_and_tags(&mut tags)?;
         }
 
         // Don't create choice if player has already read this content
         if choice_point.once_only() {
-            let visit_count = self
-                .get_state_mut()
-                .visit_count_for_container(choice_point.get_choice_target().as_ref().unwrap());
+            let Some(target) = choice_point.get_choice_target() else {
+                return Err(StoryError::InvalidStoryState(format!(
+                    "The content of a choice was not found: {}",
+                    choice_point.get_path_on_choice()
+                )));
+            };
+            let visit_count = self.get_state_mut().visit_count_for_container(&target);
             if visit_count > 0 {
                 show_choice = false;
             }
@@ -156,28 +160,27 @@ impl Story {
         self.choose_path(&choice.target_path, false)
     }
 
-    fn pop_choice_string_and_tags(&mut self, tags: &mut Vec<String>) -> String {
-        let obj = self.get_state_mut().pop_evaluation_stack();
-        let choice_only_str_val = Value::get_value::<&StringValue>(obj.as_ref()).unwrap();
+    fn pop_choice_string_and_tags(
+        &mut self,
+        tags: &mut Vec<String>,
+    ) -> Result<String, StoryError> {
+        let obj = self.get_state_mut().pop_evaluation_stack()?;
+        let Some(choice_only_str_val) = Value::get_value::<&StringValue>(obj.as_ref()) else {
+            return Err(StoryError::InvalidStoryState(format!(
+                "Expected the text of a choice, but saw {obj}"
+            )));
+        };
 
-        while !self.get_state().evaluation_stack.is_empty()
-            && self
-                .get_state()
-                .peek_evaluation_stack()
-                .unwrap()
-                .as_any()
-                .is::<Tag>()
+        while let Some(tag) = self
+            .get_state()
+            .peek_evaluation_stack()
+            .and_then(|o| o.clone().into_any().downcast::<Tag>().ok())
         {
-            let tag = self
-                .get_state_mut()
-                .pop_evaluation_stack()
-                .into_any()
-                .downcast::<Tag>()
-                .unwrap();
+            self.get_state_mut().pop_evaluation_stack()?;
             tags.insert(0, tag.get_text().clone()); // popped in reverse
             // order
         }
 
-        choice_only_str_val.string.to_string()
+        Ok(choice_only_str_val.string.to_string())
     }
 }
diff --git a/runtime/src/story/control_logic.rs b/runtime/src/story/control_logic.rs
index 779e6ae..cc73b34 100644
--- a/runtime/src/story/control_logic.rs
+++ b/runtime/src/story/control_logic.rs
@@ -38,7 +38,7 @@ impl Story {
         }; // Divert
         if let Ok(current_divert) = content_obj.clone().into_any().downcast::<Divert>() {
             if current_divert.is_conditional {
-                let o = self.get_state_mut().pop_evaluation_stack();
+                let o = self.get_state_mut().pop_evaluation_stack()?;
                 if !self.is_truthy(o)? {
                     return Ok(true);
                 }
@@ -123,7 +123,7 @@ impl Story {
                     // If the expression turned out to be empty, there may not be
                     // anything on the stack
                     if !self.get_state().evaluation_stack.is_empty() {
-                        let output = self.get_state_mut().pop_evaluation_stack(); // Functions may evaluate to Void, in which case we skip
+                        let output = self.get_state_mut().pop_evaluation_stack()?; // Functions may evaluate to Void, in which case we skip
                         // output
                         if !output.as_ref().as_any().is::<Void>() {
                             // TODO: Should we really always blanket convert to
@@ -147,11 +147,19 @@ impl Story {
                     self.get_state().set_in_expression_evaluation(false);
                 }
                 CommandType::Duplicate => {
-                    let obj = self.get_state().peek_evaluation_stack().unwrap().clone();
+                    let obj = self
+                        .get_state()
+                        .peek_evaluation_stack()
+                        .cloned()
+                        .ok_or_else(|| {
+                            StoryError::InvalidStoryState(
+                                "The evaluation stack is empty.".to_owned(),
+                            )
+                        })?;
                     self.get_state_mut().push_evaluation_stack(obj);
                 }
                 CommandType::PopEvaluatedValue => {
-                    self.get_state_mut().pop_evaluation_stack();
+                    self.get_state_mut().pop_evaluation_stack()?;
                 }
                 CommandType::PopFunction | CommandType::PopTunnel => {
                     let pop_type = if CommandType::PopFunction == eval_command.command_type {
@@ -162,7 +170,7 @@ impl Story {
                     // divert to go to immediately after returning: ->-> target
                     let mut override_tunnel_return_target = None;
                     if pop_type == PushPopType::Tunnel {
-                        let popped = self.get_state_mut().pop_evaluation_stack();
+                        let popped = self.get_state_mut().pop_evaluation_stack()?;
                         if let Some(v) = Value::get_value::<&Path>(popped.as_ref()) {
                             override_tunnel_return_target = Some(v.clone());
                         }
@@ -216,7 +224,7 @@ impl Story {
                         return Err(StoryError::InvalidStoryState(format!(
                             "Found {}, when expected {}",
                             names.get(&pop_type).unwrap(),
-                            expected.unwrap()
+                            expected.unwrap_or_else(|| "evaluated function".to_owned())
                         )));
                     } else {
                         self.get_state_mut().pop_callstack(None)?; // Does tunnel onwards override by diverting to a new ->->
@@ -301,7 +309,7 @@ impl Story {
                         .push_evaluation_stack(Rc::new(Value::new::<i32>(current_turn + 1)));
                 }
                 CommandType::TurnsSince | CommandType::ReadCount => {
-                    let target = self.get_state_mut().pop_evaluation_stack();
+                    let target = self.get_state_mut().pop_evaluation_stack()?;
                     if Value::get_value::<&Path>(target.as_ref()).is_none() {
                         let mut extra_note = "".to_owned();
                         if Value::get_value::<i32>(target.as_ref()).is_some() {
@@ -356,12 +364,12 @@ impl Story {
                 }
                 CommandType::Random => {
                     let mut max_int = None;
-                    let o = self.get_state_mut().pop_evaluation_stack();
+                    let o = self.get_state_mut().pop_evaluation_stack()?;
                     if let Some(v) = Value::get_value::<i32>(o.as_ref()) {
                         max_int = Some(v);
                     }
 
-                    let o = self.get_state_mut().pop_evaluation_stack();
+                    let o = self.get_state_mut().pop_evaluation_stack()?;
                     let mut min_int = None;
                     if let Some(v) = Value::get_value::<i32>(o.as_ref()) {
                         min_int = Some(v);
@@ -383,7 +391,7 @@ impl Story {
 
                     let min_value = min_int.unwrap();
                     let max_value = max_int.unwrap();
-                    let random_range = max_value - min_value + 1;
+                    let random_range = max_value as i64 - min_value as i64 + 1;
                     if random_range <= 0 {
                         return Err(StoryError::InvalidStoryState(format!(
                             "RANDOM was called with minimum as {} and maximum as {}. The maximum must be larger",
@@ -391,18 +399,21 @@ impl Story {
                         )));
                     }
 
-                    let result_seed =
-                        self.get_state().story_seed + self.get_state().previous_random;
+                    let result_seed = self
+                        .get_state()
+                        .story_seed
+                        .wrapping_add(self.get_state().previous_random);
                     let mut rng = StdRng::seed_from_u64(result_seed as u64);
                     let next_random = rng.random::<u32>();
-                    let chosen_value = (next_random % random_range as u32) as i32 + min_value;
+                    let chosen_value = (next_random as i64 % random_range + min_value as i64) as i32;
                     self.get_state_mut()
                         .push_evaluation_stack(Rc::new(Value::new::<i32>(chosen_value)));
-                    self.get_state_mut().previous_random = self.get_state().previous_random + 1;
+                    self.get_state_mut().previous_random =
+                        self.get_state().previous_random.wrapping_add(1);
                 }
                 CommandType::SeedRandom => {
                     let mut seed: Option<i32> = None;
-                    let o = self.get_state_mut().pop_evaluation_stack();
+                    let o = self.get_state_mut().pop_evaluation_stack()?;
                     if let Some(v) = Value::get_value::<i32>(o.as_ref()) {
                         seed = Some(v);
                     }
@@ -420,7 +431,11 @@ impl Story {
                         .push_evaluation_stack(Rc::new(Void::new()));
                 }
                 CommandType::VisitIndex => {
-                    let cpc = self.get_state().get_current_pointer().container.unwrap();
+                    let Some(cpc) = self.get_state().get_current_pointer().container else {
+                        return Err(StoryError::InvalidStoryState(
+                            "Not inside a container to count the visits of.".to_owned(),
+                        ));
+                    };
                     let count = self.get_state_mut().visit_count_for_container(&cpc) - 1; // index
                     // not count
                     self.get_state_mut()
@@ -455,12 +470,12 @@ impl Story {
                 CommandType::ListFromInt => {
                     let mut int_val: Option<i32> = None;
                     let mut list_name_val: Option<&String> = None;
-                    let o = self.get_state_mut().pop_evaluation_stack();
+                    let o = self.get_state_mut().pop_evaluation_stack()?;
                     if let Some(v) = Value::get_value::<i32>(o.as_ref()) {
                         int_val = Some(v);
                     }
 
-                    let o = self.get_state_mut().pop_evaluation_stack();
+                    let o = self.get_state_mut().pop_evaluation_stack()?;
                     if let Some(s) = Value::get_value::<&StringValue>(o.as_ref()) {
                         list_name_val = Some(&s.string);
                     }
@@ -469,6 +484,12 @@ impl Story {
                         return Err(StoryError::InvalidStoryState("Passed non-integer when creating a list element from a numerical value.".to_owned()));
                     }
 
+                    if list_name_val.is_none() {
+                        return Err(StoryError::InvalidStoryState(
+                            "Expected the name of the list to create an element of.".to_owned(),
+                        ));
+                    }
+
                     let mut generated_list_value: Option<Value> = None;
                     if let Some(found_list_def) = self
                         .list_definitions
@@ -499,11 +520,11 @@ impl Story {
                         .push_evaluation_stack(Rc::new(generated_list_value.unwrap()));
                 }
                 CommandType::ListRange => {
-                    let mut p = self.get_state_mut().pop_evaluation_stack();
+                    let mut p = self.get_state_mut().pop_evaluation_stack()?;
                     let max = p.into_any().downcast::<Value>();
-                    p = self.get_state_mut().pop_evaluation_stack();
+                    p = self.get_state_mut().pop_evaluation_stack()?;
                     let min = p.into_any().downcast::<Value>();
-                    p = self.get_state_mut().pop_evaluation_stack();
+                    p = self.get_state_mut().pop_evaluation_stack()?;
                     let target_list = Value::get_value::<&InkList>(p.as_ref());
                     if target_list.is_none() || min.is_err() || max.is_err() {
                         return Err(StoryError::InvalidStoryState(
@@ -518,7 +539,7 @@ impl Story {
                         .push_evaluation_stack(Rc::new(Value::new::<InkList>(result)));
                 }
                 CommandType::ListRandom => {
-                    let o = self.get_state_mut().pop_evaluation_stack();
+                    let o = self.get_state_mut().pop_evaluation_stack()?;
                     let list = Value::get_value::<&InkList>(o.as_ref());
                     if list.is_none() {
                         return Err(StoryError::InvalidStoryState(
@@ -535,14 +556,16 @@ impl Story {
                         // Non-empty source list
                         else {
                             // Generate a random index for the element to take
-                            let result_seed =
-                                self.get_state().story_seed + self.get_state().previous_random;
+                            let result_seed = self
+                                .get_state()
+                                .story_seed
+                                .wrapping_add(self.get_state().previous_random);
                             let mut rng = StdRng::seed_from_u64(result_seed as u64);
                             let next_random = rng.random::<u32>();
                             let list_item_index = (next_random as usize) % list.items.len(); // Iterate through to get the random element, sorted for
                             // predictibility
                             let mut sorted: Vec<(&InkListItem, &i32)> = list.items.iter().collect();
-                            sorted.sort_by(|a, b| b.1.cmp(a.1));
+                            sorted.sort_by(|a, b| b.1.cmp(a.1).then_with(|| a.0.cmp_name(b.0)));
                             let random_item = sorted[list_item_index]; // Origin list is simply the origin of the one element
                             let mut new_list = InkList::from_single_origin(
                                 random_item.0.get_origin_name().unwrap().clone(),
@@ -639,12 +662,17 @@ impl Story {
             .as_any()
             .downcast_ref::<VariableAssignment>()
         {
-            let assigned_val = self.get_state_mut().pop_evaluation_stack(); // When in temporary evaluation, don't create new variables purely
+            let assigned_val = self.get_state_mut().pop_evaluation_stack()?; // When in temporary evaluation, don't create new variables purely
             // within
             // the temporary context, but attempt to create them globally
             // var prioritiseHigherInCallStack = _temporaryEvaluationContainer
             // != null;
-            let assigned_val = assigned_val.into_any().downcast::<Value>().unwrap();
+            let Ok(assigned_val) = assigned_val.into_any().downcast::<Value>() else {
+                return Err(StoryError::InvalidStoryState(format!(
+                    "Attempting to assign a void value to '{}'. Did you forget to 'return' a value from a function you called here?",
+                    var_ass.variable_name
+                )));
+            };
             self.get_state_mut()
                 .variables_state
                 .assign(var_ass, assigned_val)?;
@@ -659,10 +687,13 @@ impl Story {
         {
             let found_value: Rc<Value>; // Explicit read count value
             if var_ref.path_for_count.is_some() {
-                let container = var_ref.get_container_for_count();
-                let count = self
-                    .get_state_mut()
-                    .visit_count_for_container(container.as_ref().unwrap());
+                let Ok(container) = var_ref.get_container_for_count() else {
+                    return Err(StoryError::InvalidStoryState(format!(
+                        "Failed to find container for read count lookup: {}",
+                        var_ref
+                    )));
+                };
+                let count = self.get_state_mut().visit_count_for_container(&container);
                 found_value = Rc::new(Value::new::<i32>(count));
             }
             // Normal variable reference
@@ -692,7 +723,7 @@ impl Story {
         {
             let func_params = self
                 .get_state_mut()
-                .pop_evaluation_stack_multiple(func.get_number_of_parameters());
+                .pop_evaluation_stack_multiple(func.get_number_of_parameters())?;
             let result = func.call(func_params)?;
             self.get_state_mut().push_evaluation_stack(result);
             return Ok(true);
diff --git a/runtime/src/story/external_functions.rs b/runtime/src/story/external_functions.rs
index 1829228..7a906a2 100644
--- a/runtime/src/story/external_functions.rs
+++ b/runtime/src/story/external_functions.rs
@@ -158,7 +158,7 @@ impl Story {
         // Pop arguments
         let mut arguments: Vec<ValueType> = Vec::new();
         for _ in 0..number_of_arguments {
-            let popped_obj = self.get_state_mut().pop_evaluation_stack();
+            let popped_obj = self.get_state_mut().pop_evaluation_stack()?;
             let value_obj = popped_obj.into_any().downcast::<Value>();
 
             if let Ok(value_obj) = value_obj {
diff --git a/runtime/src/story/mod.rs b/runtime/src/story/mod.rs
index f2311c0..a2e61ed 100644
--- a/runtime/src/story/mod.rs
+++ b/runtime/src/story/mod.rs
@@ -128,7 +128,7 @@ mod misc {
         }
 
         pub(crate) fn next_sequence_shuffle_index(&mut self) -> Result<i32, StoryError> {
-            let pop_evaluation_stack = self.get_state_mut().pop_evaluation_stack();
+            let pop_evaluation_stack = self.get_state_mut().pop_evaluation_stack()?;
             let num_elements =
                 if let Some(v) = Value::get_value::<i32>(pop_evaluation_stack.as_ref()) {
                     v
@@ -138,10 +138,14 @@ mod misc {
                     ));
                 };
 
-            let seq_container = self.get_state().get_current_pointer().container.unwrap();
+            let Some(seq_container) = self.get_state().get_current_pointer().container else {
+                return Err(StoryError::InvalidStoryState(
+                    "Not inside a sequence to shuffle.".to_owned(),
+                ));
+            };
 
             let seq_count = if let Some(v) =
-                Value::get_value::<i32>(self.get_state_mut().pop_evaluation_stack().as_ref())
+                Value::get_value::<i32>(self.get_state_mut().pop_evaluation_stack()?.as_ref())
             {
                 v
             } else {
@@ -150,6 +154,12 @@ mod misc {
                 ));
             };
 
+            if num_elements <= 0 || seq_count < 0 {
+                return Err(StoryError::InvalidStoryState(format!(
+                    "Can not shuffle {num_elements} elements for the turn {seq_count}."
+                )));
+            }
+
             let loop_index = seq_count / num_elements;
             let iteration_index = seq_count % num_elements;
 
@@ -159,7 +169,9 @@ mod misc {
             // - How many times the runtime has looped around this full shuffle
             let seq_path_str = Object::get_path(seq_container.as_ref()).to_string();
             let sequence_hash: i32 = seq_path_str.chars().map(|c| c as i32).sum();
-            let random_seed = sequence_hash + loop_index + self.get_state().story_seed;
+            let random_seed = sequence_hash
+                .wrapping_add(loop_index)
+                .wrapping_add(self.get_state().story_seed);
 
             let mut rng = StdRng::seed_from_u64(random_seed as u64);
 
diff --git a/runtime/src/story_state.rs b/runtime/src/story_state.rs
index 1b86de4..a1d9c9b 100644
--- a/runtime/src/story_state.rs
+++ b/runtime/src/story_state.rs
@@ -371,7 +371,9 @@ impl StoryState {
             list.origins.borrow_mut().clear();
 
             for name in &origin_names {
-                let def = self.list_definitions.get_list_definition(name).unwrap();
+                let Some(def) = self.list_definitions.get_list_definition(name) else {
+                    continue;
+                };
                 if !list.origins.borrow().iter().any(|e| std::ptr::eq(e, def)) {
                     list.origins.borrow_mut().push(def.clone());
                 }
@@ -890,18 +892,23 @@ impl StoryState {
         self.output_stream_dirty();
     }
 
-    pub fn pop_evaluation_stack(&mut self) -> Rc<dyn RTObject> {
-        self.evaluation_stack.pop().unwrap()
+    pub fn pop_evaluation_stack(&mut self) -> Result<Rc<dyn RTObject>, StoryError> {
+        self.evaluation_stack.pop().ok_or_else(|| {
+            StoryError::InvalidStoryState("The evaluation stack is empty.".to_owned())
+        })
     }
 
     pub fn pop_evaluation_stack_multiple(
         &mut self,
         number_of_objects: usize,
-    ) -> Vec<Rc<dyn RTObject>> {
-        let start = self.evaluation_stack.len() - number_of_objects;
-        let obj: Vec<Rc<dyn RTObject>> = self.evaluation_stack.drain(start..).collect();
+    ) -> Result<Vec<Rc<dyn RTObject>>, StoryError> {
+        let Some(start) = self.evaluation_stack.len().checked_sub(number_of_objects) else {
+            return Err(StoryError::InvalidStoryState(
+                "Too few values on the evaluation stack.".to_owned(),
+            ));
+        };
 
-        obj
+        Ok(self.evaluation_stack.drain(start..).collect())
     }
 
     pub fn set_diverted_pointer(&mut self, p: Pointer) {
@@ -1080,7 +1087,7 @@ impl StoryState {
         // for that)
         let mut returned_obj = None;
         while self.evaluation_stack.len() > original_evaluation_stack_height {
-            let popped_obj = self.pop_evaluation_stack();
+            let popped_obj = self.pop_evaluation_stack()?;
             if returned_obj.is_none() {
                 returned_obj = Some(popped_obj);
             }
@@ -1121,7 +1128,7 @@ impl StoryState {
         if !container.turn_index_should_be_counted {
             return Err(StoryError::InvalidStoryState(format!(
                 "TURNS_SINCE() for target ({}) unknown.",
-                container.name.as_ref().unwrap()
+                container.name.as_deref().unwrap_or_default()
             )));
         }
 
diff --git a/runtime/src/variable_reference.rs b/runtime/src/variable_reference.rs
index bee9c0d..681a1d9 100644
--- a/runtime/src/variable_reference.rs
+++ b/runtime/src/variable_reference.rs
@@ -31,9 +31,9 @@ impl VariableReference {
 
     pub fn get_container_for_count(self: &Rc<Self>) -> Result<Rc<Container>, String> {
         if let Some(path) = &self.path_for_count {
-            Ok(Object::resolve_path(self.clone(), path)
+            Object::resolve_path(self.clone(), path)
                 .container()
-                .unwrap())
+                .ok_or_else(|| format!("There is no container at {path}."))
         } else {
             Err("Path for count is not set.".to_owned())
         }
diff --git a/runtime/src/variables_state.rs b/runtime/src/variables_state.rs
index 443e0ef..df5a1a9 100644
--- a/runtime/src/variables_state.rs
+++ b/runtime/src/variables_state.rs
@@ -58,9 +58,9 @@ impl VariablesState {
         // notifications for changed variables all in one go.
         if let Some(changed_variables_for_batch_obs) = self.changed_variables_for_batch_obs.take() {
             for variable_name in changed_variables_for_batch_obs {
-                let current_value = self.global_variables.get(&variable_name).unwrap();
-
-                changed_vars.insert(variable_name, current_value.value.clone());
+                if let Some(current_value) = self.global_variables.get(&variable_name) {
+                    changed_vars.insert(variable_name, current_value.value.clone());
+                }
             }
         }
 
@@ -199,6 +199,13 @@ impl VariablesState {
             )));
         }
 
+        if let ValueType::VariablePointer(pointer) = &value_type {
+            return Err(StoryError::BadArgument(format!(
+                "Cannot assign a reference to the variable {} to {}",
+                pointer.variable_name, variable_name
+            )));
+        }
+
         let val = Value::new_value_type(value_type);
 
         let notify = self.set_global(variable_name, Rc::new(val));
-- 
2.43.0


From 384c592c1adb5edf39de834cec05fb7ed0e958af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:32 +0000
Subject: [PATCH 33/78] fix: a switch block in which no case matches takes its
 value off the evaluation stack

---
 compiler/src/emitter/conditional.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/compiler/src/emitter/conditional.rs b/compiler/src/emitter/conditional.rs
index 0d51010..d17e8ae 100644
--- a/compiler/src/emitter/conditional.rs
+++ b/compiler/src/emitter/conditional.rs
@@ -228,8 +228,11 @@ fn emit_switch_conditional(
     let preamble_len = value_tokens.len() + 2; // ev + value_tokens + /ev
 
     let num_branches = branches.len();
-    // Layout: [preamble_len tokens] [N branch arrays] [nop]
-    let nop_index = switch_index + preamble_len + num_branches;
+    // Without an else branch the switched value is still on the stack when no case
+    // matches: it is taken off there.
+    let falls_through = branches.iter().all(|(case_expr, _)| case_expr.is_some());
+    // Layout: [preamble_len tokens] [N branch arrays] [pop, unless there is an else] [nop]
+    let nop_index = switch_index + preamble_len + num_branches + usize::from(falls_through);
     let exit_target = joined_path(&scope.path, nop_index);
 
     // Emit all branch bodies first (they all reference exit_target)
@@ -294,6 +297,9 @@ fn emit_switch_conditional(
         }
     }
 
+    if falls_through {
+        out.push(json!("pop"));
+    }
     out.push(json!("nop"));
     Ok(out)
 }
-- 
2.43.0


From fd4bcf9aa0c3d7c33bf4382541e6e85263605391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:50 +0000
Subject: [PATCH 34/78] fix: list missing external functions in a fixed order

---
 runtime/src/story/external_functions.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/runtime/src/story/external_functions.rs b/runtime/src/story/external_functions.rs
index 7a906a2..025e067 100644
--- a/runtime/src/story/external_functions.rs
+++ b/runtime/src/story/external_functions.rs
@@ -1,4 +1,4 @@
-use std::{cell::RefCell, collections::HashSet, rc::Rc};
+use std::{cell::RefCell, collections::BTreeSet, rc::Rc};
 
 use crate::{
     container::Container, divert::Divert, object::RTObject, pointer::Pointer,
@@ -195,7 +195,7 @@ impl Story {
     }
 
     pub(crate) fn validate_external_bindings(&mut self) -> Result<(), StoryError> {
-        let mut missing_externals: HashSet<String> = HashSet::new();
+        let mut missing_externals: BTreeSet<String> = BTreeSet::new();
 
         self.validate_external_bindings_container(
             &self.get_main_content_container(),
@@ -230,7 +230,7 @@ impl Story {
     fn validate_external_bindings_container(
         &self,
         c: &Rc<Container>,
-        missing_externals: &mut std::collections::HashSet<String>,
+        missing_externals: &mut std::collections::BTreeSet<String>,
     ) -> Result<(), StoryError> {
         for inner_content in c.content.iter() {
             let container = inner_content
@@ -265,7 +265,7 @@ impl Story {
     fn validate_external_bindings_rtobject(
         &self,
         o: &Rc<dyn RTObject>,
-        missing_externals: &mut std::collections::HashSet<String>,
+        missing_externals: &mut std::collections::BTreeSet<String>,
     ) -> Result<(), StoryError> {
         let divert = o.clone().into_any().downcast::<Divert>().ok();
 
-- 
2.43.0


From ac77a7828657e509deda79db1e5aaef5b3b62ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:57 +0000
Subject: [PATCH 35/78] fix: an unknown divert target or tag path is an error,
 not a panic

---
 runtime/src/divert.rs              | 57 +++++++++++++++---------------
 runtime/src/story/control_logic.rs |  2 +-
 runtime/src/story/tags.rs          |  4 ++-
 3 files changed, 32 insertions(+), 31 deletions(-)

diff --git a/runtime/src/divert.rs b/runtime/src/divert.rs
index e1678a6..14b3297 100644
--- a/runtime/src/divert.rs
+++ b/runtime/src/divert.rs
@@ -6,6 +6,7 @@ use crate::{
     path::{Component, Path},
     pointer::{self, Pointer},
     push_pop::PushPopType,
+    story_error::StoryError,
 };
 
 pub struct Divert {
@@ -79,40 +80,38 @@ impl Divert {
         }
     }
 
-    pub fn get_target_pointer(self: &Rc<Self>) -> Pointer {
+    pub fn get_target_pointer(self: &Rc<Self>) -> Result<Pointer, StoryError> {
         let target_pointer_null = self.target_pointer.borrow().is_null();
         if target_pointer_null {
-            let target_obj =
-                Object::resolve_path(self.clone(), self.target_path.borrow().as_ref().unwrap())
-                    .obj
-                    .clone();
+            let target_path = self.target_path.borrow().clone().unwrap_or_default();
+            let not_found = || {
+                StoryError::InvalidStoryState(format!(
+                    "Divert target doesn't exist: {}",
+                    target_path
+                ))
+            };
 
-            if self
-                .target_path
-                .borrow()
-                .as_ref()
-                .unwrap()
-                .get_last_component()
-                .unwrap()
-                .is_index()
-            {
-                self.target_pointer.borrow_mut().container = target_obj.get_object().get_parent();
-                self.target_pointer.borrow_mut().index = self
-                    .target_path
-                    .borrow()
-                    .as_ref()
-                    .unwrap()
-                    .get_last_component()
-                    .unwrap()
-                    .index
-                    .unwrap() as i32;
-            } else {
-                let c = target_obj.into_any().downcast::<Container>();
-                self.target_pointer.replace(Pointer::start_of(c.unwrap()));
+            let result = Object::resolve_path(self.clone(), &target_path);
+            if result.approximate {
+                return Err(not_found());
+            }
+            let target_obj = result.obj.clone();
+
+            match target_path.get_last_component().and_then(|c| c.index) {
+                Some(index) => {
+                    let mut pointer = self.target_pointer.borrow_mut();
+                    pointer.container = target_obj.get_object().get_parent();
+                    pointer.index = index as i32;
+                }
+                None => {
+                    let c = target_obj.into_any().downcast::<Container>();
+                    let c = c.map_err(|_| not_found())?;
+                    self.target_pointer.replace(Pointer::start_of(c));
+                }
             }
         }
 
-        self.target_pointer.borrow().clone()
+        Ok(self.target_pointer.borrow().clone())
     }
 
     pub fn get_target_path(self: &Rc<Self>) -> Option<Path> {
@@ -122,7 +121,7 @@ impl Divert {
         match current_target {
             Some(target_path) => {
                 if target_path.is_relative() {
-                    let target_obj = self.get_target_pointer().resolve();
+                    let target_obj = self.get_target_pointer().ok().and_then(|p| p.resolve());
 
                     if let Some(target_obj) = target_obj {
                         let resolved = Object::get_path(target_obj.as_ref());
diff --git a/runtime/src/story/control_logic.rs b/runtime/src/story/control_logic.rs
index cc73b34..078a40a 100644
--- a/runtime/src/story/control_logic.rs
+++ b/runtime/src/story/control_logic.rs
@@ -85,7 +85,7 @@ impl Story {
                 return Ok(true);
             } else {
                 self.get_state_mut()
-                    .set_diverted_pointer(current_divert.get_target_pointer());
+                    .set_diverted_pointer(current_divert.get_target_pointer()?);
             }
 
             if current_divert.pushes_to_stack {
diff --git a/runtime/src/story/tags.rs b/runtime/src/story/tags.rs
index 5e168fe..683af30 100644
--- a/runtime/src/story/tags.rs
+++ b/runtime/src/story/tags.rs
@@ -31,7 +31,9 @@ impl Story {
         let path = Path::new_with_components_string(Some(path_string));
 
         // Expected to be global story, knot, or stitch
-        let mut flow_container = self.content_at_path(&path).container().unwrap();
+        let mut flow_container = self.content_at_path(&path).container().ok_or_else(|| {
+            StoryError::BadArgument(format!("There is no knot or stitch at '{path_string}'."))
+        })?;
 
         while let Some(first_content) = flow_container.content.first() {
             if let Ok(container) = first_content.clone().into_any().downcast::<Container>() {
-- 
2.43.0


From 8d2f786e76118c0c1dbaef8fbf84bd6e1df9de85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:14 +0000
Subject: [PATCH 36/78] fix: only a name in parentheses labels a choice or
 gather

---
 compiler/src/parser/choice.rs    | 20 ++++++++++++++------
 compiler/src/parser/mod.rs       |  2 +-
 compiler/src/parser/statement.rs | 13 +++----------
 3 files changed, 18 insertions(+), 17 deletions(-)

diff --git a/compiler/src/parser/choice.rs b/compiler/src/parser/choice.rs
index 44e18d8..f1fff94 100644
--- a/compiler/src/parser/choice.rs
+++ b/compiler/src/parser/choice.rs
@@ -268,6 +268,17 @@ pub(super) fn gather_nesting_level(trimmed: &str) -> usize {
     level
 }
 
+/// Parse the `(name)` that labels a choice or a gather, and what follows it.
+/// Anything else in parentheses is ordinary text.
+pub fn parse_bracketed_name(input: &str) -> Option<(&str, &str)> {
+    let (name, rest) = input.strip_prefix('(')?.split_once(')')?;
+    let name = name.trim();
+    let is_name = name.chars().all(|c| c.is_alphanumeric() || c == '_')
+        && name.chars().any(|c| !c.is_ascii_digit());
+
+    is_name.then(|| (name, rest.trim_start()))
+}
+
 pub fn parse_choice_prefixes(
     input: &str,
 ) -> Result<(Option<String>, Vec<Condition>, &str), CompilerError> {
@@ -275,12 +286,9 @@ pub fn parse_choice_prefixes(
     let mut label = None;
     let mut conditions = Vec::new();
 
-    if let Some(after_open) = remainder.strip_prefix('(') {
-        let end = after_open.find(')').ok_or_else(|| {
-            CompilerError::invalid_source("choice label is missing ')'".to_owned())
-        })?;
-        label = Some(after_open[..end].trim().to_owned());
-        remainder = after_open[end + 1..].trim_start();
+    if let Some((name, rest)) = parse_bracketed_name(remainder) {
+        label = Some(name.to_owned());
+        remainder = rest;
     }
 
     while let Some(after_open) = remainder.strip_prefix('{') {
diff --git a/compiler/src/parser/mod.rs b/compiler/src/parser/mod.rs
index aeb1ecc..ac1ecac 100644
--- a/compiler/src/parser/mod.rs
+++ b/compiler/src/parser/mod.rs
@@ -10,7 +10,7 @@ use crate::{
 };
 
 use self::{
-    choice::parse_choice,
+    choice::{parse_bracketed_name, parse_choice},
     conditional::{looks_like_conditional, parse_conditional},
     expression::{parse_bool, parse_call_like, parse_expression, parse_path_identifier},
     inline::{
diff --git a/compiler/src/parser/statement.rs b/compiler/src/parser/statement.rs
index 6048e82..a5a5760 100644
--- a/compiler/src/parser/statement.rs
+++ b/compiler/src/parser/statement.rs
@@ -162,16 +162,9 @@ pub fn parse_statement(
         }
 
         // Check for gather label: (label_name) at the start
-        let (gather_label, gather_content) = if gather_content.starts_with('(') {
-            if let Some(end) = gather_content.find(')') {
-                let label = gather_content[1..end].trim().to_owned();
-                let rest = gather_content[end + 1..].trim_start();
-                (Some(label), rest)
-            } else {
-                (None, gather_content)
-            }
-        } else {
-            (None, gather_content)
+        let (gather_label, gather_content) = match parse_bracketed_name(gather_content) {
+            Some((label, rest)) => (Some(label.to_owned()), rest),
+            None => (None, gather_content),
         };
 
         // Handle "- * choice" or "- + choice": a gather point immediately followed by a
-- 
2.43.0


From 885bbbd9466f035990eca03058ef69592b464b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:06 +0000
Subject: [PATCH 37/78] fix: save infinities and NaN as the reference engine
 does, so that the save loads

---
 runtime/src/json/json_write.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/runtime/src/json/json_write.rs b/runtime/src/json/json_write.rs
index 41697e9..d34348f 100644
--- a/runtime/src/json/json_write.rs
+++ b/runtime/src/json/json_write.rs
@@ -97,6 +97,14 @@ pub fn write_rtobject(o: Rc<dyn RTObject>) -> Result<serde_json::Value, StoryErr
     }
 
     if let Some(v) = Value::get_value::<f32>(o.as_ref()) {
+        // JSON has no infinities and no NaN: write what the reference engine does
+        let v = if v.is_nan() {
+            0.0
+        } else if v.is_infinite() {
+            3.4e38_f32.copysign(v)
+        } else {
+            v
+        };
         return Ok(json!(v));
     }
 
-- 
2.43.0


From 912301adb13abb7f08e16bb6b87987c4faca7f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:55 +0000
Subject: [PATCH 38/78] fix: content that is not there is an error, not a panic

---
 runtime/src/story/progress.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/runtime/src/story/progress.rs b/runtime/src/story/progress.rs
index d032c30..93433d2 100644
--- a/runtime/src/story/progress.rs
+++ b/runtime/src/story/progress.rs
@@ -3,7 +3,7 @@ use crate::{
     choice_point::ChoicePoint,
     container::Container,
     control_command::{CommandType, ControlCommand},
-    object::RTObject,
+    object::{Object, RTObject},
     pointer::{self, Pointer},
     push_pop::PushPopType,
     story::{OutputStateChange, Story, errors::ErrorType},
@@ -416,6 +416,18 @@ impl Story {
         // that was diverted to rather than called as a function)
         let mut current_content_obj = pointer.resolve();
 
+        if current_content_obj.is_none() {
+            return Err(StoryError::InvalidStoryState(format!(
+                "There is no content at index {} of '{}'",
+                pointer.index,
+                pointer
+                    .container
+                    .as_ref()
+                    .map(|c| Object::get_path(c.as_ref()).to_string())
+                    .unwrap_or_default()
+            )));
+        }
+
         let is_logic_or_flow_control = self.perform_logic_and_flow_control(&current_content_obj)?;
 
         // Has flow been forced to end by flow control above?
-- 
2.43.0


From 852fa96a95955fa8f5a8de244742b7b963d4ecc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:30 +0000
Subject: [PATCH 39/78] fix: an infinite number was saved as a finite one

---
 runtime/src/json/json_write.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/runtime/src/json/json_write.rs b/runtime/src/json/json_write.rs
index d34348f..a493f70 100644
--- a/runtime/src/json/json_write.rs
+++ b/runtime/src/json/json_write.rs
@@ -97,15 +97,12 @@ pub fn write_rtobject(o: Rc<dyn RTObject>) -> Result<serde_json::Value, StoryErr
     }
 
     if let Some(v) = Value::get_value::<f32>(o.as_ref()) {
-        // JSON has no infinities and no NaN: write what the reference engine does
-        let v = if v.is_nan() {
-            0.0
-        } else if v.is_infinite() {
-            3.4e38_f32.copysign(v)
-        } else {
-            v
-        };
-        return Ok(json!(v));
+        // JSON has no infinities and no NaN: an infinity is written as a number
+        // too large for 32 bits, a NaN as the reference engine does
+        if v.is_infinite() {
+            return Ok(json!(1e39_f64.copysign(v as f64)));
+        }
+        return Ok(json!(if v.is_nan() { 0.0 } else { v }));
     }
 
     if let Some(v) = Value::get_value::<&StringValue>(o.as_ref()) {
-- 
2.43.0


From 66a7b9e192732146342e3acf7f4a3ad9713fed25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:17 +0000
Subject: [PATCH 40/78] fix: text printed by a function called in += or -= ran
 into the next line

---
 compiler/src/emitter/expression.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/compiler/src/emitter/expression.rs b/compiler/src/emitter/expression.rs
index 28a21aa..b1ce054 100644
--- a/compiler/src/emitter/expression.rs
+++ b/compiler/src/emitter/expression.rs
@@ -202,6 +202,9 @@ fn emit_assignment(
                 out.push(json!({"VAR=": variable_name, "re": true}));
             }
             out.push(json!("/ev"));
+            if expression_has_function_call(expression) {
+                out.push(json!("\n"));
+            }
         }
         AssignMode::SubtractAssign => {
             out.push(json!("ev"));
@@ -219,6 +222,9 @@ fn emit_assignment(
                 out.push(json!({"VAR=": variable_name, "re": true}));
             }
             out.push(json!("/ev"));
+            if expression_has_function_call(expression) {
+                out.push(json!("\n"));
+            }
         }
     }
 }
-- 
2.43.0


From b6f58569975e757f942205d8cc86db9d32ae4c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:30 +0000
Subject: [PATCH 41/78] fix: a taken choice prints the text before and after
 its brackets as written, and its divert continues that line

---
 compiler/src/emitter/choice.rs          |  15 +-
 compiler/src/emitter/choice_threaded.rs |   6 -
 compiler/src/emitter/choice_wrapped.rs  |  43 +----
 compiler/src/parser/choice.rs           | 211 ++++++------------------
 4 files changed, 62 insertions(+), 213 deletions(-)

diff --git a/compiler/src/emitter/choice.rs b/compiler/src/emitter/choice.rs
index 5a515c3..7698005 100644
--- a/compiler/src/emitter/choice.rs
+++ b/compiler/src/emitter/choice.rs
@@ -56,7 +56,7 @@ fn emit_choice(
             && choice.body_divert_is_inline
             && matches!(choice.body.as_slice(), [Node::Divert(_)])
         {
-            branch_nodes.extend(tokenize_inline_content(&format!(" {selected_text}"))?);
+            branch_nodes.extend(tokenize_inline_content(selected_text)?);
             branch_nodes.extend(choice.body.clone());
             branch_nodes.push(Node::Newline);
             body_already_emitted = true;
@@ -74,17 +74,8 @@ fn emit_choice(
         }
         branch_nodes.extend(choice.selected_tags.iter().cloned().map(Node::Tag));
         if !body_already_emitted {
-            // Skip the auto-newline for terminal diverts, and also for inline diverts that are
-            // authored after inline selected text on the same source line (the selected text keeps
-            // the trailing whitespace needed to join the diverted content).
-            let body_is_terminal_divert = matches!(
-                choice.body.as_slice(),
-                [Node::Divert(d)] if d.target == "END" || d.target == "DONE"
-            );
-            let body_is_inline_divert = choice.body_divert_is_inline
-                && matches!(choice.body.as_slice(), [Node::Divert(_)])
-                && selected_text.ends_with(char::is_whitespace);
-            if !body_is_terminal_divert && !body_is_inline_divert {
+            // What a divert on the choice's own line leads to continues that line.
+            if !choice.body_divert_is_inline {
                 branch_nodes.push(Node::Newline);
             }
         }
diff --git a/compiler/src/emitter/choice_threaded.rs b/compiler/src/emitter/choice_threaded.rs
index c0c60c3..ad7da33 100644
--- a/compiler/src/emitter/choice_threaded.rs
+++ b/compiler/src/emitter/choice_threaded.rs
@@ -372,9 +372,6 @@ fn build_threaded_choice_block_no_label(
                 choice,
                 &branch_scope,
                 WrappedLoopChoiceBodyConfig {
-                    choice_index: local_choice_index,
-                    header_idx,
-                    choices_prefix: &choices_prefix,
                     continuation_path: Some(&continuation_path_abs),
                     continuation_terminal: None,
                 },
@@ -396,9 +393,6 @@ fn build_threaded_choice_block_no_label(
                 fallback_choice,
                 &branch_scope,
                 WrappedLoopChoiceBodyConfig {
-                    choice_index: local_choice_index,
-                    header_idx: 0,
-                    choices_prefix: &choices_prefix,
                     continuation_path: Some(&continuation_path_abs),
                     continuation_terminal: None,
                 },
diff --git a/compiler/src/emitter/choice_wrapped.rs b/compiler/src/emitter/choice_wrapped.rs
index 115f956..762c97b 100644
--- a/compiler/src/emitter/choice_wrapped.rs
+++ b/compiler/src/emitter/choice_wrapped.rs
@@ -107,9 +107,6 @@ fn build_wrapped_loop_choice_block(
                 choice,
                 &branch_scope,
                 WrappedLoopChoiceBodyConfig {
-                    choice_index: local_choice_index,
-                    header_idx,
-                    choices_prefix: &choices_prefix,
                     continuation_path: if simple_terminal_fallback.is_some() {
                         None
                     } else {
@@ -187,9 +184,6 @@ fn emit_wrapped_loop_choice_header(
 }
 
 struct WrappedLoopChoiceBodyConfig<'a> {
-    choice_index: usize,
-    header_idx: usize,
-    choices_prefix: &'a str,
     continuation_path: Option<&'a str>,
     continuation_terminal: Option<&'a str>,
 }
@@ -215,7 +209,7 @@ fn emit_wrapped_loop_choice_body(
             && choice.body_divert_is_inline
             && matches!(choice.body.as_slice(), [Node::Divert(_)])
         {
-            branch_nodes.extend(tokenize_inline_content(&format!(" {selected_text}"))?);
+            branch_nodes.extend(tokenize_inline_content(selected_text)?);
             branch_nodes.extend(choice.body.clone());
             branch_nodes.push(Node::Newline);
             body_already_emitted = true;
@@ -228,19 +222,12 @@ fn emit_wrapped_loop_choice_body(
                 arguments: Vec::new(),
             }));
             body_already_emitted = true;
-        } else if !choice.has_start_content {
+        } else {
             branch_nodes.extend(tokenize_inline_content(selected_text)?);
         }
         branch_nodes.extend(choice.selected_tags.iter().cloned().map(Node::Tag));
-        if !body_already_emitted && !choice.has_start_content {
-            let body_is_terminal_divert = matches!(
-                choice.body.as_slice(),
-                [Node::Divert(d)] if d.target == "END" || d.target == "DONE"
-            );
-            let body_is_inline_divert = choice.body_divert_is_inline
-                && matches!(choice.body.as_slice(), [Node::Divert(_)])
-                && selected_text.ends_with(char::is_whitespace);
-            if !body_is_terminal_divert && !body_is_inline_divert {
+        if !body_already_emitted {
+            if !choice.body_divert_is_inline {
                 branch_nodes.push(Node::Newline);
             }
         }
@@ -308,27 +295,7 @@ fn emit_wrapped_loop_choice_body(
         flags |= COUNT_TURNS;
     }
     let branch_count_flags = if flags > 0 { Some(flags | 4) } else { None };
-    if !choice.has_start_content {
-        return branch_container.into_json_array(None, branch_count_flags);
-    }
-
-    let mut arr = match branch_container.into_json_array(None, branch_count_flags)? {
-        Value::Array(arr) => arr,
-        _ => unreachable!(),
-    };
-    let last = arr.pop().unwrap();
-    let mut out = vec![
-        json!("ev"),
-        json!({"^->": format!("{}.c-{}.$r2", config.choices_prefix, config.choice_index)}),
-        json!("/ev"),
-        json!({"temp=": "$r"}),
-        json!({"->": format!("{}.{}.s", config.choices_prefix, config.header_idx)}),
-        Value::Array(vec![json!({"#n": "$r2"})]),
-        json!("\n"),
-    ];
-    out.append(&mut arr);
-    out.push(last);
-    Ok(Value::Array(out))
+    branch_container.into_json_array(None, branch_count_flags)
 }
 
 fn wrapped_loop_simple_terminal_fallback(nodes: &[Node]) -> Option<&'static str> {
diff --git a/compiler/src/parser/choice.rs b/compiler/src/parser/choice.rs
index f1fff94..7a84f88 100644
--- a/compiler/src/parser/choice.rs
+++ b/compiler/src/parser/choice.rs
@@ -8,8 +8,7 @@ use super::inline::parse_divert_line;
 use super::{
     Line, ParsedStatement,
     inline::{
-        parse_condition, parse_divert, split_inline_choice_divert, split_inline_divert,
-        split_text_and_tags,
+        parse_condition, parse_divert, split_inline_choice_divert, split_text_and_tags,
     },
 };
 
@@ -304,13 +303,13 @@ pub fn parse_choice_prefixes(
 
 pub fn parse_choice_text(input: &str) -> Result<ParsedChoiceText, CompilerError> {
     let input = input.trim_start();
-    let trimmed = input.trim_end();
     // `\ ` at the start of choice content is a whitespace-suppression escape —
     // strip the backslash but keep what follows (may start with a space that itself gets trimmed).
-    let trimmed = trimmed
+    let untrimmed = input
         .strip_prefix("\\ ")
         .map(str::trim_start)
-        .unwrap_or(trimmed);
+        .unwrap_or(input);
+    let trimmed = untrimmed.trim_end();
 
     if trimmed.starts_with("->->") {
         // `* ->-> target(args)` — tunnel return with optional new destination
@@ -351,163 +350,61 @@ pub fn parse_choice_text(input: &str) -> Result<ParsedChoiceText, CompilerError>
         });
     }
 
-    if let Some(choice_only) = input.strip_prefix('[') {
-        let end = choice_only.find(']').ok_or_else(|| {
-            CompilerError::invalid_source("choice label is missing closing ']'".to_owned())
-        })?;
-        let label = choice_only[..end].trim().to_owned();
-        let raw_after_label = &choice_only[end + 1..];
-        let after_label = if raw_after_label.trim().is_empty() {
-            raw_after_label
-        } else {
-            raw_after_label.trim_start()
-        };
-        let (choice_only_text, choice_only_tags) = split_text_and_tags(&label)?;
-        if after_label.is_empty() || after_label.starts_with("->") {
-            let inline_target = after_label
-                .strip_prefix("->")
-                .map(str::trim)
-                .map(parse_divert)
-                .transpose()?;
-            return Ok(ParsedChoiceText {
-                display_text: choice_only_text.clone(),
-                selected_text: None,
-                start_text: String::new(),
-                choice_only_text,
-                has_start_content: false,
-                has_choice_only_content: true,
-                inline_target,
-                inline_body_nodes: Vec::new(),
-                start_tags: Vec::new(),
-                choice_only_tags,
-                selected_tags: Vec::new(),
-            });
+    // `start[choice only]end -> target`: the choice shows `start` and `choice only`, taking it
+    // prints `start` and `end`, each exactly as written.
+    let (start, choice_only, end) = match untrimmed.split_once('[') {
+        Some((start, rest)) => match rest.split_once(']') {
+            Some((choice_only, end)) => (start, choice_only, end),
+            None if start.is_empty() => {
+                return Err(CompilerError::invalid_source(
+                    "choice label is missing closing ']'".to_owned(),
+                ));
+            }
+            None => (untrimmed, "", ""),
+        },
+        None => (untrimmed, "", ""),
+    };
+    let last = if end.is_empty() { start } else { end };
+    let (last, inline_target) = split_inline_choice_divert(last)?;
+    let (start, end) = if end.is_empty() {
+        (last, "")
+    } else {
+        (start, last)
+    };
+    let (start_text, start_tags) = split_text_and_tags(start)?;
+    let (mut choice_only_text, choice_only_tags) = split_text_and_tags(choice_only)?;
+    let (end_text, end_tags) = split_text_and_tags(end)?;
+    // A quotation left open by the brackets ends the choice as it ends the text.
+    if !choice_only_text.is_empty() && !end.trim_start().starts_with('{') {
+        let closing: String = end_text
+            .chars()
+            .take_while(char::is_ascii_punctuation)
+            .filter(|c| matches!(c, '\'' | '"' | ')' | ']'))
+            .collect();
+        if !choice_only_text.trim_end().ends_with(&closing) {
+            choice_only_text.push_str(&closing);
         }
-
-        let (selected_text, inline_target) = split_inline_choice_divert(after_label)?;
-        let (selected_text, selected_tags) = split_text_and_tags(selected_text)?;
-        return Ok(ParsedChoiceText {
-            display_text: choice_only_text.clone(),
-            selected_text: Some(selected_text),
-            start_text: String::new(),
-            choice_only_text,
-            has_start_content: false,
-            has_choice_only_content: true,
-            inline_target,
-            inline_body_nodes: Vec::new(),
-            start_tags: Vec::new(),
-            choice_only_tags,
-            selected_tags,
-        });
     }
-
-    if let Some((before, after)) = trimmed.split_once("[]") {
-        let display = before.trim_end().to_owned();
-        let raw_suffix = after.trim_start();
-        let had_space_before_inline_divert = split_inline_divert(raw_suffix)
-            .and_then(|(text, _)| text.chars().last())
-            .is_some_and(char::is_whitespace);
-        let (suffix, inline_target) = split_inline_choice_divert(raw_suffix)?;
-        let suffix = if inline_target.is_some() && had_space_before_inline_divert {
-            format!("{suffix} ")
-        } else {
-            suffix.to_owned()
-        };
-        let (start_text, start_tags) = split_text_and_tags(&display)?;
-        let selected = if suffix.is_empty() {
-            Some(display.clone())
-        } else if suffix.starts_with(|c: char| c.is_ascii_punctuation() && c != '"' && c != '\'') {
-            Some(format!("{display}{suffix}"))
-        } else {
-            Some(format!("{display} {suffix}"))
-        };
-        let (selected_text, selected_tags) =
-            split_text_and_tags(selected.as_deref().unwrap_or(""))?;
-        return Ok(ParsedChoiceText {
-            display_text: start_text.clone(),
-            selected_text: Some(selected_text),
-            start_text,
-            choice_only_text: String::new(),
-            has_start_content: true,
-            has_choice_only_content: false,
-            inline_target,
-            inline_body_nodes: Vec::new(),
-            start_tags,
-            choice_only_tags: Vec::new(),
-            selected_tags,
-        });
-    }
-
-    if let Some(open) = trimmed.find('[')
-        && let Some(close_rel) = trimmed[open + 1..].find(']')
-    {
-        let close = open + 1 + close_rel;
-        let start = &trimmed[..open];
-        let choice_only = trimmed[open + 1..close].trim();
-        let end = trimmed[close + 1..].trim_start();
-        let (end, inline_target) = split_inline_choice_divert(end)?;
-        let (start_text, start_tags) = split_text_and_tags(start)?;
-        let (choice_only_text, choice_only_tags) = split_text_and_tags(choice_only)?;
-        let (end_text, end_tags) = split_text_and_tags(end)?;
-        // Append closing punctuation from `end` to choice_only_text only when the
-        // `end` segment is plain text that starts with closing punctuation (like `."` or `,'`).
-        // Do NOT pull chars from an expression like `{foo}`.
-        let display_suffix: String = if !end.trim_start().starts_with('{') {
-            end_text
-                .chars()
-                .take_while(|c| c.is_ascii_punctuation())
-                .filter(|c| matches!(c, '\'' | '"' | ')' | ']'))
-                .collect()
-        } else {
-            String::new()
-        };
-        let choice_only_text = format!("{choice_only_text}{display_suffix}");
-        let display = format!("{start_text}{choice_only_text}");
-        let selected_text = if end_text.is_empty() {
-            start_text.trim_end().to_owned()
-        } else if start_text.trim().is_empty() {
-            end_text
-        } else if end_text
-            .starts_with(|c: char| c.is_ascii_punctuation() && c != '"' && c != '\'' && c != '{')
-        {
-            format!("{}{}", start_text.trim_end(), end_text)
-        } else {
-            format!("{} {}", start_text.trim_end(), end_text)
-        };
-        let mut selected_tags = start_tags.clone();
-        selected_tags.extend(end_tags);
-        return Ok(ParsedChoiceText {
-            display_text: display,
-            selected_text: Some(selected_text),
-            start_text,
-            choice_only_text,
-            has_start_content: !start.trim().is_empty(),
-            has_choice_only_content: true,
-            inline_target,
-            inline_body_nodes: Vec::new(),
-            start_tags,
-            choice_only_tags,
-            selected_tags,
-        });
+    let mut selected_text = format!("{start_text}{end_text}");
+    if inline_target.is_some() && !selected_text.is_empty() {
+        // One blank separates the text from the content diverted to.
+        selected_text.truncate(selected_text.trim_end().len());
+        selected_text.push(' ');
     }
-
-    let (trimmed, inline_target) = split_inline_choice_divert(trimmed)?;
-    let (start_text, start_tags) = split_text_and_tags(trimmed)?;
+    let mut selected_tags = start_tags.clone();
+    selected_tags.extend(end_tags);
+    let prints_nothing = selected_text.is_empty() && selected_tags.is_empty();
     Ok(ParsedChoiceText {
-        display_text: start_text.clone(),
-        selected_text: if start_text.is_empty() {
-            None
-        } else {
-            Some(start_text.clone())
-        },
-        start_text: start_text.clone(),
-        choice_only_text: String::new(),
-        has_start_content: !start_text.is_empty(),
-        has_choice_only_content: false,
+        display_text: format!("{start_text}{choice_only_text}"),
+        selected_text: (!prints_nothing).then_some(selected_text),
+        has_start_content: !start.trim().is_empty(),
+        has_choice_only_content: !choice_only.is_empty(),
+        start_text,
+        choice_only_text,
         inline_target,
         inline_body_nodes: Vec::new(),
-        start_tags: start_tags.clone(),
-        choice_only_tags: Vec::new(),
-        selected_tags: start_tags,
+        start_tags,
+        choice_only_tags,
+        selected_tags,
     })
 }
-- 
2.43.0


From d47b47c694d60360cc93e7e57b9484aaa86f3910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:39 +0000
Subject: [PATCH 42/78] fix: labels of other stitches of the knot can be read,
 and glue in a choice is glue

---
 compiler/src/emitter/context.rs    | 18 +++++++++++++++++-
 compiler/src/emitter/expression.rs | 25 ++++++++++++++++++++-----
 2 files changed, 37 insertions(+), 6 deletions(-)

diff --git a/compiler/src/emitter/context.rs b/compiler/src/emitter/context.rs
index f6fdcbe..4d9fd48 100644
--- a/compiler/src/emitter/context.rs
+++ b/compiler/src/emitter/context.rs
@@ -612,7 +612,23 @@ impl EmitScope {
             return abs.clone();
         }
 
-        target.to_owned()
+        self.resolve_label_of_knot(target, context)
+            .unwrap_or(target)
+            .to_owned()
+    }
+
+    /// A label in another stitch of the current knot.
+    fn resolve_label_of_knot<'a>(&self, label: &str, context: &'a EmitContext) -> Option<&'a str> {
+        let knot = self.top_flow_name.as_deref()?;
+        let mut found = context.qualified_choice_labels.iter().filter(|(name, _)| {
+            name.strip_prefix(knot)
+                .and_then(|rest| rest.strip_prefix('.'))
+                .is_some_and(|rest| rest.rsplit('.').next() == Some(label))
+        });
+        match (found.next(), found.next()) {
+            (Some((_, path)), None) => Some(path),
+            _ => None,
+        }
     }
 
     fn is_variable_divert(&self, target: &str, context: &EmitContext) -> bool {
diff --git a/compiler/src/emitter/expression.rs b/compiler/src/emitter/expression.rs
index b1ce054..a11c32f 100644
--- a/compiler/src/emitter/expression.rs
+++ b/compiler/src/emitter/expression.rs
@@ -318,6 +318,12 @@ fn emit_expression_ctx(
                 out.push(json!({"CNT?": s.resolve_divert_target(name, ctx)}))
             } else if context.is_some_and(|ctx| ctx.top_flow_names.contains(name)) {
                 out.push(json!({"CNT?": name}))
+            } else if let (Some(s), Some(ctx)) = (scope, context)
+                && !ctx.global_variables.contains(name)
+                && !s.temp_param_names.contains(name)
+                && let Some(path) = s.resolve_label_of_knot(name, ctx)
+            {
+                out.push(json!({"CNT?": path}))
             } else {
                 out.push(json!({"VAR?": name}))
             }
@@ -498,9 +504,7 @@ fn emit_dynamic_string_parts(
 
     match &parts[0] {
         DynamicStringPart::Text(text) => {
-            if !text.is_empty() {
-                out.push(json!(format!("^{text}")));
-            }
+            emit_text_and_glue(text, out);
             emit_dynamic_string_parts(&parts[1..], out, scope, context)
         }
         DynamicStringPart::Expression(expression) => {
@@ -522,6 +526,17 @@ fn emit_dynamic_string_parts(
     }
 }
 
+fn emit_text_and_glue(text: &str, out: &mut Vec<Value>) {
+    for (index, text) in text.split("<>").enumerate() {
+        if index > 0 {
+            out.push(json!("<>"));
+        }
+        if !text.is_empty() {
+            out.push(json!(format!("^{text}")));
+        }
+    }
+}
+
 fn emit_tag(
     tag: &DynamicString,
     out: &mut Vec<Value>,
@@ -558,7 +573,7 @@ fn emit_choice_text_segment(
         if has_inline {
             emit_dynamic_string_parts(&dynamic.parts, out, scope, context)?;
         } else {
-            out.push(json!(format!("^{text}")));
+            emit_text_and_glue(text, out);
         }
     }
     for tag in tags {
@@ -590,7 +605,7 @@ fn emit_choice_text_content(
         if has_inline {
             emit_dynamic_string_parts(&dynamic.parts, out, scope, context)?;
         } else {
-            out.push(json!(format!("^{text}")));
+            emit_text_and_glue(text, out);
         }
     }
     for tag in tags {
-- 
2.43.0


From 52b81f0fafc52160f81d2ab9785a14c50147c64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:04 +0000
Subject: [PATCH 43/78] fix: a call with a comparison among its arguments was
 taken for an assignment

---
 compiler/src/parser/declarations.rs | 56 +++++++++++++----------------
 1 file changed, 25 insertions(+), 31 deletions(-)

diff --git a/compiler/src/parser/declarations.rs b/compiler/src/parser/declarations.rs
index 92d4c2e..79012c7 100644
--- a/compiler/src/parser/declarations.rs
+++ b/compiler/src/parser/declarations.rs
@@ -110,41 +110,35 @@ fn parse_assignment(input: &str) -> Result<Node, CompilerError> {
         });
     }
 
-    // Check for a standalone function call (no '=' in the statement, but has '()')
-    // e.g. `~ derp(2, 3, 4)` or `~ merchant_init()`
-    if !input.contains('=')
-        && let Ok(Some((name, args))) = parse_call_like(input)
-    {
+    // `name = value`, `name += value`, `name -= value`; anything else is a call made for its
+    // effects, e.g. `~ derp(2, 3, 4)` or `~ check(a == b)`.
+    let name_end = input
+        .find(|c: char| !(c.is_alphanumeric() || c == '_'))
+        .unwrap_or(input.len());
+    let operator = input[name_end..].trim_start();
+    let (separator, mode) = if operator.starts_with("+=") {
+        ("+=", AssignMode::AddAssign)
+    } else if operator.starts_with("-=") {
+        ("-=", AssignMode::SubtractAssign)
+    } else if operator.starts_with('=') && !operator.starts_with("==") {
+        let mode = if is_temp {
+            AssignMode::TempSet
+        } else {
+            AssignMode::Set
+        };
+        ("=", mode)
+    } else if let Ok(Some((name, args))) = parse_call_like(input) {
         return Ok(Node::VoidCall { name, args });
-    }
-
-    if input.contains("+=") {
-        let (name, expression) = split_assignment(input, "+=")?;
-        return Ok(Node::Assignment {
-            variable_name: name,
-            expression: parse_expression(&expression)?,
-            mode: AssignMode::AddAssign,
-        });
-    }
-
-    if input.contains("-=") {
-        let (name, expression) = split_assignment(input, "-=")?;
-        return Ok(Node::Assignment {
-            variable_name: name,
-            expression: parse_expression(&expression)?,
-            mode: AssignMode::SubtractAssign,
-        });
-    }
-
-    let (name, expression) = split_assignment(input, "=")?;
+    } else {
+        return Err(CompilerError::invalid_source(
+            "expected an assignment or a function call after '~'".to_owned(),
+        ));
+    };
+    let (name, expression) = split_assignment(input, separator)?;
     Ok(Node::Assignment {
         variable_name: name,
         expression: parse_expression(&expression)?,
-        mode: if is_temp {
-            AssignMode::TempSet
-        } else {
-            AssignMode::Set
-        },
+        mode,
     })
 }
 
-- 
2.43.0


From d93d3cbc994f8076a65f94813202a2c013c51493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:08 +0000
Subject: [PATCH 44/78] fix: a list item named with its list was read as a
 visit count

---
 compiler/src/emitter/conditional.rs | 4 ----
 compiler/src/emitter/expression.rs  | 8 +++++++-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/compiler/src/emitter/conditional.rs b/compiler/src/emitter/conditional.rs
index d17e8ae..ecedb99 100644
--- a/compiler/src/emitter/conditional.rs
+++ b/compiler/src/emitter/conditional.rs
@@ -25,10 +25,6 @@ fn emit_condition(
         {
             out.push(json!({"CNT?": scope.resolve_divert_target(name, context)}));
         }
-        // Fully-qualified path like knot.stitch.label — treat as CNT? visit count
-        Condition::Expression(Expression::Variable(name)) if name.contains('.') => {
-            out.push(json!({"CNT?": name}));
-        }
         Condition::Expression(expression) => {
             emit_expression_ctx(expression, out, Some(context), Some(scope))
         }
diff --git a/compiler/src/emitter/expression.rs b/compiler/src/emitter/expression.rs
index a11c32f..9c4c6e9 100644
--- a/compiler/src/emitter/expression.rs
+++ b/compiler/src/emitter/expression.rs
@@ -296,6 +296,9 @@ fn emit_expression_ctx(
                 Some(value @ (Expression::ListItems(_) | Expression::DivertTarget(_))) => {
                     emit_expression_ctx(value, out, context, scope)
                 }
+                Some(value @ Expression::Variable(item)) if item.contains('.') => {
+                    emit_expression_ctx(value, out, context, scope)
+                }
                 // Without context, so a constant that mentions itself is not
                 // expanded over and over.
                 Some(value) => emit_expression_ctx(value, out, None, None),
@@ -309,7 +312,10 @@ fn emit_expression_ctx(
             {
                 out.push(json!({"CNT?": path}))
             } else if name.contains('.') {
-                out.push(json!({"CNT?": name}))
+                match context.and_then(|ctx| ctx.resolve_list_item(name)) {
+                    Some(_) => out.push(json!({"VAR?": name})),
+                    None => out.push(json!({"CNT?": name})),
+                }
             } else if let (Some(s), Some(ctx)) = (scope, context)
                 && (ctx.top_flow_names.contains(name)
                     || s.child_flow_names.contains(name)
-- 
2.43.0


From fedd2d0c8485275bc5ff0ea7df4d1fb81a8971ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:40 +0000
Subject: [PATCH 45/78] fix: an empty LIST_RANGE forgot which lists it came
 from

---
 runtime/src/ink_list.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/ink_list.rs b/runtime/src/ink_list.rs
index 8387725..da29ce8 100644
--- a/runtime/src/ink_list.rs
+++ b/runtime/src/ink_list.rs
@@ -239,7 +239,7 @@ impl InkList {
         }
 
         let mut sub_list = InkList::new();
-        sub_list.set_initial_origin_names(self.initial_origin_names.borrow().clone());
+        sub_list.set_initial_origin_names(self.get_origin_names());
 
         for (k, v) in ordered {
             if *v >= min_value && *v <= max_value {
-- 
2.43.0


From 821c1ae76f9cf1adf2904a40cda59220578b6c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:58 +0000
Subject: [PATCH 46/78] fix: the condition 'not ()' was taken for a call

---
 compiler/src/inline.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/compiler/src/inline.rs b/compiler/src/inline.rs
index a5343a7..3488c05 100644
--- a/compiler/src/inline.rs
+++ b/compiler/src/inline.rs
@@ -550,6 +550,7 @@ pub fn parse_condition(condition: &str) -> Result<crate::ast::Condition, Compile
         _ => {
             if let Some(name) = condition.strip_suffix("()").map(str::trim)
                 && !name.is_empty()
+                && name != "not"
                 && name.chars().all(|c| c.is_alphanumeric() || c == '_')
             {
                 return Ok(Condition::FunctionCall(name.to_owned()));
-- 
2.43.0


From bad237466558708a2af6ea34ae6ac35e0eb08dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:47 +0000
Subject: [PATCH 47/78] fix: an else branch without a blank after its dash was
 text

---
 compiler/src/parser/conditional.rs | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/compiler/src/parser/conditional.rs b/compiler/src/parser/conditional.rs
index 33134d0..39afe6f 100644
--- a/compiler/src/parser/conditional.rs
+++ b/compiler/src/parser/conditional.rs
@@ -74,7 +74,7 @@ pub fn parse_conditional(
         let first_body = lines[first_body_line_index].content.trim();
         if first_body.starts_with('-')
             && !first_body.starts_with("->")
-            && !first_body.starts_with("- else:")
+            && else_branch(first_body).is_none()
         {
             // Check that the branch looks like "- case_expr: body" (has a colon after stripping -)
             let branch_content = first_body.trim_start_matches('-').trim_start();
@@ -168,17 +168,8 @@ pub fn parse_conditional(
             return Ok(nodes);
         }
 
-        if trimmed == "- else:" {
-            in_else = true;
-            *line_index += 1;
-            if body_line.had_newline {
-                when_false.push(Node::Newline);
-            }
-            continue;
-        }
-
-        // `- else: inline_content` on a single line
-        if let Some(else_content) = trimmed.strip_prefix("- else:") {
+        // `- else:`, perhaps with content on the same line
+        if let Some(else_content) = else_branch(trimmed) {
             in_else = true;
             *line_index += 1;
             let rest = else_content.trim();
@@ -313,7 +304,7 @@ pub fn parse_multi_branch_conditional(
             }
 
             let header = header.trim_start();
-            if let Some(rest) = header.strip_prefix("else:") {
+            if let Some(rest) = else_branch(trimmed) {
                 current_condition = None;
                 if !rest.trim().is_empty() {
                     current_nodes.extend(tokenize_inline_content(rest.trim())?);
@@ -430,6 +421,12 @@ pub fn parse_multi_branch_conditional(
     ))
 }
 
+/// What follows `- else:` on its line.
+fn else_branch(line: &str) -> Option<&str> {
+    let header = line.strip_prefix('-')?.trim_start();
+    header.strip_prefix("else")?.trim_start().strip_prefix(':')
+}
+
 /// Every branch of a multi-line block starts on a line of its own.
 fn on_new_line(mut nodes: Vec<Node>) -> Vec<Node> {
     nodes.insert(0, Node::Newline);
@@ -504,7 +501,7 @@ fn parse_switch_conditional(
             }
 
             let header = header.trim_start();
-            if let Some(rest) = header.strip_prefix("else:") {
+            if let Some(rest) = else_branch(trimmed) {
                 current_case = None; // else branch
                 let rest = rest.trim();
                 if !rest.is_empty() {
-- 
2.43.0


From 2c7a71790d985c01d266428cd9eb2cbb681075fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:23 +0000
Subject: [PATCH 48/78] fix: which lines belong to a choice depended on their
 indentation

---
 compiler/src/parser/choice.rs | 43 +++++++++++++----------------------
 1 file changed, 16 insertions(+), 27 deletions(-)

diff --git a/compiler/src/parser/choice.rs b/compiler/src/parser/choice.rs
index 7a84f88..a114f2b 100644
--- a/compiler/src/parser/choice.rs
+++ b/compiler/src/parser/choice.rs
@@ -7,9 +7,7 @@ use super::inline::parse_divert_line;
 
 use super::{
     Line, ParsedStatement,
-    inline::{
-        parse_condition, parse_divert, split_inline_choice_divert, split_text_and_tags,
-    },
+    inline::{parse_condition, parse_divert, split_inline_choice_divert, split_text_and_tags},
 };
 
 pub struct ParsedChoiceText {
@@ -123,9 +121,6 @@ pub fn parse_choice(
     }
 
     let mut body = Vec::new();
-    // Once we absorb a same-level gather, everything that follows at our indent
-    // (choices, text, etc.) becomes part of this choice's body continuation.
-    let mut absorbed_gather = false;
 
     for node in choice_text.inline_body_nodes.clone() {
         body.push(node);
@@ -145,8 +140,7 @@ pub fn parse_choice(
 
         // A choice line whose marker nesting level is <= ours starts a sibling choice
         // block, even if it's indented deeper (Ink weave semantics).
-        if !absorbed_gather
-            && let Some(body_choice_level) = choice_marker_nesting_level(body_trimmed_start)
+        if let Some(body_choice_level) = choice_marker_nesting_level(body_trimmed_start)
             && body_choice_level <= nesting_level
         {
             break;
@@ -173,28 +167,17 @@ pub fn parse_choice(
 
         let gather_level = gather_nesting_level(body_trimmed);
 
-        // A gather whose nesting level matches ours AND which is indented deeper than the
-        // choice itself is the "end of sub-choices / start of continuation" boundary for
-        // this weave level.  Absorb it so the emitter sees it as a GatherPoint separating
-        // the inner choice block from the post-gather continuation.
-        if gather_level == nesting_level && body_line.indent > choice_indent {
-            let statement = parse_stmt(lines, line_index, true)?;
-            if let ParsedStatement::Nodes(mut nodes) = statement {
-                body.append(&mut nodes)
-            }
-            absorbed_gather = true;
-            continue;
-        }
-
-        // A gather at or shallower than our choice indent terminates the choice body.
-        if gather_level > 0 && body_line.indent <= choice_indent {
+        // A gather of our level or above ends the choice, a deeper one gathers choices inside it.
+        if gather_level > 0 && gather_level <= nesting_level {
             break;
         }
 
-        // Non-gather line at or shallower than our indent:
-        // - If we haven't absorbed a same-level gather yet, this is a sibling — stop.
-        // - If we have absorbed a gather, it's the post-gather continuation — include it.
-        if gather_level == 0 && body_line.indent <= choice_indent && !absorbed_gather {
+        // Whatever its indentation, content that follows a choice belongs to it. Only the end of
+        // the surrounding block and declarations do not.
+        if gather_level == 0
+            && body_line.indent <= choice_indent
+            && (body_trimmed.starts_with('}') || is_declaration(body_trimmed))
+        {
             break;
         }
 
@@ -232,6 +215,12 @@ pub fn parse_choice(
     })]))
 }
 
+fn is_declaration(line: &str) -> bool {
+    ["VAR ", "CONST ", "LIST ", "EXTERNAL "]
+        .iter()
+        .any(|keyword| line.starts_with(keyword))
+}
+
 fn choice_marker_nesting_level(trimmed_start: &str) -> Option<usize> {
     let marker = trimmed_start.chars().next()?;
     if marker != '*' && marker != '+' {
-- 
2.43.0


From fb5a6d67ffd54b7a2ca0d487a712b2f6575d8f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:31 +0000
Subject: [PATCH 49/78] fix: blanks around the branches of an inline
 conditional or sequence were dropped

---
 compiler/src/inline.rs             | 9 ++++-----
 compiler/src/parser/conditional.rs | 4 ++--
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/compiler/src/inline.rs b/compiler/src/inline.rs
index 3488c05..9d67eef 100644
--- a/compiler/src/inline.rs
+++ b/compiler/src/inline.rs
@@ -104,11 +104,10 @@ pub fn tokenize_inline_content(content: &str) -> Result<Vec<Node>, CompilerError
             if let Some((condition, branch_text)) = parse_inline_conditional(inline)? {
                 // Split on top-level '|' to get optional false branch.
                 let branches: Vec<&str> = split_top_level_pipe(branch_text);
-                // Use trim_end (not trim) to preserve the leading space that authors
-                // write after ':' — inklecate keeps it as part of the text token.
-                let when_true = tokenize_inline_content(branches[0].trim_end())?;
+                // The blanks that authors write around a branch are part of its text.
+                let when_true = tokenize_inline_content(branches[0])?;
                 let when_false = if branches.len() > 1 {
-                    Some(tokenize_inline_content(branches[1].trim_end())?)
+                    Some(tokenize_inline_content(branches[1])?)
                 } else {
                     None
                 };
@@ -585,7 +584,7 @@ pub fn parse_inline_sequence(content: &str) -> Result<Option<Sequence>, Compiler
 
     let mut branches = Vec::new();
     for part in parts {
-        branches.push(tokenize_inline_content(part.trim())?);
+        branches.push(tokenize_inline_content(part)?);
     }
 
     Ok(Some(Sequence { mode, branches }))
diff --git a/compiler/src/parser/conditional.rs b/compiler/src/parser/conditional.rs
index 39afe6f..a8474e6 100644
--- a/compiler/src/parser/conditional.rs
+++ b/compiler/src/parser/conditional.rs
@@ -36,9 +36,9 @@ pub fn parse_conditional(
         // Split the branch text by top-level `|` to get true and false branches
         use super::inline::split_top_level_pipe;
         let branches: Vec<&str> = split_top_level_pipe(branch_text);
-        let when_true = tokenize_inline_content(branches[0].trim_end())?;
+        let when_true = tokenize_inline_content(branches[0])?;
         let when_false = if branches.len() > 1 {
-            Some(tokenize_inline_content(branches[1].trim_end())?)
+            Some(tokenize_inline_content(branches[1])?)
         } else {
             None
         };
-- 
2.43.0


From 43209791b6cdc80932334ed963acd5b2e3b25cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:08 +0000
Subject: [PATCH 50/78] fix: '->-> target' without arguments did not leave the
 tunnel

---
 compiler/src/emitter/nodes.rs |  8 +++--
 compiler/src/inline.rs        | 67 +++++++++++++----------------------
 2 files changed, 31 insertions(+), 44 deletions(-)

diff --git a/compiler/src/emitter/nodes.rs b/compiler/src/emitter/nodes.rs
index d44c4c8..3474732 100644
--- a/compiler/src/emitter/nodes.rs
+++ b/compiler/src/emitter/nodes.rs
@@ -319,8 +319,12 @@ fn emit_nodes_with_continuation(
                 for arg in args {
                     emit_expression_ctx(arg, &mut out.content, Some(context), Some(scope));
                 }
-                let resolved = scope.resolve_divert_target(target, context);
-                out.push(json!({"^->": resolved}));
+                if scope.is_variable_divert(target, context) {
+                    out.push(json!({"VAR?": target}));
+                } else {
+                    let resolved = scope.resolve_divert_target(target, context);
+                    out.push(json!({"^->": resolved}));
+                }
                 out.push(json!("/ev"));
                 out.push(json!("->->"));
             }
diff --git a/compiler/src/inline.rs b/compiler/src/inline.rs
index 9d67eef..d0e2e7a 100644
--- a/compiler/src/inline.rs
+++ b/compiler/src/inline.rs
@@ -82,6 +82,9 @@ pub fn tokenize_inline_content(content: &str) -> Result<Vec<Node>, CompilerError
         // Divert or tunnel: -> target  or  -> target ->
         if ch == '-' && content[index..].starts_with("->") {
             if !text.is_empty() {
+                // One blank separates the text from the content diverted to.
+                text.truncate(text.trim_end().len());
+                text.push(' ');
                 nodes.push(Node::Text(std::mem::take(&mut text)));
             }
             let divert_str = content[index..].trim();
@@ -201,38 +204,36 @@ pub fn parse_divert(input: &str) -> Result<Divert, CompilerError> {
     })
 }
 
+/// Parses `target` or `target(arg1, arg2)`.
+fn parse_segment(segment: &str) -> Result<(String, Vec<Expression>), CompilerError> {
+    let Some(open) = segment.find('(') else {
+        return Ok((segment.to_string(), Vec::new()));
+    };
+    let close = segment
+        .rfind(')')
+        .filter(|close| *close > open)
+        .ok_or_else(|| CompilerError::invalid_source("missing ')' in divert target".to_owned()))?;
+    let mut args = Vec::new();
+    for arg_str in crate::parser::expression::split_top_level_commas(&segment[open + 1..close]) {
+        if !arg_str.trim().is_empty() {
+            args.push(parse_expression(arg_str.trim())?);
+        }
+    }
+    Ok((segment[..open].trim().to_owned(), args))
+}
+
 pub fn parse_divert_line(input: &str) -> Result<Vec<Node>, CompilerError> {
     let trimmed = input.trim();
     if trimmed == "->->" {
         return Ok(vec![Node::TunnelReturn]);
     }
 
-    // `->-> target (args)`: tunnel return, continuing to `target` with args
-    // e.g. `->-> elsewhere (8)` emits args + {"^->": target} then `->->`
-    // Only applies when explicit args are provided (parenthesized).
-    // `->-> escape` with no parens falls through to the regular path.
+    // `->-> target` or `->-> target (args)`: tunnel return, continuing to `target`
     if let Some(rest) = trimmed.strip_prefix("->->") {
         let rest = rest.trim();
-        if !rest.is_empty() && !rest.starts_with("->") && rest.contains('(') {
-            // Parse `target` or `target(args)` from `rest`
-            let (target_name, args) = if let Some(open) = rest.find('(') {
-                let close = rest.rfind(')').unwrap_or(rest.len() - 1);
-                let tname = rest[..open].trim().to_owned();
-                let args_str = &rest[open + 1..close];
-                let mut args = Vec::new();
-                for arg_str in crate::parser::expression::split_top_level_commas(args_str) {
-                    if !arg_str.trim().is_empty() {
-                        args.push(parse_expression(arg_str.trim())?);
-                    }
-                }
-                (tname, args)
-            } else {
-                (rest.to_owned(), Vec::new())
-            };
-            return Ok(vec![Node::TunnelOnwardsWithTarget {
-                target: target_name,
-                args,
-            }]);
+        if !rest.is_empty() && !rest.starts_with("->") {
+            let (target, args) = parse_segment(rest)?;
+            return Ok(vec![Node::TunnelOnwardsWithTarget { target, args }]);
         }
     }
 
@@ -244,24 +245,6 @@ pub fn parse_divert_line(input: &str) -> Result<Vec<Node>, CompilerError> {
         ));
     }
 
-    // Helper to parse "target" or "target(arg1, arg2)" from a segment
-    fn parse_segment(segment: &str) -> Result<(String, Vec<Expression>), CompilerError> {
-        if let Some(open) = segment.find('(') {
-            let close = segment.rfind(')').unwrap_or(segment.len() - 1);
-            let target = segment[..open].trim().to_owned();
-            let args_str = &segment[open + 1..close];
-            let mut args = Vec::new();
-            for arg_str in crate::parser::expression::split_top_level_commas(args_str) {
-                if !arg_str.trim().is_empty() {
-                    args.push(parse_expression(arg_str.trim())?);
-                }
-            }
-            Ok((target, args))
-        } else {
-            Ok((segment.to_string(), Vec::new()))
-        }
-    }
-
     // `-> tunnel2 ->->`: tunnel to `tunnel2` then return from current tunnel
     if trimmed.ends_with("->->") {
         let mut tunnel_nodes = Vec::new();
-- 
2.43.0


From 93b44c1730954a9e20801f6119820a4795d650f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:41 +0000
Subject: [PATCH 51/78] fix: blanks between the text of a line and its divert

---
 compiler/src/parser/declarations.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/compiler/src/parser/declarations.rs b/compiler/src/parser/declarations.rs
index 79012c7..d20c252 100644
--- a/compiler/src/parser/declarations.rs
+++ b/compiler/src/parser/declarations.rs
@@ -10,7 +10,13 @@ fn parse_content_line(
 
     let mut nodes = Vec::new();
     if let Some((text_part, divert_part)) = split_inline_divert(content) {
-        nodes.extend(tokenize_inline_content(text_part)?);
+        // Exactly one blank separates the text from what the target prints.
+        let text = text_part.trim_end();
+        if text.is_empty() || text.ends_with('}') {
+            nodes.extend(tokenize_inline_content(text_part)?);
+        } else {
+            nodes.extend(tokenize_inline_content(&format!("{text} "))?);
+        }
         nodes.push(Node::Divert(parse_divert(divert_part)?));
     } else {
         nodes.extend(tokenize_inline_content(content)?);
-- 
2.43.0


From 320445333c45ce33e929209466c9708f2a2abc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:48 +0000
Subject: [PATCH 52/78] fix: calls of built-in and external functions without
 arguments in conditions and '~' lines were emitted as knot calls

---
 compiler/src/emitter/conditional.rs |  6 +++++-
 compiler/src/emitter/nodes.rs       | 33 +++++------------------------
 2 files changed, 10 insertions(+), 29 deletions(-)

diff --git a/compiler/src/emitter/conditional.rs b/compiler/src/emitter/conditional.rs
index ecedb99..d7bc94d 100644
--- a/compiler/src/emitter/conditional.rs
+++ b/compiler/src/emitter/conditional.rs
@@ -7,7 +7,11 @@ fn emit_condition(
     match condition {
         Condition::Bool(value) => out.push(json!(value)),
         Condition::FunctionCall(name) => {
-            out.push(json!({"f()": name}));
+            let call = Expression::FunctionCall {
+                name: name.clone(),
+                args: Vec::new(),
+            };
+            emit_expression_ctx(&call, out, Some(context), Some(scope));
         }
         Condition::Expression(Expression::Variable(name))
             if scope.resolve_choice_label(name).is_some() =>
diff --git a/compiler/src/emitter/nodes.rs b/compiler/src/emitter/nodes.rs
index 3474732..b286995 100644
--- a/compiler/src/emitter/nodes.rs
+++ b/compiler/src/emitter/nodes.rs
@@ -400,35 +400,12 @@ fn emit_nodes_with_continuation(
                 Some(scope),
             ),
             Node::VoidCall { name, args } => {
-                out.push(json!("ev"));
-                for (index, arg) in args.iter().enumerate() {
-                    emit_call_argument(
-                        name,
-                        index,
-                        arg,
-                        &mut out.content,
-                        Some(context),
-                        Some(scope),
-                    );
-                }
-                // Only SEED_RANDOM makes sense as a void call (it has a side effect).
-                // All other built-ins return a value and are meaningless as void statements.
-                let builtin_token: Option<&str> = match name.as_str() {
-                    "SEED_RANDOM" => Some("srnd"),
-                    _ => None,
+                let call = Expression::FunctionCall {
+                    name: name.clone(),
+                    args: args.clone(),
                 };
-                if let Some(token) = builtin_token {
-                    out.push(json!(token));
-                } else if context.external_functions.contains(name) {
-                    let ex_args = args.len() as i32;
-                    if ex_args > 0 {
-                        out.push(json!({"x()": name, "exArgs": ex_args}));
-                    } else {
-                        out.push(json!({"x()": name}));
-                    }
-                } else {
-                    out.push(json!({"f()": name}));
-                }
+                out.push(json!("ev"));
+                emit_expression_ctx(&call, &mut out.content, Some(context), Some(scope));
                 out.push(json!("pop"));
                 out.push(json!("/ev"));
                 out.push(json!("\n"));
-- 
2.43.0


From 2dcd7408f63ba9c6c6b3ec460eeff9b7a1e5b6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:55 +0000
Subject: [PATCH 53/78] fix: a global whose initial value cannot be evaluated
 is refused by the compiler

---
 compiler/src/ast.rs | 19 +++++++++++++++++++
 compiler/src/lib.rs | 13 +++++++++++--
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/compiler/src/ast.rs b/compiler/src/ast.rs
index 78b0f0e..bc545e2 100644
--- a/compiler/src/ast.rs
+++ b/compiler/src/ast.rs
@@ -53,6 +53,18 @@ pub enum Expression {
     },
 }
 
+impl Expression {
+    fn is_literal(&self) -> bool {
+        match self {
+            Self::Bool(_) | Self::Int(_) | Self::Float(_) => true,
+            Self::Str(text) => !text.contains('{'),
+            Self::DivertTarget(_) | Self::ListItems(_) | Self::EmptyList => true,
+            Self::Negate(number) => matches!(**number, Self::Int(_) | Self::Float(_)),
+            _ => false,
+        }
+    }
+}
+
 #[derive(Debug, Clone, PartialEq)]
 pub enum DynamicStringPart {
     Text(String),
@@ -230,6 +242,13 @@ impl ParsedStory {
         &self.globals
     }
 
+    /// Whether an initial value is more than a literal.
+    pub fn has_computed_globals(&self) -> bool {
+        self.globals
+            .iter()
+            .any(|global| !global.initial_value.is_literal())
+    }
+
     pub fn list_declarations(&self) -> &[ListDeclaration] {
         &self.list_declarations
     }
diff --git a/compiler/src/lib.rs b/compiler/src/lib.rs
index 3214bb2..eea635a 100644
--- a/compiler/src/lib.rs
+++ b/compiler/src/lib.rs
@@ -105,7 +105,16 @@ impl Compiler {
         let parsed_story = includes::parse_story_with_includes(source, &file_handler, source_name)?;
         let parsed_story = consts::resolve(parsed_story);
         validator::validate(&parsed_story)?;
-        emitter::story_to_json_string(&parsed_story, self.options.count_all_visits)
-            .map_err(|e| CompilerError::invalid_source(e.to_string()))
+        let json = emitter::story_to_json_string(&parsed_story, self.options.count_all_visits)
+            .map_err(|e| CompilerError::invalid_source(e.to_string()))?;
+        // The runtime evaluates these when it loads the story.
+        if parsed_story.has_computed_globals() {
+            bladeink::story::Story::new(&json).map_err(|error| {
+                CompilerError::invalid_source(format!(
+                    "the initial value of a global variable cannot be evaluated: {error}"
+                ))
+            })?;
+        }
+        Ok(json)
     }
 }
-- 
2.43.0


From 42c7dd853de2021a9278c9c0b3ca92c8229fff85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:02 +0000
Subject: [PATCH 54/78] fix: deep nesting in the source overflowed the
 compiler's stack

---
 compiler/src/emitter/expression.rs | 32 +++++++++++-----------------
 compiler/src/emitter/flow.rs       |  4 ++++
 compiler/src/emitter/mod.rs        |  1 +
 compiler/src/emitter/nodes.rs      |  1 +
 compiler/src/inline.rs             |  3 +++
 compiler/src/lib.rs                |  1 +
 compiler/src/nesting.rs            | 34 ++++++++++++++++++++++++++++++
 compiler/src/parser/expression.rs  | 34 ++++++++++++++++++++++++++++++
 compiler/src/parser/mod.rs         |  1 +
 compiler/src/parser/statement.rs   |  1 +
 10 files changed, 92 insertions(+), 20 deletions(-)
 create mode 100644 compiler/src/nesting.rs

diff --git a/compiler/src/emitter/expression.rs b/compiler/src/emitter/expression.rs
index 9c4c6e9..f4b69ec 100644
--- a/compiler/src/emitter/expression.rs
+++ b/compiler/src/emitter/expression.rs
@@ -504,32 +504,24 @@ fn emit_dynamic_string_parts(
     scope: &EmitScope,
     context: &EmitContext,
 ) -> Result<(), CompilerError> {
-    if parts.is_empty() {
-        return Ok(());
-    }
-
-    match &parts[0] {
-        DynamicStringPart::Text(text) => {
-            emit_text_and_glue(text, out);
-            emit_dynamic_string_parts(&parts[1..], out, scope, context)
-        }
-        DynamicStringPart::Expression(expression) => {
-            out.push(json!("ev"));
-            emit_expression_ctx(expression, out, Some(context), Some(scope));
-            out.push(json!("out"));
-            out.push(json!("/ev"));
-            emit_dynamic_string_parts(&parts[1..], out, scope, context)
-        }
-        DynamicStringPart::Sequence(sequence) => {
-            out.push(emit_sequence(
+    for part in parts {
+        match part {
+            DynamicStringPart::Text(text) => emit_text_and_glue(text, out),
+            DynamicStringPart::Expression(expression) => {
+                out.push(json!("ev"));
+                emit_expression_ctx(expression, out, Some(context), Some(scope));
+                out.push(json!("out"));
+                out.push(json!("/ev"));
+            }
+            DynamicStringPart::Sequence(sequence) => out.push(emit_sequence(
                 sequence,
                 scope,
                 out.len() + scope.param_offset,
                 context,
-            )?);
-            emit_dynamic_string_parts(&parts[1..], out, scope, context)
+            )?),
         }
     }
+    Ok(())
 }
 
 fn emit_text_and_glue(text: &str, out: &mut Vec<Value>) {
diff --git a/compiler/src/emitter/flow.rs b/compiler/src/emitter/flow.rs
index b58ffff..3640478 100644
--- a/compiler/src/emitter/flow.rs
+++ b/compiler/src/emitter/flow.rs
@@ -224,6 +224,10 @@ fn collect_choice_labels_recursive(
     labels: &mut BTreeMap<String, String>,
     choice_index: &mut usize,
 ) {
+    // Emitting what nests deeper than this is an error.
+    let Ok(_nesting) = Nesting::enter() else {
+        return;
+    };
     let mut i = 0;
     while i < nodes.len() {
         match &nodes[i] {
diff --git a/compiler/src/emitter/mod.rs b/compiler/src/emitter/mod.rs
index bada2f3..e88ec23 100644
--- a/compiler/src/emitter/mod.rs
+++ b/compiler/src/emitter/mod.rs
@@ -11,6 +11,7 @@ use crate::{
     },
     error::CompilerError,
     inline::{parse_dynamic_string, tokenize_inline_content},
+    nesting::Nesting,
 };
 
 include!("context.rs");
diff --git a/compiler/src/emitter/nodes.rs b/compiler/src/emitter/nodes.rs
index b286995..f6590fb 100644
--- a/compiler/src/emitter/nodes.rs
+++ b/compiler/src/emitter/nodes.rs
@@ -255,6 +255,7 @@ fn emit_nodes_with_continuation(
     context: &EmitContext,
     fallback_continuation: Option<&str>,
 ) -> Result<EmittedContainer, CompilerError> {
+    let _nesting = Nesting::enter()?;
     let mut out = EmittedContainer::default();
     let mut next_choice_index = 0;
 
diff --git a/compiler/src/inline.rs b/compiler/src/inline.rs
index d0e2e7a..0fb788d 100644
--- a/compiler/src/inline.rs
+++ b/compiler/src/inline.rs
@@ -1,11 +1,13 @@
 use crate::{
     ast::{Divert, DynamicString, DynamicStringPart, Expression, Node, Sequence, SequenceMode},
     error::CompilerError,
+    nesting::Nesting,
 };
 
 use crate::parser::expression::{parse_call_like, parse_expression};
 
 pub fn tokenize_inline_content(content: &str) -> Result<Vec<Node>, CompilerError> {
+    let _nesting = Nesting::enter()?;
     let mut nodes = Vec::new();
     let mut text = String::new();
     let mut chars = content.char_indices().peekable();
@@ -148,6 +150,7 @@ pub fn tokenize_inline_content(content: &str) -> Result<Vec<Node>, CompilerError
 }
 
 pub fn parse_dynamic_string(input: &str) -> Result<DynamicString, CompilerError> {
+    let _nesting = Nesting::enter()?;
     let mut parts = Vec::new();
     let mut text = String::new();
     let mut chars = input.char_indices().peekable();
diff --git a/compiler/src/lib.rs b/compiler/src/lib.rs
index eea635a..b3cc547 100644
--- a/compiler/src/lib.rs
+++ b/compiler/src/lib.rs
@@ -4,6 +4,7 @@ mod emitter;
 pub mod error;
 mod includes;
 mod inline;
+mod nesting;
 mod parser;
 pub mod stats;
 mod validator;
diff --git a/compiler/src/nesting.rs b/compiler/src/nesting.rs
new file mode 100644
index 0000000..6e9dcb0
--- /dev/null
+++ b/compiler/src/nesting.rs
@@ -0,0 +1,34 @@
+//! A bound on how deeply the parts of a story may nest, so that no source
+//! text can exhaust the stack of the recursive parser and emitter.
+use std::cell::Cell;
+
+use crate::error::CompilerError;
+
+const MAX_DEPTH: usize = 64;
+
+thread_local! {
+    static DEPTH: Cell<usize> = const { Cell::new(0) };
+}
+
+/// Held while something that can contain more of its kind is handled.
+pub(crate) struct Nesting(());
+
+impl Nesting {
+    pub(crate) fn enter() -> Result<Self, CompilerError> {
+        DEPTH.with(|depth| {
+            if depth.get() >= MAX_DEPTH {
+                return Err(CompilerError::invalid_source(
+                    "content or expressions are nested too deeply",
+                ));
+            }
+            depth.set(depth.get() + 1);
+            Ok(Self(()))
+        })
+    }
+}
+
+impl Drop for Nesting {
+    fn drop(&mut self) {
+        DEPTH.with(|depth| depth.set(depth.get() - 1));
+    }
+}
diff --git a/compiler/src/parser/expression.rs b/compiler/src/parser/expression.rs
index d865cc8..2bcebda 100644
--- a/compiler/src/parser/expression.rs
+++ b/compiler/src/parser/expression.rs
@@ -1,8 +1,14 @@
 use crate::{
     ast::{BinaryOperator, Expression},
     error::CompilerError,
+    nesting::Nesting,
 };
 
+/// The operators of an expression, of which each may hold all those before it.
+const MAX_OPERATORS: usize = 500;
+/// The braces around the innermost content of a string.
+const MAX_STRING_NESTING: usize = 20;
+
 #[derive(Debug, Clone, PartialEq)]
 pub enum Token {
     Bool(bool),
@@ -36,6 +42,23 @@ pub enum Token {
     Caret,
 }
 
+impl Token {
+    fn is_operator(&self) -> bool {
+        match self {
+            Self::Bool(_)
+            | Self::Int(_)
+            | Self::Float(_)
+            | Self::Str(_)
+            | Self::DivertTarget(_)
+            | Self::LeftParen
+            | Self::RightParen
+            | Self::Comma => false,
+            Self::Ident(name) => name == "mod",
+            _ => true,
+        }
+    }
+}
+
 pub fn tokenize_expression(input: &str) -> Result<Vec<Token>, CompilerError> {
     let mut tokens = Vec::new();
     let chars: Vec<char> = input.chars().collect();
@@ -149,6 +172,11 @@ pub fn tokenize_expression(input: &str) -> Result<Vec<Token>, CompilerError> {
                 let mut brace_depth = 0usize;
                 while end < chars.len() {
                     match chars[end] {
+                        '{' if brace_depth >= MAX_STRING_NESTING => {
+                            return Err(CompilerError::invalid_source(
+                                "strings are nested too deeply".to_owned(),
+                            ));
+                        }
                         '{' => brace_depth += 1,
                         '}' if brace_depth > 0 => brace_depth -= 1,
                         '"' if brace_depth == 0 => break,
@@ -228,6 +256,11 @@ pub fn tokenize_expression(input: &str) -> Result<Vec<Token>, CompilerError> {
 
 pub fn parse_expression(input: &str) -> Result<Expression, CompilerError> {
     let tokens = tokenize_expression(input)?;
+    if tokens.iter().filter(|token| token.is_operator()).count() > MAX_OPERATORS {
+        return Err(CompilerError::unsupported_feature(format!(
+            "expression has more than {MAX_OPERATORS} operators"
+        )));
+    }
     let mut parser = ExpressionParser::new(tokens);
     let expression = parser.parse_expression()?;
 
@@ -496,6 +529,7 @@ impl ExpressionParser {
     }
 
     fn parse_unary(&mut self) -> Result<Expression, CompilerError> {
+        let _nesting = Nesting::enter()?;
         if self.match_token(&Token::Bang) {
             let expr = self.parse_unary()?;
             return Ok(Expression::Not(Box::new(expr)));
diff --git a/compiler/src/parser/mod.rs b/compiler/src/parser/mod.rs
index ac1ecac..56730e6 100644
--- a/compiler/src/parser/mod.rs
+++ b/compiler/src/parser/mod.rs
@@ -7,6 +7,7 @@ pub mod sequence;
 use crate::{
     ast::{AssignMode, Expression, Flow, GlobalVariable, ListDeclaration, Node, ParsedStory},
     error::CompilerError,
+    nesting::Nesting,
 };
 
 use self::{
diff --git a/compiler/src/parser/statement.rs b/compiler/src/parser/statement.rs
index a5a5760..2d536fd 100644
--- a/compiler/src/parser/statement.rs
+++ b/compiler/src/parser/statement.rs
@@ -3,6 +3,7 @@ pub fn parse_statement(
     line_index: &mut usize,
     strip_leading_whitespace: bool,
 ) -> Result<ParsedStatement, CompilerError> {
+    let _nesting = Nesting::enter().map_err(|e| e.with_line(*line_index + 1))?;
     let line = &lines[*line_index];
     let trimmed = line.content.trim();
     // 1-based line number for error messages; captured before any sub-parser advances the index.
-- 
2.43.0


From aa38914f0e545ddd3276ab830b135b5fc2dda764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:04 +0000
Subject: [PATCH 55/78] fix: targets, functions, variables and list items that
 do not exist are refused by the compiler

---
 compiler/src/emitter/context.rs |   2 +
 compiler/src/emitter/link.rs    | 218 ++++++++++++++++++++++++++++++++
 compiler/src/emitter/mod.rs     |   1 +
 3 files changed, 221 insertions(+)
 create mode 100644 compiler/src/emitter/link.rs

diff --git a/compiler/src/emitter/context.rs b/compiler/src/emitter/context.rs
index 4d9fd48..a85c86f 100644
--- a/compiler/src/emitter/context.rs
+++ b/compiler/src/emitter/context.rs
@@ -66,6 +66,8 @@ pub fn story_to_json_value(
         }
     ]);
     compact_story_paths(&mut root_value);
+    check_depth(&root_value, MAX_JSON_DEPTH)?;
+    check_references(&root_value, &list_defs)?;
 
     let mut output = serde_json::Map::new();
     output.insert("inkVersion".to_owned(), json!(INK_VERSION_CURRENT));
diff --git a/compiler/src/emitter/link.rs b/compiler/src/emitter/link.rs
new file mode 100644
index 0000000..7eeac1c
--- /dev/null
+++ b/compiler/src/emitter/link.rs
@@ -0,0 +1,218 @@
+/// How deeply the arrays and objects of a story may nest to be loaded again.
+const MAX_JSON_DEPTH: usize = 126;
+
+fn check_depth(value: &Value, levels: usize) -> Result<(), CompilerError> {
+    let too_deep = || CompilerError::invalid_source("the story's content is nested too deeply");
+    let below = levels.checked_sub(1);
+    match value {
+        Value::Array(values) => {
+            let below = below.ok_or_else(too_deep)?;
+            values.iter().try_for_each(|child| check_depth(child, below))
+        }
+        Value::Object(values) => {
+            let below = below.ok_or_else(too_deep)?;
+            values.values().try_for_each(|child| check_depth(child, below))
+        }
+        _ => Ok(()),
+    }
+}
+
+/// Check that everything the emitted story refers to exists: the content its
+/// diverts, tunnels, threads, calls, choices and read counts name, and the
+/// variables and list items it uses.
+fn check_references(root: &Value, list_defs: &Map<String, Value>) -> Result<(), CompilerError> {
+    let mut names = DeclaredNames::default();
+    for (list, items) in list_defs {
+        for item in items.as_object().into_iter().flat_map(Map::keys) {
+            names.items.insert(format!("{list}.{item}"));
+            names.globals.insert(format!("{list}.{item}"));
+            names.globals.insert(item.clone());
+        }
+    }
+    if let Some(declarations) = named_child(root, "global decl") {
+        collect_assigned(declarations, "VAR=", &mut names.globals);
+        if container_content(declarations)
+            .iter()
+            .any(|child| child.get("f()").is_some() || child.get("x()").is_some())
+        {
+            return Err(CompilerError::invalid_source(
+                "the initial value of a global variable cannot call functions",
+            ));
+        }
+    }
+    // The root is one scope of temporary variables and every knot is another.
+    let mut scopes: Vec<(Vec<&Value>, &Value)> = Vec::new();
+    for child in container_content(root) {
+        scopes.push((vec![root], child));
+    }
+    for (_, flow) in named_children(root) {
+        scopes.push((vec![root], flow));
+    }
+    for (mut parents, container) in scopes {
+        names.temps.clear();
+        collect_assigned(container, "temp=", &mut names.temps);
+        check_container(container, &mut parents, &names)?;
+    }
+    Ok(())
+}
+
+#[derive(Default)]
+struct DeclaredNames {
+    globals: BTreeSet<String>,
+    temps: BTreeSet<String>,
+    items: BTreeSet<String>,
+}
+
+fn container_content(container: &Value) -> &[Value] {
+    container
+        .as_array()
+        .and_then(|values| values.split_last())
+        .map_or(&[], |(_, content)| content)
+}
+
+fn named_children(container: &Value) -> impl Iterator<Item = (&String, &Value)> {
+    container
+        .as_array()
+        .and_then(|values| values.last())
+        .and_then(Value::as_object)
+        .into_iter()
+        .flatten()
+        .filter(|(_, child)| child.is_array())
+}
+
+fn named_child<'a>(container: &'a Value, name: &str) -> Option<&'a Value> {
+    container
+        .as_array()?
+        .last()?
+        .get(name)
+        .filter(|child| child.is_array())
+        .or_else(|| {
+            container_content(container)
+                .iter()
+                .find(|child| embedded_container_name(child) == Some(name))
+        })
+}
+
+fn collect_assigned(container: &Value, key: &str, names: &mut BTreeSet<String>) {
+    for child in container_content(container) {
+        if child.is_array() {
+            collect_assigned(child, key, names);
+        } else if child.get("re").is_none()
+            && let Some(name) = child.get(key).and_then(Value::as_str)
+        {
+            names.insert(name.to_owned());
+        }
+    }
+    for (_, child) in named_children(container) {
+        collect_assigned(child, key, names);
+    }
+}
+
+fn check_container<'a>(
+    container: &'a Value,
+    parents: &mut Vec<&'a Value>,
+    names: &DeclaredNames,
+) -> Result<(), CompilerError> {
+    parents.push(container);
+    for child in container_content(container) {
+        if child.is_array() {
+            check_container(child, parents, names)?;
+        } else if let Value::Object(object) = child {
+            check_object(object, parents, names)?;
+        }
+    }
+    for (_, child) in named_children(container) {
+        check_container(child, parents, names)?;
+    }
+    parents.pop();
+    Ok(())
+}
+
+fn check_object(
+    object: &Map<String, Value>,
+    parents: &[&Value],
+    names: &DeclaredNames,
+) -> Result<(), CompilerError> {
+    let by_variable = object.get("var").and_then(Value::as_bool) == Some(true);
+
+    for (field, what) in [
+        ("->", "Divert target"),
+        ("->t->", "Tunnel target"),
+        ("f()", "Function"),
+        ("*", "Choice target"),
+        ("CNT?", "Read count target"),
+        ("^->", "Divert target"),
+    ] {
+        let Some(target) = object.get(field).and_then(Value::as_str) else {
+            continue;
+        };
+        if by_variable && matches!(field, "->" | "->t->" | "f()") {
+            check_variable(target, names)?;
+        } else if !target_exists(target, parents) {
+            return Err(CompilerError::invalid_source(format!(
+                "{what} not found: '{target}'"
+            )));
+        }
+    }
+
+    let is_reassignment = object.contains_key("re");
+    for field in ["VAR?", "^var", "VAR=", "temp="] {
+        if matches!(field, "VAR=" | "temp=") && !is_reassignment {
+            continue;
+        }
+        if let Some(name) = object.get(field).and_then(Value::as_str) {
+            check_variable(name, names)?;
+        }
+    }
+
+    if let Some(Value::Object(items)) = object.get("list")
+        && let Some(item) = items.keys().find(|item| !names.items.contains(*item))
+    {
+        return Err(CompilerError::invalid_source(format!(
+            "List item not found: '{item}'"
+        )));
+    }
+    Ok(())
+}
+
+fn check_variable(name: &str, names: &DeclaredNames) -> Result<(), CompilerError> {
+    if names.globals.contains(name) || names.temps.contains(name) {
+        return Ok(());
+    }
+    Err(CompilerError::invalid_source(format!(
+        "Unresolved variable: {name}"
+    )))
+}
+
+/// Whether `target`, referred to by an object in the last of `parents`, exists.
+fn target_exists(target: &str, parents: &[&Value]) -> bool {
+    let (mut parents, target) = match target.strip_prefix('.') {
+        // The first step of a relative path leaves the object itself.
+        Some(target) => match target.strip_prefix('^') {
+            Some(rest) => (parents.to_vec(), rest.strip_prefix('.').unwrap_or(rest)),
+            None => return false,
+        },
+        None => (parents[..1].to_vec(), target),
+    };
+    for component in target.split('.').filter(|component| !component.is_empty()) {
+        if component == "^" {
+            parents.pop();
+            if parents.is_empty() {
+                return false;
+            }
+            continue;
+        }
+        let Some(container) = parents.last() else {
+            return false;
+        };
+        let child = match component.parse::<usize>() {
+            Ok(index) => container_content(container).get(index),
+            Err(_) => named_child(container, component),
+        };
+        match child {
+            Some(child) => parents.push(child),
+            None => return false,
+        }
+    }
+    true
+}
diff --git a/compiler/src/emitter/mod.rs b/compiler/src/emitter/mod.rs
index e88ec23..4f42f58 100644
--- a/compiler/src/emitter/mod.rs
+++ b/compiler/src/emitter/mod.rs
@@ -22,4 +22,5 @@ include!("choice_wrapped.rs");
 include!("choice.rs");
 include!("expression.rs");
 include!("conditional.rs");
+include!("link.rs");
 include!("path.rs");
-- 
2.43.0


From 27b09bcaf0c18ae5b95156a99f9719e50599a2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:21 +0000
Subject: [PATCH 56/78] fix: a resolved divert kept its target container alive,
 so that stories were never freed

---
 runtime/src/divert.rs | 66 +++++++++++++++++++++++--------------------
 1 file changed, 36 insertions(+), 30 deletions(-)

diff --git a/runtime/src/divert.rs b/runtime/src/divert.rs
index 14b3297..486203f 100644
--- a/runtime/src/divert.rs
+++ b/runtime/src/divert.rs
@@ -1,17 +1,23 @@
-use std::{cell::RefCell, fmt, rc::Rc};
+use std::{
+    cell::RefCell,
+    fmt,
+    rc::{Rc, Weak},
+};
 
 use crate::{
     container::Container,
     object::{Object, RTObject},
     path::{Component, Path},
-    pointer::{self, Pointer},
+    pointer::Pointer,
     push_pop::PushPopType,
     story_error::StoryError,
 };
 
 pub struct Divert {
     obj: Object,
-    target_pointer: RefCell<Pointer>,
+    /// The resolved target: its container and the index in it. The container is
+    /// referenced weakly because it may well be an ancestor of this divert.
+    target_pointer: RefCell<(Weak<Container>, i32)>,
     target_path: RefCell<Option<Path>>,
     pub external_args: usize,
     pub is_conditional: bool,
@@ -38,7 +44,7 @@ impl Divert {
             stack_push_type,
             is_external,
             external_args,
-            target_pointer: RefCell::new(pointer::NULL.clone()),
+            target_pointer: RefCell::new((Weak::new(), -1)),
             target_path: RefCell::new(Self::target_path_string(target_path)),
             variable_divert_name: var_divert_name,
         }
@@ -81,37 +87,37 @@ impl Divert {
     }
 
     pub fn get_target_pointer(self: &Rc<Self>) -> Result<Pointer, StoryError> {
-        let target_pointer_null = self.target_pointer.borrow().is_null();
-        if target_pointer_null {
-            let target_path = self.target_path.borrow().clone().unwrap_or_default();
-            let not_found = || {
-                StoryError::InvalidStoryState(format!(
-                    "Divert target doesn't exist: {}",
-                    target_path
-                ))
-            };
+        let (container, index) = self.target_pointer.borrow().clone();
+        if let Some(container) = container.upgrade() {
+            return Ok(Pointer::new(Some(container), index));
+        }
 
-            let result = Object::resolve_path(self.clone(), &target_path);
-            if result.approximate {
-                return Err(not_found());
-            }
-            let target_obj = result.obj.clone();
+        let target_path = self.target_path.borrow().clone().unwrap_or_default();
+        let not_found = || {
+            StoryError::InvalidStoryState(format!("Divert target doesn't exist: {}", target_path))
+        };
 
-            match target_path.get_last_component().and_then(|c| c.index) {
-                Some(index) => {
-                    let mut pointer = self.target_pointer.borrow_mut();
-                    pointer.container = target_obj.get_object().get_parent();
-                    pointer.index = index as i32;
-                }
-                None => {
-                    let c = target_obj.into_any().downcast::<Container>();
-                    let c = c.map_err(|_| not_found())?;
-                    self.target_pointer.replace(Pointer::start_of(c));
-                }
+        let result = Object::resolve_path(self.clone(), &target_path);
+        if result.approximate {
+            return Err(not_found());
+        }
+        let target_obj = result.obj.clone();
+
+        let pointer = match target_path.get_last_component().and_then(|c| c.index) {
+            Some(index) => Pointer::new(target_obj.get_object().get_parent(), index as i32),
+            None => {
+                let c = target_obj.into_any().downcast::<Container>();
+                let c = c.map_err(|_| not_found())?;
+                Pointer::start_of(c)
             }
+        };
+
+        if let Some(container) = &pointer.container {
+            self.target_pointer
+                .replace((Rc::downgrade(container), pointer.index));
         }
 
-        Ok(self.target_pointer.borrow().clone())
+        Ok(pointer)
     }
 
     pub fn get_target_path(self: &Rc<Self>) -> Option<Path> {
-- 
2.43.0


From c5602fc9d6ec1a9b2052b06aee8072758d0a46d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:00 +0000
Subject: [PATCH 57/78] fix: a read count of a name ending in a dot is refused

---
 compiler/src/emitter/link.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/compiler/src/emitter/link.rs b/compiler/src/emitter/link.rs
index 7eeac1c..a72497e 100644
--- a/compiler/src/emitter/link.rs
+++ b/compiler/src/emitter/link.rs
@@ -194,7 +194,8 @@ fn target_exists(target: &str, parents: &[&Value]) -> bool {
         },
         None => (parents[..1].to_vec(), target),
     };
-    for component in target.split('.').filter(|component| !component.is_empty()) {
+    let components = (!target.is_empty()).then(|| target.split('.'));
+    for component in components.into_iter().flatten() {
         if component == "^" {
             parents.pop();
             if parents.is_empty() {
-- 
2.43.0


From 9670aeb0ab827de03c0e10ea24dbb9065bb19fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:18 +0000
Subject: [PATCH 58/78] fix: a number is refused as the name of a function or
 target

---
 compiler/src/emitter/link.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/compiler/src/emitter/link.rs b/compiler/src/emitter/link.rs
index a72497e..a6191fa 100644
--- a/compiler/src/emitter/link.rs
+++ b/compiler/src/emitter/link.rs
@@ -148,7 +148,10 @@ fn check_object(
         };
         if by_variable && matches!(field, "->" | "->t->" | "f()") {
             check_variable(target, names)?;
-        } else if !target_exists(target, parents) {
+        } else if !target_exists(target, parents)
+            // A number is no name: it is what happens to be at that place.
+            || (matches!(field, "f()" | "^->" | "CNT?") && target.parse::<usize>().is_ok())
+        {
             return Err(CompilerError::invalid_source(format!(
                 "{what} not found: '{target}'"
             )));
-- 
2.43.0


From 843db1e0b65ff5ef517bb29117aaf8ae8461c810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:23 +0000
Subject: [PATCH 59/78] fix: names of knots, stitches and functions: a number
 or a path is refused, 'functional' is a knot

---
 compiler/src/parser/header.rs | 17 ++++++++++++++++-
 compiler/src/parser/story.rs  |  1 +
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/compiler/src/parser/header.rs b/compiler/src/parser/header.rs
index 0c3daf9..a9baea4 100644
--- a/compiler/src/parser/header.rs
+++ b/compiler/src/parser/header.rs
@@ -3,7 +3,10 @@ pub fn parse_header(line: &str) -> Option<Header> {
 
     if trimmed.starts_with("===") || trimmed.starts_with("==") {
         let inner = trimmed.trim_matches('=').trim();
-        if let Some(rest) = inner.strip_prefix("function") {
+        if let Some(rest) = inner
+            .strip_prefix("function")
+            .filter(|rest| rest.starts_with(char::is_whitespace))
+        {
             let (name, parameters, ref_parameters, divert_parameters) =
                 parse_header_signature(rest.trim())?;
             return Some(Header::Function {
@@ -37,6 +40,18 @@ pub fn parse_header(line: &str) -> Option<Header> {
     None
 }
 
+/// A name is one component of a path, and a number would be an index in it.
+pub fn check_header_name(header: &Header) -> Result<(), CompilerError> {
+    let (Header::Knot { name, .. } | Header::Function { name, .. } | Header::Stitch { name, .. }) =
+        header;
+    if name.contains('.') || name.bytes().all(|byte| byte.is_ascii_digit()) {
+        return Err(CompilerError::invalid_source(format!(
+            "'{name}' cannot be the name of a knot, stitch or function"
+        )));
+    }
+    Ok(())
+}
+
 /// Returns (name, params, ref_params, divert_params)
 type HeaderSignature = (String, Vec<String>, Vec<String>, Vec<String>);
 
diff --git a/compiler/src/parser/story.rs b/compiler/src/parser/story.rs
index 5d9e422..c4587ba 100644
--- a/compiler/src/parser/story.rs
+++ b/compiler/src/parser/story.rs
@@ -32,6 +32,7 @@ impl<'a> Parser<'a> {
         while line_index < lines.len() {
             let ln = line_index + 1;
             if let Some(header) = parse_header(lines[line_index].content) {
+                check_header_name(&header).map_err(|e| e.with_line(ln))?;
                 match header {
                     Header::Knot {
                         name,
-- 
2.43.0


From 75becaf4c32ca708339126fdb32d62725439493d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:23 +0000
Subject: [PATCH 60/78] fix: an external function called inside a knot of its
 own name was not found

---
 runtime/src/divert.rs                   | 10 ++++++++++
 runtime/src/story/control_logic.rs      |  2 +-
 runtime/src/story/external_functions.rs |  2 +-
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/runtime/src/divert.rs b/runtime/src/divert.rs
index 486203f..bce6833 100644
--- a/runtime/src/divert.rs
+++ b/runtime/src/divert.rs
@@ -60,6 +60,16 @@ impl Divert {
             .map(|p| self.compact_path_string(p))
     }
 
+    /// The name of the external function: unlike a path it does not depend on
+    /// where it is called.
+    pub fn get_external_name(&self) -> String {
+        self.target_path
+            .borrow()
+            .as_ref()
+            .map(|path| path.get_components_string())
+            .unwrap_or_default()
+    }
+
     pub fn has_variable_target(&self) -> bool {
         self.variable_divert_name.is_some()
     }
diff --git a/runtime/src/story/control_logic.rs b/runtime/src/story/control_logic.rs
index 078a40a..7e7f2d7 100644
--- a/runtime/src/story/control_logic.rs
+++ b/runtime/src/story/control_logic.rs
@@ -79,7 +79,7 @@ impl Story {
                 }
             } else if current_divert.is_external {
                 self.call_external_function(
-                    &current_divert.get_target_path_string().unwrap(),
+                    &current_divert.get_external_name(),
                     current_divert.external_args,
                 )?;
                 return Ok(true);
diff --git a/runtime/src/story/external_functions.rs b/runtime/src/story/external_functions.rs
index 025e067..55bfd89 100644
--- a/runtime/src/story/external_functions.rs
+++ b/runtime/src/story/external_functions.rs
@@ -272,7 +272,7 @@ impl Story {
         if let Some(divert) = divert
             && divert.is_external
         {
-            let name = divert.get_target_path_string().unwrap();
+            let name = divert.get_external_name();
 
             if !self.externals.contains_key(&name) {
                 if self.allow_external_function_fallbacks {
-- 
2.43.0


From 502e2e2d488f8372f0ab337f0d8928d0fbdbc3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:23 +0000
Subject: [PATCH 61/78] fix: relative paths kept neither their leading dot nor
 a hash that agrees with equality

---
 runtime/src/path.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/runtime/src/path.rs b/runtime/src/path.rs
index b9f86b8..5ed65eb 100644
--- a/runtime/src/path.rs
+++ b/runtime/src/path.rs
@@ -43,7 +43,8 @@ impl Path {
             };
         }
 
-        let mut cs = cs.unwrap().to_string();
+        let text = cs.unwrap();
+        let mut cs = text;
 
         // When components start with ".", it indicates a relative path, e.g.
         // .^.^.hello.5
@@ -52,15 +53,16 @@ impl Path {
 
         if cs.starts_with('.') {
             is_relative = true;
-            cs = cs[1..].to_string();
+            cs = &cs[1..];
         } else {
             is_relative = false;
         }
 
-        let component_string = cs.split('.');
+        // A relative path without components is where it starts from
+        let component_string = (!cs.is_empty()).then(|| cs.split('.'));
         let mut components = Vec::new();
 
-        for str in component_string {
+        for str in component_string.into_iter().flatten() {
             let index = str.parse::<usize>();
 
             match index {
@@ -70,7 +72,7 @@ impl Path {
         }
 
         let cs_cell = OnceCell::new();
-        let _ = cs_cell.set(cs);
+        let _ = cs_cell.set(text.to_string());
 
         Path {
             components,
@@ -133,7 +135,7 @@ impl Path {
 
         let mut components = Vec::new();
 
-        for i in 0..self.components.len() - upward_moves {
+        for i in 0..self.components.len().saturating_sub(upward_moves) {
             components.push(self.components.get(i).unwrap().clone());
         }
 
@@ -186,7 +188,8 @@ impl fmt::Display for Path {
 
 impl Hash for Path {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        self.to_string().hash(state)
+        self.is_relative.hash(state);
+        self.components.hash(state)
     }
 }
 
-- 
2.43.0


From 4a0fab588c4357084d7ddedc7fb3deae2e7e18c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:23 +0000
Subject: [PATCH 62/78] hook: content audit and state positions (cfg
 bladeink_verif)

---
 runtime/src/callstack.rs         |   5 +
 runtime/src/story/mod.rs         |   2 +
 runtime/src/story/verif_audit.rs | 451 +++++++++++++++++++++++++++++++
 runtime/src/story_state.rs       |   5 +
 4 files changed, 463 insertions(+)
 create mode 100644 runtime/src/story/verif_audit.rs

diff --git a/runtime/src/callstack.rs b/runtime/src/callstack.rs
index fbd6f6f..0b81a6f 100644
--- a/runtime/src/callstack.rs
+++ b/runtime/src/callstack.rs
@@ -204,6 +204,11 @@ impl CallStack {
         cs
     }
 
+    #[cfg(bladeink_verif)]
+    pub(crate) fn verif_threads(&self) -> &[Thread] {
+        &self.threads
+    }
+
     pub fn get_current_element(&self) -> &Element {
         let thread = self.threads.last().unwrap();
         let cs = &thread.callstack;
diff --git a/runtime/src/story/mod.rs b/runtime/src/story/mod.rs
index a2e61ed..fc6a497 100644
--- a/runtime/src/story/mod.rs
+++ b/runtime/src/story/mod.rs
@@ -206,3 +206,5 @@ mod progress;
 mod state;
 mod tags;
 pub mod variable_observer;
+#[cfg(bladeink_verif)]
+pub mod verif_audit;
diff --git a/runtime/src/story/verif_audit.rs b/runtime/src/story/verif_audit.rs
new file mode 100644
index 0000000..1c9318e
--- /dev/null
+++ b/runtime/src/story/verif_audit.rs
@@ -0,0 +1,451 @@
+//! Verification hooks: lists the content tree, checks what the paths of its
+//! objects denote, and lists the positions held by the state.
+use std::{
+    collections::{HashMap, hash_map::DefaultHasher},
+    hash::{Hash, Hasher},
+    rc::Rc,
+};
+
+use crate::{
+    callstack::Thread,
+    choice_point::ChoicePoint,
+    container::Container,
+    divert::Divert,
+    flow::Flow,
+    object::{Object, RTObject},
+    path::{Component, Path},
+    pointer::Pointer,
+    story::Story,
+    value::Value,
+    value_type::ValueType,
+    variable_reference::VariableReference,
+};
+
+/// One object of the content tree.
+pub struct AuditEntry {
+    /// Where the walk found it: names of named containers, indices of everything else.
+    pub at: String,
+    pub kind: &'static str,
+    /// What it is, without anything that depends on how it was reached.
+    pub text: String,
+    /// The path it reports.
+    pub path: String,
+    /// What it refers to, if it exists: where the walk found it, and `#index` for a position.
+    pub target: Option<String>,
+}
+
+#[derive(Default)]
+pub struct Audit {
+    pub entries: Vec<AuditEntry>,
+    /// (kind, description)
+    pub problems: Vec<(&'static str, String)>,
+    /// relative paths checked
+    pub relative: usize,
+}
+
+fn id(o: &dyn RTObject) -> *const () {
+    o as *const _ as *const ()
+}
+
+fn digest(p: &Path) -> u64 {
+    let mut h = DefaultHasher::new();
+    p.hash(&mut h);
+    h.finish()
+}
+
+struct Walk {
+    found: Vec<(String, Rc<dyn RTObject>)>,
+}
+
+impl Walk {
+    fn go(&mut self, c: &Rc<Container>, at: &str) {
+        let step = |s: &str| {
+            if at.is_empty() {
+                s.to_owned()
+            } else {
+                format!("{at}.{s}")
+            }
+        };
+        self.found.push((at.to_owned(), c.clone()));
+        for (i, o) in c.content.iter().enumerate() {
+            match o.clone().into_any().downcast::<Container>() {
+                Ok(child) => {
+                    let s = match &child.name {
+                        Some(n) if !n.is_empty() => step(n),
+                        _ => step(&i.to_string()),
+                    };
+                    self.go(&child, &s);
+                }
+                Err(_) => self.found.push((step(&i.to_string()), o.clone())),
+            }
+        }
+        let mut named: Vec<_> = c
+            .named_content
+            .iter()
+            .filter(|(_, v)| !c.content.iter().any(|o| id(o.as_ref()) == id(v.as_ref())))
+            .collect();
+        named.sort_by_key(|(k, _)| k.to_owned());
+        for (k, child) in named {
+            self.go(child, &step(k));
+        }
+    }
+
+    fn places(&self) -> HashMap<*const (), String> {
+        self.found
+            .iter()
+            .map(|(at, o)| (id(o.as_ref()), at.clone()))
+            .collect()
+    }
+}
+
+fn describe(o: &Rc<dyn RTObject>) -> (&'static str, String) {
+    if let Ok(c) = o.clone().into_any().downcast::<Container>() {
+        let named: Vec<&String> = {
+            let mut v: Vec<_> = c.named_content.keys().collect();
+            v.sort();
+            v
+        };
+        return (
+            "container",
+            format!(
+                "{:?} flags {} length {} named {:?}",
+                c.name,
+                c.get_count_flags(),
+                c.content.len(),
+                named
+            ),
+        );
+    }
+    if let Ok(d) = o.clone().into_any().downcast::<Divert>() {
+        return (
+            "divert",
+            format!(
+                "conditional {} external {} args {} pushes {} type {} variable {:?}",
+                d.is_conditional,
+                d.is_external,
+                d.external_args,
+                d.pushes_to_stack,
+                d.stack_push_type as u8,
+                d.variable_divert_name
+            ),
+        );
+    }
+    if let Ok(c) = o.clone().into_any().downcast::<ChoicePoint>() {
+        return ("choice point", format!("flags {}", c.get_flags()));
+    }
+    if let Ok(v) = o.clone().into_any().downcast::<VariableReference>() {
+        return ("variable reference", v.name.clone());
+    }
+    if let Ok(v) = o.clone().into_any().downcast::<Value>() {
+        return match &v.value {
+            ValueType::Bool(b) => ("bool", b.to_string()),
+            ValueType::Int(i) => ("int", i.to_string()),
+            ValueType::Float(f) => ("float", format!("{:08x}", f.to_bits())),
+            ValueType::String(s) => ("string", format!("{:?}", s.string)),
+            ValueType::DivertTarget(_) => ("divert target", String::new()),
+            ValueType::VariablePointer(p) => {
+                ("variable pointer", format!("{} {}", p.variable_name, p.context_index))
+            }
+            ValueType::List(l) => {
+                let mut items: Vec<String> = l
+                    .items
+                    .iter()
+                    .map(|(k, v)| {
+                        format!("{:?}.{} = {v}", k.get_origin_name(), k.get_item_name())
+                    })
+                    .collect();
+                items.sort();
+                let mut names = l.get_origin_names();
+                names.sort();
+                ("list", format!("{items:?} of {names:?}"))
+            }
+        };
+    }
+    ("other", o.to_string())
+}
+
+/// What it refers to, and at which index of it if it refers to a position.
+type Goal = (Rc<dyn RTObject>, Option<i32>);
+
+/// None: it refers to nothing; Some(None): what it refers to does not exist.
+fn target(o: &Rc<dyn RTObject>) -> Option<Option<Goal>> {
+    if let Ok(d) = o.clone().into_any().downcast::<Divert>() {
+        if d.has_variable_target() || d.is_external {
+            return None;
+        }
+        let p = d.get_target_pointer().ok();
+        return Some(p.and_then(|p| {
+            let c = p.container?;
+            Some((c as Rc<dyn RTObject>, Some(p.index)))
+        }));
+    }
+    let object = |p: &Path| Object::resolve_path(o.clone(), p).correct_obj();
+    if let Ok(c) = o.clone().into_any().downcast::<ChoicePoint>() {
+        return Some(c.get_choice_target().map(|c| (c as Rc<dyn RTObject>, None)));
+    }
+    if let Ok(v) = o.clone().into_any().downcast::<VariableReference>() {
+        let path = v.path_for_count.as_ref()?;
+        object(path)?;
+        return Some(
+            v.get_container_for_count()
+                .ok()
+                .map(|c| (c as Rc<dyn RTObject>, None)),
+        );
+    }
+    if let Ok(v) = o.clone().into_any().downcast::<Value>()
+        && let ValueType::DivertTarget(p) = &v.value
+    {
+        return Some(object(p).map(|x| (x, None)));
+    }
+    None
+}
+
+/// The text of a reference as the engine would write it.
+fn written(o: &Rc<dyn RTObject>) -> Option<String> {
+    if let Ok(d) = o.clone().into_any().downcast::<Divert>() {
+        if d.has_variable_target() || d.is_external {
+            return None;
+        }
+        return d.get_target_path_string();
+    }
+    if let Ok(c) = o.clone().into_any().downcast::<ChoicePoint>() {
+        return Some(c.get_path_string_on_choice());
+    }
+    if let Ok(v) = o.clone().into_any().downcast::<VariableReference>() {
+        return v.get_path_string_for_count();
+    }
+    None
+}
+
+/// A path, its text read back, and the same path put together from components.
+fn check_text(p: &Path, what: &str, audit: &mut Audit) {
+    let text = p.to_string();
+    let back = Path::new_with_components_string(Some(&text));
+    let mut bad = |kind, what: String| audit.problems.push((kind, what));
+    if back != *p {
+        bad("text", format!("{what} '{text}': not equal to its text read back"));
+    }
+    if back.is_relative() != p.is_relative() {
+        bad("text", format!("{what} '{text}': relative {}, but its text {}", p.is_relative(), back.is_relative()));
+    }
+    if back.to_string() != text {
+        bad("text", format!("{what} '{text}': its text read back is written '{back}'"));
+    }
+    if text.starts_with('.') != p.is_relative() {
+        bad("text", format!("{what} '{text}': relative {}", p.is_relative()));
+    }
+    let components: Vec<Component> = (0..p.len())
+        .filter_map(|i| p.get_component(i).cloned())
+        .collect();
+    let built = Path::new(&components, p.is_relative());
+    if built != *p || *p != built {
+        bad("equality", format!("{what} '{text}': not equal to a path of the same components"));
+    }
+    for (q, how) in [(&back, "its text read back"), (&built, "a path of the same components")] {
+        if *q == *p && digest(q) != digest(p) {
+            bad("hash", format!("{what} '{text}': equal to {how} but hashed differently"));
+        }
+        if *q == *p && q.to_string() != text {
+            bad("text", format!("{what} '{text}': equal to {how}, which is written '{q}'"));
+        }
+    }
+}
+
+impl Story {
+    /// Lists and checks all content; `pairs` (indices into the listing) are
+    /// checked as relative paths from the first to the second.
+    pub fn verif_audit(&self, pairs: &[(usize, usize)]) -> Audit {
+        let root = self.main_content_container.clone();
+        let mut walk = Walk { found: Vec::new() };
+        walk.go(&root, "");
+        let places = walk.places();
+        let place = |o: &Rc<dyn RTObject>| {
+            places
+                .get(&id(o.as_ref()))
+                .cloned()
+                .unwrap_or_else(|| "(outside the story)".to_owned())
+        };
+        let mut audit = Audit::default();
+        if places.len() != walk.found.len() {
+            audit.problems.push(("shared", "an object is in two places".to_owned()));
+        }
+
+        for (at, o) in &walk.found {
+            let path = Object::get_path(o.as_ref());
+            if path.is_relative() {
+                audit.problems.push(("path", format!("'{at}' reports the relative path '{path}'")));
+            }
+            if Object::get_path(o.as_ref()) != path {
+                audit.problems.push(("path", format!("'{at}' reports two paths")));
+            }
+            let found = root.content_at_path(&path, 0, -1);
+            if found.approximate || id(found.obj.as_ref()) != id(o.as_ref()) {
+                audit.problems.push((
+                    "resolve",
+                    format!("the path '{path}' of '{at}' leads {}to '{}'", if found.approximate { "approximately " } else { "" }, place(&found.obj)),
+                ));
+            }
+            let found = Object::resolve_path(o.clone(), &path);
+            if found.approximate || id(found.obj.as_ref()) != id(o.as_ref()) {
+                audit.problems.push(("resolve", format!("the path '{path}' of '{at}' leads to '{}' from there", place(&found.obj))));
+            }
+            if !path.is_empty() {
+                match Story::pointer_at_path(&root, &path) {
+                    Ok(p) => {
+                        let there = p.resolve();
+                        if !there.as_ref().is_some_and(|x| id(x.as_ref()) == id(o.as_ref())) {
+                            audit.problems.push((
+                                "pointer",
+                                format!("the pointer at the path '{path}' of '{at}' is at {}", there.map_or("nothing".to_owned(), |x| place(&x))),
+                            ));
+                        }
+                        if let Some(q) = p.get_path() {
+                            let found = root.content_at_path(&q, 0, -1);
+                            if found.approximate || id(found.obj.as_ref()) != id(o.as_ref()) {
+                                audit.problems.push(("pointer", format!("the pointer at '{path}' has the path '{q}', which leads to '{}'", place(&found.obj))));
+                            }
+                        }
+                    }
+                    Err(e) => audit.problems.push(("pointer", format!("no pointer at the path '{path}' of '{at}': {e}"))),
+                }
+            }
+            check_text(&path, "path", &mut audit);
+            for i in 0..path.len() {
+                let Some(c) = path.get_component(i) else { continue };
+                let (mut a, mut b) = (DefaultHasher::new(), DefaultHasher::new());
+                c.hash(&mut a);
+                c.clone().hash(&mut b);
+                if *c != c.clone() || a.finish() != b.finish() {
+                    audit.problems.push(("equality", format!("component {i} of '{path}' is not equal to itself")));
+                }
+            }
+        }
+
+        for &(a, b) in pairs {
+            let (Some((at, from)), Some((bt, to))) = (walk.found.get(a), walk.found.get(b)) else {
+                continue;
+            };
+            let goal = Object::get_path(to.as_ref());
+            let own = Object::get_path(from.as_ref());
+            let rel = Object::convert_path_to_relative(from, &goal);
+            audit.relative += 1;
+            check_text(&rel, "relative path", &mut audit);
+            let found = Object::resolve_path(from.clone(), &rel);
+            if found.approximate || id(found.obj.as_ref()) != id(to.as_ref()) {
+                audit.problems.push(("relative", format!("'{rel}', the path of '{bt}' as seen from '{at}', leads to '{}'", place(&found.obj))));
+            }
+            if rel.is_relative() && own.path_by_appending_path(&rel) != goal {
+                audit.problems.push(("append", format!("'{own}' followed by '{rel}' gives '{}' instead of '{goal}'", own.path_by_appending_path(&rel))));
+            }
+            if rel == goal && rel.is_relative() != goal.is_relative() {
+                audit.problems.push(("equality", format!("the relative path '{rel}' equals the path '{goal}'")));
+            }
+            let text = Object::compact_path_string(from.clone(), &goal);
+            let found = Object::resolve_path(from.clone(), &Path::new_with_components_string(Some(&text)));
+            if found.approximate || id(found.obj.as_ref()) != id(to.as_ref()) {
+                audit.problems.push(("compact", format!("'{text}', written for '{bt}' at '{at}', leads to '{}'", place(&found.obj))));
+            }
+            // two paths are equal exactly if they are the same place
+            if (own == goal) != (a == b) {
+                audit.problems.push(("equality", format!("the paths '{own}' and '{goal}' of '{at}' and '{bt}'")));
+            }
+        }
+
+        for (at, o) in &walk.found {
+            let (kind, text) = describe(o);
+            let before = target(o);
+            let name = |g: &Goal| match g.1 {
+                Some(i) => format!("{}#{i}", place(&g.0)),
+                None => place(&g.0),
+            };
+            let same = |a: &Goal, b: &Goal| id(a.0.as_ref()) == id(b.0.as_ref()) && a.1 == b.1;
+            if let Some(Some(t)) = &before
+                && let Some(text) = written(o)
+            {
+                let path = Path::new_with_components_string(Some(&text));
+                let found = Object::resolve_path(o.clone(), &path);
+                let object = match t.1 {
+                    Some(i) => Pointer::new(t.0.clone().into_any().downcast().ok(), i).resolve(),
+                    None => Some(t.0.clone()),
+                };
+                let leads = |x: &Rc<dyn RTObject>| id(x.as_ref()) == id(found.obj.as_ref());
+                // the start of a container is also the container
+                if found.approximate || !(object.iter().any(leads) || t.1 == Some(0) && leads(&t.0)) {
+                    audit.problems.push(("written", format!("the target of the {kind} '{at}' is written '{text}', which leads to '{}' instead of '{}'", place(&found.obj), name(t))));
+                }
+                check_text(&path, "target", &mut audit);
+                // having been asked for its text must not change where it leads
+                if !matches!(target(o), Some(Some(n)) if same(&n, t)) {
+                    audit.problems.push(("target", format!("the {kind} '{at}' leads elsewhere the second time")));
+                }
+            }
+            audit.entries.push(AuditEntry {
+                at: at.clone(),
+                kind,
+                text,
+                path: Object::get_path(o.as_ref()).to_string(),
+                target: before.flatten().map(|t| name(&t)),
+            });
+        }
+        audit
+    }
+
+    /// Every position the state holds, one per line: where it is held, the
+    /// container and index, and the object that is there.
+    pub fn verif_positions(&self) -> Vec<String> {
+        let root = self.main_content_container.clone();
+        let mut walk = Walk { found: Vec::new() };
+        walk.go(&root, "");
+        let places = walk.places();
+        let place = |o: &dyn RTObject| {
+            places
+                .get(&id(o))
+                .map_or("(outside the story)".to_owned(), |at| format!("'{at}'"))
+        };
+        let resolved = |p: &Pointer| p.resolve().map_or("nothing".to_owned(), |o| place(o.as_ref()));
+        let position = |p: &Pointer| match &p.container {
+            None => "nowhere".to_owned(),
+            Some(c) => format!("{} index {} at {}", place(c.as_ref()), p.index, resolved(p)),
+        };
+        let mut out = Vec::new();
+        let mut thread = |at: String, t: &Thread| {
+            out.push(format!("{at} previous: {}", resolved(&t.previous_pointer)));
+            for (i, e) in t.callstack.iter().enumerate() {
+                out.push(format!("{at} element {i}: {}", position(&e.current_pointer)));
+            }
+        };
+        let mut flows: Vec<&Flow> = vec![&self.state.current_flow];
+        for (name, flow) in self.state.verif_named_flows() {
+            if *name != self.state.current_flow.name {
+                flows.push(flow);
+            }
+        }
+        flows.sort_by_key(|f| f.name.clone());
+        let mut choices = Vec::new();
+        for flow in flows {
+            for (i, t) in flow.callstack.borrow().verif_threads().iter().enumerate() {
+                thread(format!("flow {} thread {i}", flow.name), t);
+            }
+            for (i, c) in flow.current_choices.iter().enumerate() {
+                let at = format!("flow {} choice {i}", flow.name);
+                if let Some(t) = c.get_thread_at_generation() {
+                    thread(at.clone(), &t);
+                }
+                for (what, path) in [
+                    ("target", c.target_path.clone()),
+                    ("source", Path::new_with_components_string(Some(&c.source_path))),
+                ] {
+                    let found = root.content_at_path(&path, 0, -1);
+                    choices.push(format!(
+                        "{at} {what}: {}{}",
+                        if found.approximate { "near " } else { "" },
+                        place(found.obj.as_ref())
+                    ));
+                }
+            }
+        }
+        out.extend(choices);
+        out.push(format!("diverted: {}", resolved(&self.state.diverted_pointer)));
+        out
+    }
+}
diff --git a/runtime/src/story_state.rs b/runtime/src/story_state.rs
index a1d9c9b..aa46d5d 100644
--- a/runtime/src/story_state.rs
+++ b/runtime/src/story_state.rs
@@ -57,6 +57,11 @@ pub(crate) struct StoryState {
 }
 
 impl StoryState {
+    #[cfg(bladeink_verif)]
+    pub(crate) fn verif_named_flows(&self) -> impl Iterator<Item = (&String, &Flow)> {
+        self.named_flows.iter().flatten()
+    }
+
     pub fn new(
         main_content_container: Rc<Container>,
         list_definitions: Rc<ListDefinitionsOrigin>,
-- 
2.43.0


From d514de8d0fb84b9f743a4672eaa7c32a9508ac99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:46 +0000
Subject: [PATCH 63/78] fix: the streaming loader dropped all string escapes
 but \\, \" and \n

---
 runtime/src/json/json_tokenizer.rs | 83 +++++++++++++++++++-----------
 1 file changed, 53 insertions(+), 30 deletions(-)

diff --git a/runtime/src/json/json_tokenizer.rs b/runtime/src/json/json_tokenizer.rs
index 2321a4b..bfa4c30 100644
--- a/runtime/src/json/json_tokenizer.rs
+++ b/runtime/src/json/json_tokenizer.rs
@@ -177,44 +177,67 @@ impl<'a> JsonTokenizer<'a> {
     }
 
     pub(super) fn read_string(&mut self) -> io::Result<String> {
-        let mut result = String::new();
-        let mut escape = false;
-
         self.expect('"')?;
         self.skip_whitespaces = false;
+        let result = self.read_string_content();
+        self.skip_whitespaces = true;
+
+        result
+    }
+
+    /// Everything up to the closing quote.
+    fn read_string_content(&mut self) -> io::Result<String> {
+        let mut result = String::new();
+
+        loop {
+            match self.read()? {
+                '"' => return Ok(result),
+                '\\' => result.push(self.read_escape()?),
+                c => result.push(c),
+            }
+        }
+    }
 
-        while let Ok(c) = self.read() {
-            if escape {
-                // Handle escape sequences
-                match c {
-                    '\\' => result.push('\\'),
-                    '"' => result.push('"'),
-                    'n' => result.push('\n'),
-                    // 't' => result.push('\t'),
-                    // 'r' => result.push('\r'),
-                    // Add other escape sequences as needed
-                    // _ => result.push(c), // Push the character as is if unknown escape
-                    _ => {}
+    /// The character denoted by an escape sequence, after its backslash.
+    fn read_escape(&mut self) -> io::Result<char> {
+        let invalid = |what: String| io::Error::new(io::ErrorKind::InvalidData, what);
+
+        match self.read()? {
+            c @ ('"' | '\\' | '/') => Ok(c),
+            'b' => Ok('\u{8}'),
+            'f' => Ok('\u{c}'),
+            'n' => Ok('\n'),
+            'r' => Ok('\r'),
+            't' => Ok('\t'),
+            'u' => {
+                let mut code = self.read_hex4()?;
+
+                // The first half of a surrogate pair
+                if (0xD800..0xDC00).contains(&code) && self.read()? == '\\' && self.read()? == 'u' {
+                    let low = self.read_hex4()?;
+
+                    if (0xDC00..0xE000).contains(&low) {
+                        code = 0x10000 + ((code - 0xD800) << 10) + (low - 0xDC00);
+                    }
                 }
-                escape = false;
-            } else if c == '\\' {
-                escape = true;
-            } else if c == '"' {
-                self.skip_whitespaces = true;
-                break; // End of the quoted string
-            } else {
-                result.push(c);
+
+                char::from_u32(code).ok_or_else(|| invalid("Lone surrogate in string".to_owned()))
             }
+            c => Err(invalid(format!("Invalid escape '\\{c}'"))),
         }
+    }
 
-        if !escape {
-            Ok(result)
-        } else {
-            Err(io::Error::new(
-                io::ErrorKind::InvalidData,
-                "Unterminated string",
-            ))
+    fn read_hex4(&mut self) -> io::Result<u32> {
+        let mut code = 0;
+
+        for _ in 0..4 {
+            let digit = self.read()?.to_digit(16).ok_or_else(|| {
+                io::Error::new(io::ErrorKind::InvalidData, "Invalid \\u escape")
+            })?;
+            code = code * 16 + digit;
         }
+
+        Ok(code)
     }
 
     fn read_until_separator(&mut self) -> io::Result<String> {
-- 
2.43.0


From d92b820a216c4cb15db28be9fb273839a03e8292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:47 +0000
Subject: [PATCH 64/78] fix: the streaming loader read numbers differently from
 the default loader

---
 runtime/src/json/json_tokenizer.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/runtime/src/json/json_tokenizer.rs b/runtime/src/json/json_tokenizer.rs
index bfa4c30..f8f0176 100644
--- a/runtime/src/json/json_tokenizer.rs
+++ b/runtime/src/json/json_tokenizer.rs
@@ -11,7 +11,7 @@ impl Number {
     pub(super) fn as_integer(&self) -> Option<i32> {
         match self {
             Number::Int(n) => Some(*n),
-            Number::Float(n) => Some(*n as i32),
+            Number::Float(_) => None,
         }
     }
 
@@ -161,19 +161,23 @@ impl<'a> JsonTokenizer<'a> {
         let number_str = self.read_until_separator()?;
         let number_str = number_str.trim();
 
-        // Check if the number is an integer
-        if let Ok(num) = number_str.parse::<i32>() {
-            return Ok(Number::Int(num));
-        }
+        // The same numbers as in the default loader
+        let number = serde_json::from_str::<serde_json::Number>(number_str).ok();
+        let number = number.and_then(|number| {
+            if number.is_f64() {
+                number.as_f64().map(|n| Number::Float(n as f32))
+            } else {
+                let n = number.as_i64().and_then(|n| i32::try_from(n).ok());
+                n.map(Number::Int)
+            }
+        });
 
-        // Convert the accumulated string to a f32
-        match number_str.parse::<f32>() {
-            Ok(num) => Ok(Number::Float(num)),
-            Err(_) => Err(io::Error::new(
+        number.ok_or_else(|| {
+            io::Error::new(
                 io::ErrorKind::InvalidData,
                 format!("Invalid number format: '{}'", number_str),
-            )),
-        }
+            )
+        })
     }
 
     pub(super) fn read_string(&mut self) -> io::Result<String> {
-- 
2.43.0


From ef08e0a972a983e81dbb49559317e0f41181176f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:04 +0000
Subject: [PATCH 65/78] fix: the streaming loader mistook containers named
 'list' and refused empty closing objects

---
 runtime/src/json/json_read_stream.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/runtime/src/json/json_read_stream.rs b/runtime/src/json/json_read_stream.rs
index f647837..047ec58 100644
--- a/runtime/src/json/json_read_stream.rs
+++ b/runtime/src/json/json_read_stream.rs
@@ -182,6 +182,12 @@ fn jtoken_to_runtime_object(
         }
         JsonValue::Array => Ok(ArrayElement::RTObject(jarray_to_container(tok, name)?)),
         JsonValue::Object => {
+            // A container without named content may still end in an object
+            if tok.peek()? == '}' {
+                tok.expect('}')?;
+                return Ok(ArrayElement::LastElement(0, None, HashMap::new()));
+            }
+
             let prop = tok.read_obj_key()?;
             let prop_value = tok.read_value()?;
 
@@ -346,7 +352,8 @@ fn jtoken_to_runtime_object(
             }
 
             // List value
-            if prop == "list" {
+            // (an array would be a container of that name)
+            if prop == "list" && matches!(prop_value, JsonValue::Object) {
                 let list_content = parse_list(tok)?;
                 let mut raw_list = InkList::new();
 
@@ -383,12 +390,6 @@ fn jtoken_to_runtime_object(
                 ))));
             }
 
-            // Used when serialising save state only
-            if prop == "originalChoicePath" {
-                todo!("originalChoicePath");
-                // return jobject_to_choice(obj); // TODO
-            }
-
             // Last Element
             let mut flags = 0;
             let mut name: Option<String> = None;
-- 
2.43.0


From cb7eb5acc6464f419f0edfd4dc8ce53b432545db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:37 +0000
Subject: [PATCH 66/78] hook: content audit, formatted

---
 runtime/src/story/verif_audit.rs | 174 ++++++++++++++++++++++++-------
 1 file changed, 138 insertions(+), 36 deletions(-)

diff --git a/runtime/src/story/verif_audit.rs b/runtime/src/story/verif_audit.rs
index 1c9318e..3454128 100644
--- a/runtime/src/story/verif_audit.rs
+++ b/runtime/src/story/verif_audit.rs
@@ -143,16 +143,15 @@ fn describe(o: &Rc<dyn RTObject>) -> (&'static str, String) {
             ValueType::Float(f) => ("float", format!("{:08x}", f.to_bits())),
             ValueType::String(s) => ("string", format!("{:?}", s.string)),
             ValueType::DivertTarget(_) => ("divert target", String::new()),
-            ValueType::VariablePointer(p) => {
-                ("variable pointer", format!("{} {}", p.variable_name, p.context_index))
-            }
+            ValueType::VariablePointer(p) => (
+                "variable pointer",
+                format!("{} {}", p.variable_name, p.context_index),
+            ),
             ValueType::List(l) => {
                 let mut items: Vec<String> = l
                     .items
                     .iter()
-                    .map(|(k, v)| {
-                        format!("{:?}.{} = {v}", k.get_origin_name(), k.get_item_name())
-                    })
+                    .map(|(k, v)| format!("{:?}.{} = {v}", k.get_origin_name(), k.get_item_name()))
                     .collect();
                 items.sort();
                 let mut names = l.get_origin_names();
@@ -223,30 +222,58 @@ fn check_text(p: &Path, what: &str, audit: &mut Audit) {
     let back = Path::new_with_components_string(Some(&text));
     let mut bad = |kind, what: String| audit.problems.push((kind, what));
     if back != *p {
-        bad("text", format!("{what} '{text}': not equal to its text read back"));
+        bad(
+            "text",
+            format!("{what} '{text}': not equal to its text read back"),
+        );
     }
     if back.is_relative() != p.is_relative() {
-        bad("text", format!("{what} '{text}': relative {}, but its text {}", p.is_relative(), back.is_relative()));
+        bad(
+            "text",
+            format!(
+                "{what} '{text}': relative {}, but its text {}",
+                p.is_relative(),
+                back.is_relative()
+            ),
+        );
     }
     if back.to_string() != text {
-        bad("text", format!("{what} '{text}': its text read back is written '{back}'"));
+        bad(
+            "text",
+            format!("{what} '{text}': its text read back is written '{back}'"),
+        );
     }
     if text.starts_with('.') != p.is_relative() {
-        bad("text", format!("{what} '{text}': relative {}", p.is_relative()));
+        bad(
+            "text",
+            format!("{what} '{text}': relative {}", p.is_relative()),
+        );
     }
     let components: Vec<Component> = (0..p.len())
         .filter_map(|i| p.get_component(i).cloned())
         .collect();
     let built = Path::new(&components, p.is_relative());
     if built != *p || *p != built {
-        bad("equality", format!("{what} '{text}': not equal to a path of the same components"));
+        bad(
+            "equality",
+            format!("{what} '{text}': not equal to a path of the same components"),
+        );
     }
-    for (q, how) in [(&back, "its text read back"), (&built, "a path of the same components")] {
+    for (q, how) in [
+        (&back, "its text read back"),
+        (&built, "a path of the same components"),
+    ] {
         if *q == *p && digest(q) != digest(p) {
-            bad("hash", format!("{what} '{text}': equal to {how} but hashed differently"));
+            bad(
+                "hash",
+                format!("{what} '{text}': equal to {how} but hashed differently"),
+            );
         }
         if *q == *p && q.to_string() != text {
-            bad("text", format!("{what} '{text}': equal to {how}, which is written '{q}'"));
+            bad(
+                "text",
+                format!("{what} '{text}': equal to {how}, which is written '{q}'"),
+            );
         }
     }
 }
@@ -267,36 +294,62 @@ impl Story {
         };
         let mut audit = Audit::default();
         if places.len() != walk.found.len() {
-            audit.problems.push(("shared", "an object is in two places".to_owned()));
+            audit
+                .problems
+                .push(("shared", "an object is in two places".to_owned()));
         }
 
         for (at, o) in &walk.found {
             let path = Object::get_path(o.as_ref());
             if path.is_relative() {
-                audit.problems.push(("path", format!("'{at}' reports the relative path '{path}'")));
+                audit
+                    .problems
+                    .push(("path", format!("'{at}' reports the relative path '{path}'")));
             }
             if Object::get_path(o.as_ref()) != path {
-                audit.problems.push(("path", format!("'{at}' reports two paths")));
+                audit
+                    .problems
+                    .push(("path", format!("'{at}' reports two paths")));
             }
             let found = root.content_at_path(&path, 0, -1);
             if found.approximate || id(found.obj.as_ref()) != id(o.as_ref()) {
                 audit.problems.push((
                     "resolve",
-                    format!("the path '{path}' of '{at}' leads {}to '{}'", if found.approximate { "approximately " } else { "" }, place(&found.obj)),
+                    format!(
+                        "the path '{path}' of '{at}' leads {}to '{}'",
+                        if found.approximate {
+                            "approximately "
+                        } else {
+                            ""
+                        },
+                        place(&found.obj)
+                    ),
                 ));
             }
             let found = Object::resolve_path(o.clone(), &path);
             if found.approximate || id(found.obj.as_ref()) != id(o.as_ref()) {
-                audit.problems.push(("resolve", format!("the path '{path}' of '{at}' leads to '{}' from there", place(&found.obj))));
+                audit.problems.push((
+                    "resolve",
+                    format!(
+                        "the path '{path}' of '{at}' leads to '{}' from there",
+                        place(&found.obj)
+                    ),
+                ));
             }
             if !path.is_empty() {
                 match Story::pointer_at_path(&root, &path) {
                     Ok(p) => {
                         let there = p.resolve();
-                        if !there.as_ref().is_some_and(|x| id(x.as_ref()) == id(o.as_ref())) {
+                        if !there
+                            .as_ref()
+                            .is_some_and(|x| id(x.as_ref()) == id(o.as_ref()))
+                        {
                             audit.problems.push((
                                 "pointer",
-                                format!("the pointer at the path '{path}' of '{at}' is at {}", there.map_or("nothing".to_owned(), |x| place(&x))),
+                                format!(
+                                    "the pointer at the path '{path}' of '{at}' is at {}",
+                                    there.map_or("nothing".to_owned(), |x| place(&x))
+                                ),
                             ));
                         }
                         if let Some(q) = p.get_path() {
@@ -306,17 +359,25 @@ impl Story {
                             }
                         }
                     }
-                    Err(e) => audit.problems.push(("pointer", format!("no pointer at the path '{path}' of '{at}': {e}"))),
+                    Err(e) => audit.problems.push((
+                        "pointer",
+                        format!("no pointer at the path '{path}' of '{at}': {e}"),
+                    )),
                 }
             }
             check_text(&path, "path", &mut audit);
             for i in 0..path.len() {
-                let Some(c) = path.get_component(i) else { continue };
+                let Some(c) = path.get_component(i) else {
+                    continue;
+                };
                 let (mut a, mut b) = (DefaultHasher::new(), DefaultHasher::new());
                 c.hash(&mut a);
                 c.clone().hash(&mut b);
                 if *c != c.clone() || a.finish() != b.finish() {
-                    audit.problems.push(("equality", format!("component {i} of '{path}' is not equal to itself")));
+                    audit.problems.push((
+                        "equality",
+                        format!("component {i} of '{path}' is not equal to itself"),
+                    ));
                 }
             }
         }
@@ -332,22 +393,47 @@ impl Story {
             check_text(&rel, "relative path", &mut audit);
             let found = Object::resolve_path(from.clone(), &rel);
             if found.approximate || id(found.obj.as_ref()) != id(to.as_ref()) {
-                audit.problems.push(("relative", format!("'{rel}', the path of '{bt}' as seen from '{at}', leads to '{}'", place(&found.obj))));
+                audit.problems.push((
+                    "relative",
+                    format!(
+                        "'{rel}', the path of '{bt}' as seen from '{at}', leads to '{}'",
+                        place(&found.obj)
+                    ),
+                ));
             }
             if rel.is_relative() && own.path_by_appending_path(&rel) != goal {
-                audit.problems.push(("append", format!("'{own}' followed by '{rel}' gives '{}' instead of '{goal}'", own.path_by_appending_path(&rel))));
+                audit.problems.push((
+                    "append",
+                    format!(
+                        "'{own}' followed by '{rel}' gives '{}' instead of '{goal}'",
+                        own.path_by_appending_path(&rel)
+                    ),
+                ));
             }
             if rel == goal && rel.is_relative() != goal.is_relative() {
-                audit.problems.push(("equality", format!("the relative path '{rel}' equals the path '{goal}'")));
+                audit.problems.push((
+                    "equality",
+                    format!("the relative path '{rel}' equals the path '{goal}'"),
+                ));
             }
             let text = Object::compact_path_string(from.clone(), &goal);
-            let found = Object::resolve_path(from.clone(), &Path::new_with_components_string(Some(&text)));
+            let found =
+                Object::resolve_path(from.clone(), &Path::new_with_components_string(Some(&text)));
             if found.approximate || id(found.obj.as_ref()) != id(to.as_ref()) {
-                audit.problems.push(("compact", format!("'{text}', written for '{bt}' at '{at}', leads to '{}'", place(&found.obj))));
+                audit.problems.push((
+                    "compact",
+                    format!(
+                        "'{text}', written for '{bt}' at '{at}', leads to '{}'",
+                        place(&found.obj)
+                    ),
+                ));
             }
             // two paths are equal exactly if they are the same place
             if (own == goal) != (a == b) {
-                audit.problems.push(("equality", format!("the paths '{own}' and '{goal}' of '{at}' and '{bt}'")));
+                audit.problems.push((
+                    "equality",
+                    format!("the paths '{own}' and '{goal}' of '{at}' and '{bt}'"),
+                ));
             }
         }
 
@@ -370,13 +456,17 @@ impl Story {
                 };
                 let leads = |x: &Rc<dyn RTObject>| id(x.as_ref()) == id(found.obj.as_ref());
                 // the start of a container is also the container
-                if found.approximate || !(object.iter().any(leads) || t.1 == Some(0) && leads(&t.0)) {
+                if found.approximate || !(object.iter().any(leads) || t.1 == Some(0) && leads(&t.0))
+                {
                     audit.problems.push(("written", format!("the target of the {kind} '{at}' is written '{text}', which leads to '{}' instead of '{}'", place(&found.obj), name(t))));
                 }
                 check_text(&path, "target", &mut audit);
                 // having been asked for its text must not change where it leads
                 if !matches!(target(o), Some(Some(n)) if same(&n, t)) {
-                    audit.problems.push(("target", format!("the {kind} '{at}' leads elsewhere the second time")));
+                    audit.problems.push((
+                        "target",
+                        format!("the {kind} '{at}' leads elsewhere the second time"),
+                    ));
                 }
             }
             audit.entries.push(AuditEntry {
@@ -402,7 +492,10 @@ impl Story {
                 .get(&id(o))
                 .map_or("(outside the story)".to_owned(), |at| format!("'{at}'"))
         };
-        let resolved = |p: &Pointer| p.resolve().map_or("nothing".to_owned(), |o| place(o.as_ref()));
+        let resolved = |p: &Pointer| {
+            p.resolve()
+                .map_or("nothing".to_owned(), |o| place(o.as_ref()))
+        };
         let position = |p: &Pointer| match &p.container {
             None => "nowhere".to_owned(),
             Some(c) => format!("{} index {} at {}", place(c.as_ref()), p.index, resolved(p)),
@@ -411,7 +504,10 @@ impl Story {
         let mut thread = |at: String, t: &Thread| {
             out.push(format!("{at} previous: {}", resolved(&t.previous_pointer)));
             for (i, e) in t.callstack.iter().enumerate() {
-                out.push(format!("{at} element {i}: {}", position(&e.current_pointer)));
+                out.push(format!(
+                    "{at} element {i}: {}",
+                    position(&e.current_pointer)
+                ));
             }
         };
         let mut flows: Vec<&Flow> = vec![&self.state.current_flow];
@@ -433,7 +529,10 @@ impl Story {
                 }
                 for (what, path) in [
                     ("target", c.target_path.clone()),
-                    ("source", Path::new_with_components_string(Some(&c.source_path))),
+                    (
+                        "source",
+                        Path::new_with_components_string(Some(&c.source_path)),
+                    ),
                 ] {
                     let found = root.content_at_path(&path, 0, -1);
                     choices.push(format!(
@@ -445,7 +544,10 @@ impl Story {
             }
         }
         out.extend(choices);
-        out.push(format!("diverted: {}", resolved(&self.state.diverted_pointer)));
+        out.push(format!(
+            "diverted: {}",
+            resolved(&self.state.diverted_pointer)
+        ));
         out
     }
 }
-- 
2.43.0


From 36fbb592c7dac4cb0ad946153484a70bec024002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:37 +0000
Subject: [PATCH 67/78] fix: malformed stories and saves are refused instead of
 panicking

---
 runtime/src/callstack.rs             |  24 ++--
 runtime/src/flow.rs                  |  73 ++++++------
 runtime/src/json/json_read.rs        | 168 ++++++++++++++++-----------
 runtime/src/json/json_read_stream.rs |  86 +++++++++-----
 runtime/src/json/json_tokenizer.rs   |  68 +++++++----
 runtime/src/story_state.rs           |  12 +-
 runtime/src/variables_state.rs       |   2 +-
 7 files changed, 254 insertions(+), 179 deletions(-)

diff --git a/runtime/src/callstack.rs b/runtime/src/callstack.rs
index 0b81a6f..73bec1d 100644
--- a/runtime/src/callstack.rs
+++ b/runtime/src/callstack.rs
@@ -63,11 +63,7 @@ impl Thread {
     ) -> Result<Thread, StoryError> {
         let mut thread = Thread::new();
 
-        thread.thread_index = j_obj
-            .get("threadIndex")
-            .and_then(|i| i.as_i64())
-            .ok_or(StoryError::BadJson("Invalid thread index".to_owned()))?
-            as usize;
+        thread.thread_index = json_read::to_usize(json_read::get(j_obj, "threadIndex")?)?;
 
         if let Some(j_thread_callstack) = j_obj
             .get("callstack")
@@ -127,6 +123,10 @@ impl Thread {
             }
         }
 
+        if thread.callstack.is_empty() {
+            return Err(StoryError::BadJson("A thread without callstack".to_owned()));
+        }
+
         if let Some(prev_content_obj_path) =
             j_obj.get("previousContentObject").and_then(|p| p.as_str())
         {
@@ -436,15 +436,19 @@ impl CallStack {
     ) -> Result<(), StoryError> {
         self.threads.clear();
 
-        let j_threads = j_obj.get("threads").unwrap();
-
-        for j_thread_tok in j_threads.as_array().unwrap().iter() {
-            let j_thread_obj = j_thread_tok.as_object().unwrap();
+        for j_thread_tok in json_read::to_array(json_read::get(j_obj, "threads")?)? {
+            let j_thread_obj = json_read::to_object(j_thread_tok)?;
             let thread = Thread::from_json(main_content_container, j_thread_obj)?;
             self.threads.push(thread);
         }
 
-        self.thread_counter = j_obj.get("threadCounter").unwrap().as_i64().unwrap() as usize;
+        if self.threads.is_empty() {
+            return Err(StoryError::BadJson(
+                "A callstack without threads".to_owned(),
+            ));
+        }
+
+        self.thread_counter = json_read::to_usize(json_read::get(j_obj, "threadCounter")?)?;
         self.start_of_root = Pointer::start_of(main_content_container.clone()).clone();
 
         Ok(())
diff --git a/runtime/src/flow.rs b/runtime/src/flow.rs
index db07aa1..d8ac481 100644
--- a/runtime/src/flow.rs
+++ b/runtime/src/flow.rs
@@ -38,33 +38,15 @@ impl Flow {
             name: name.to_string(),
             callstack: Rc::new(RefCell::new(CallStack::new(main_content_container.clone()))),
             output_stream: json_read::jarray_to_runtime_obj_list(
-                j_obj
-                    .get("outputStream")
-                    .ok_or(StoryError::BadJson("outputStream not found.".to_owned()))?
-                    .as_array()
-                    .unwrap(),
+                json_read::to_array(json_read::get(j_obj, "outputStream")?)?,
                 false,
             )?,
-            current_choices: json_read::jarray_to_runtime_obj_list(
-                j_obj
-                    .get("currentChoices")
-                    .ok_or(StoryError::BadJson("currentChoices not found.".to_owned()))?
-                    .as_array()
-                    .unwrap(),
-                false,
-            )?
-            .iter()
-            .map(|o| o.clone().into_any().downcast::<Choice>().unwrap())
-            .collect::<Vec<Rc<Choice>>>(),
+            current_choices: Self::choices_from_json(json_read::get(j_obj, "currentChoices")?)?,
         };
 
         flow.callstack.borrow_mut().load_json(
             &main_content_container,
-            j_obj
-                .get("callstack")
-                .ok_or(StoryError::BadJson("loading callstack".to_owned()))?
-                .as_object()
-                .unwrap(),
+            json_read::to_object(json_read::get(j_obj, "callstack")?)?,
         )?;
         let j_choice_threads = j_obj.get("choiceThreads");
 
@@ -73,6 +55,19 @@ impl Flow {
         Ok(flow)
     }
 
+    pub(crate) fn choices_from_json(
+        j_choices: &serde_json::Value,
+    ) -> Result<Vec<Rc<Choice>>, StoryError> {
+        json_read::jarray_to_runtime_obj_list(json_read::to_array(j_choices)?, false)?
+            .into_iter()
+            .map(|o| {
+                o.into_any()
+                    .downcast::<Choice>()
+                    .map_err(|_| json_read::unexpected("choices", j_choices))
+            })
+            .collect()
+    }
+
     pub(crate) fn write_json(&self) -> Result<serde_json::Value, StoryError> {
         let mut flow: Map<String, serde_json::Value> = Map::new();
 
@@ -134,24 +129,28 @@ impl Flow {
         main_content_container: Rc<Container>,
     ) -> Result<(), StoryError> {
         for choice in self.current_choices.iter_mut() {
-            self.callstack
+            let thread_index = *choice.original_thread_index.borrow();
+            let running = self
+                .callstack
                 .borrow()
-                .get_thread_with_index(*choice.original_thread_index.borrow())
-                .map(|o| choice.set_thread_at_generation(o.clone()))
-                .or_else(|| {
+                .get_thread_with_index(thread_index)
+                .cloned();
+
+            let thread = match running {
+                Some(thread) => thread,
+                None => {
                     let j_saved_choice_thread = j_choice_threads
-                        .and_then(|c| c.get(choice.original_thread_index.borrow().to_string()))
-                        .ok_or("loading choice threads")
-                        .unwrap();
-                    choice.set_thread_at_generation(
-                        Thread::from_json(
-                            &main_content_container,
-                            j_saved_choice_thread.as_object().unwrap(),
-                        )
-                        .unwrap(),
-                    );
-                    Some(())
-                });
+                        .and_then(|c| c.get(thread_index.to_string()))
+                        .ok_or_else(|| {
+                            StoryError::BadJson(format!("choice thread {thread_index} not found."))
+                        })?;
+                    Thread::from_json(
+                        &main_content_container,
+                        json_read::to_object(j_saved_choice_thread)?,
+                    )?
+                }
+            };
+            choice.set_thread_at_generation(thread);
         }
 
         Ok(())
diff --git a/runtime/src/json/json_read.rs b/runtime/src/json/json_read.rs
index ab862d6..2db2b19 100644
--- a/runtime/src/json/json_read.rs
+++ b/runtime/src/json/json_read.rs
@@ -34,15 +34,15 @@ pub fn load_from_string(
         Err(_) => return Err(StoryError::BadJson("Story not in JSON format.".to_owned())),
     };
 
-    let version_opt = json.get("inkVersion");
-
-    if version_opt.is_none() || !version_opt.unwrap().is_number() {
-        return Err(StoryError::BadJson(
-            "ink version number not found. Are you sure it's a valid .ink.json file?".to_owned(),
-        ));
-    }
-
-    let version: i32 = version_opt.unwrap().as_i64().unwrap().try_into().unwrap();
+    let version = match json.get("inkVersion") {
+        Some(version) if version.is_number() => to_i32(version)?,
+        _ => {
+            return Err(StoryError::BadJson(
+                "ink version number not found. Are you sure it's a valid .ink.json file?"
+                    .to_owned(),
+            ));
+        }
+    };
 
     if version > INK_VERSION_CURRENT {
         return Err(StoryError::BadJson(
@@ -85,6 +85,46 @@ pub fn load_from_string(
     Ok((version, main_content_container, list_definitions))
 }
 
+pub(crate) fn unexpected(expected: &str, token: &serde_json::Value) -> StoryError {
+    StoryError::BadJson(format!("Expected {expected}, found: {token}"))
+}
+
+pub(crate) fn get<'a>(
+    obj: &'a Map<String, serde_json::Value>,
+    key: &str,
+) -> Result<&'a serde_json::Value, StoryError> {
+    obj.get(key)
+        .ok_or_else(|| StoryError::BadJson(format!("{key} not found.")))
+}
+
+pub(crate) fn to_str(token: &serde_json::Value) -> Result<&str, StoryError> {
+    token.as_str().ok_or_else(|| unexpected("string", token))
+}
+
+pub(crate) fn to_array(token: &serde_json::Value) -> Result<&Vec<serde_json::Value>, StoryError> {
+    token.as_array().ok_or_else(|| unexpected("array", token))
+}
+
+pub(crate) fn to_object(
+    token: &serde_json::Value,
+) -> Result<&Map<String, serde_json::Value>, StoryError> {
+    token.as_object().ok_or_else(|| unexpected("object", token))
+}
+
+pub(crate) fn to_i32(token: &serde_json::Value) -> Result<i32, StoryError> {
+    token
+        .as_i64()
+        .and_then(|n| n.try_into().ok())
+        .ok_or_else(|| unexpected("integer", token))
+}
+
+/// An index or a count.
+pub(crate) fn to_usize(token: &serde_json::Value) -> Result<usize, StoryError> {
+    to_i32(token)?
+        .try_into()
+        .map_err(|_| unexpected("index", token))
+}
+
 pub fn jtoken_to_runtime_object(
     token: &serde_json::Value,
     name: Option<String>,
@@ -96,12 +136,11 @@ pub fn jtoken_to_runtime_object(
         ))),
         serde_json::Value::Bool(value) => Ok(Rc::new(Value::new::<bool>(value.to_owned()))),
         serde_json::Value::Number(_) => {
-            if token.is_i64() {
-                let val: i32 = token.as_i64().unwrap().try_into().unwrap();
-                Ok(Rc::new(Value::new::<i32>(val)))
+            if token.is_i64() || token.is_u64() {
+                Ok(Rc::new(Value::new::<i32>(to_i32(token)?)))
             } else {
-                let val: f32 = token.as_f64().unwrap() as f32;
-                Ok(Rc::new(Value::new::<f32>(val)))
+                let val = token.as_f64().ok_or_else(|| unexpected("number", token))?;
+                Ok(Rc::new(Value::new::<f32>(val as f32)))
             }
         }
 
@@ -109,10 +148,9 @@ pub fn jtoken_to_runtime_object(
             let str = value.as_str();
 
             // String value
-            let first_char = str.chars().next().unwrap();
-            if first_char == '^' {
-                return Ok(Rc::new(Value::new::<&str>(&str[1..])));
-            } else if first_char == '\n' && str.len() == 1 {
+            if let Some(text) = str.strip_prefix('^') {
+                return Ok(Rc::new(Value::new::<&str>(text)));
+            } else if str == "\n" {
                 return Ok(Rc::new(Value::new::<&str>("\n")));
             }
 
@@ -154,7 +192,7 @@ pub fn jtoken_to_runtime_object(
 
             if let Some(prop_value) = prop_value {
                 return Ok(Rc::new(Value::new::<Path>(
-                    Path::new_with_components_string(prop_value.as_str()),
+                    Path::new_with_components_string(Some(to_str(prop_value)?)),
                 )));
             }
 
@@ -162,12 +200,12 @@ pub fn jtoken_to_runtime_object(
             let prop_value = obj.get("^var");
 
             if let Some(v) = prop_value {
-                let variable_name = v.as_str().unwrap();
+                let variable_name = to_str(v)?;
                 let mut contex_index = -1;
                 let prop_value = obj.get("ci");
 
                 if let Some(v) = prop_value {
-                    contex_index = v.as_i64().unwrap() as i32;
+                    contex_index = to_i32(v)?;
                 }
 
                 let var_ptr = Rc::new(Value::new_variable_pointer(variable_name, contex_index));
@@ -208,8 +246,8 @@ pub fn jtoken_to_runtime_object(
                 }
             }
 
-            if is_divert {
-                let target = prop_value.unwrap().as_str().unwrap().to_string();
+            if let Some(target) = prop_value.filter(|_| is_divert) {
+                let target = to_str(target)?.to_string();
 
                 let mut var_divert_name: Option<String> = None;
                 let mut target_path: Option<String> = None;
@@ -229,7 +267,7 @@ pub fn jtoken_to_runtime_object(
                 if external {
                     prop_value = obj.get("exArgs");
                     if let Some(prop_value) = prop_value {
-                        external_args = prop_value.as_i64().unwrap() as usize;
+                        external_args = to_usize(prop_value)?;
                     }
                 }
 
@@ -248,29 +286,24 @@ pub fn jtoken_to_runtime_object(
             let prop_value = obj.get("*");
             if let Some(cp) = prop_value {
                 let mut flags = 0;
-                let path_string_on_choice = cp.as_str().unwrap();
+                let path_string_on_choice = to_str(cp)?;
                 let prop_value = obj.get("flg");
                 if let Some(f) = prop_value {
-                    flags = f.as_u64().unwrap();
+                    flags = to_i32(f)?;
                 }
 
-                return Ok(Rc::new(ChoicePoint::new(
-                    flags as i32,
-                    path_string_on_choice,
-                )));
+                return Ok(Rc::new(ChoicePoint::new(flags, path_string_on_choice)));
             }
 
             // // Variable reference
             let prop_value = obj.get("VAR?");
             if let Some(name) = prop_value {
-                return Ok(Rc::new(VariableReference::new(name.as_str().unwrap())));
+                return Ok(Rc::new(VariableReference::new(to_str(name)?)));
             }
 
             let prop_value = obj.get("CNT?");
             if let Some(v) = prop_value {
-                return Ok(Rc::new(VariableReference::from_path_for_count(
-                    v.as_str().unwrap(),
-                )));
+                return Ok(Rc::new(VariableReference::from_path_for_count(to_str(v)?)));
             }
 
             // // Variable assignment
@@ -292,8 +325,8 @@ pub fn jtoken_to_runtime_object(
                 }
             }
 
-            if is_var_ass {
-                let var_name = prop_value.unwrap().as_str().unwrap();
+            if let Some(var_name) = prop_value.filter(|_| is_var_ass) {
+                let var_name = to_str(var_name)?;
                 let prop_value = obj.get("re");
                 let is_new_decl = prop_value.is_none();
 
@@ -308,32 +341,30 @@ pub fn jtoken_to_runtime_object(
             // Legacy Tag
             prop_value = obj.get("#");
             if let Some(prop_value) = prop_value {
-                return Ok(Rc::new(Tag::new(prop_value.as_str().unwrap())));
+                return Ok(Rc::new(Tag::new(to_str(prop_value)?)));
             }
 
             // List value
             prop_value = obj.get("list");
 
             if let Some(pv) = prop_value {
-                let list_content = pv.as_object().unwrap();
+                let list_content = to_object(pv)?;
                 let mut raw_list = InkList::new();
 
                 prop_value = obj.get("origins");
 
                 if let Some(o) = prop_value {
-                    let names_as_objs = o.as_array().unwrap();
-
-                    let names = names_as_objs
+                    let names = to_array(o)?
                         .iter()
-                        .map(|e| e.as_str().unwrap().to_string())
-                        .collect();
+                        .map(|e| Ok(to_str(e)?.to_string()))
+                        .collect::<Result<_, StoryError>>()?;
 
                     raw_list.set_initial_origin_names(names);
                 }
 
                 for (k, v) in list_content {
                     let item = InkListItem::from_full_name(k);
-                    raw_list.items.insert(item, v.as_i64().unwrap() as i32);
+                    raw_list.items.insert(item, to_i32(v)?);
                 }
 
                 return Ok(Rc::new(Value::new::<InkList>(raw_list)));
@@ -360,7 +391,7 @@ fn jarray_to_container(
     //  - named content
     //  - a "#f" key with the countFlags
     // (if either exists at all, otherwise null)
-    let terminating_obj = jarray[jarray.len() - 1].as_object();
+    let terminating_obj = jarray.last().and_then(|last| last.as_object());
     let mut name: Option<String> = name;
     let mut flags = 0;
 
@@ -369,16 +400,20 @@ fn jarray_to_container(
     if let Some(terminating_obj) = terminating_obj {
         for (k, v) in terminating_obj {
             match k.as_str() {
-                "#f" => flags = v.as_i64().unwrap().try_into().unwrap(),
-                "#n" => name = Some(v.as_str().unwrap().to_string()),
+                "#f" => flags = to_i32(v)?,
+                "#n" => name = Some(to_str(v)?.to_string()),
                 k => {
-                    let named_content_item =
-                        jtoken_to_runtime_object(v, Some(k.to_string())).unwrap();
+                    let named_content_item = jtoken_to_runtime_object(v, Some(k.to_string()))?;
 
                     let named_sub_container = named_content_item
                         .into_any()
                         .downcast::<Container>()
-                        .unwrap();
+                        .map_err(|_| unexpected("container", v))?;
+
+                    // Without a name there is no path to it
+                    if !named_sub_container.has_valid_name() {
+                        return Err(unexpected("named container", v));
+                    }
 
                     named_only_content.insert(k.to_string(), named_sub_container);
                 }
@@ -402,7 +437,7 @@ pub fn jarray_to_runtime_obj_list(
     let mut count = jarray.len();
 
     if skip_last {
-        count -= 1;
+        count = count.saturating_sub(1);
     }
 
     let mut list: Vec<Rc<dyn RTObject>> = Vec::with_capacity(jarray.len());
@@ -416,12 +451,12 @@ pub fn jarray_to_runtime_obj_list(
 }
 
 fn jobject_to_choice(obj: &Map<String, serde_json::Value>) -> Result<Rc<dyn RTObject>, StoryError> {
-    let text = obj.get("text").unwrap().as_str().unwrap();
-    let index = obj.get("index").unwrap().as_u64().unwrap() as usize;
-    let source_path = obj.get("originalChoicePath").unwrap().as_str().unwrap();
-    let original_thread_index = obj.get("originalThreadIndex").unwrap().as_i64().unwrap() as usize;
-    let path_string_on_choice = obj.get("targetPath").unwrap().as_str().unwrap();
-    let choice_tags = jarray_to_tags(obj);
+    let text = to_str(get(obj, "text")?)?;
+    let index = to_usize(get(obj, "index")?)?;
+    let source_path = to_str(get(obj, "originalChoicePath")?)?;
+    let original_thread_index = to_usize(get(obj, "originalThreadIndex")?)?;
+    let path_string_on_choice = to_str(get(obj, "targetPath")?)?;
+    let choice_tags = jarray_to_tags(obj)?;
 
     Ok(Rc::new(Choice::new_from_json(
         path_string_on_choice,
@@ -436,18 +471,17 @@ fn jobject_to_choice(obj: &Map<String, serde_json::Value>) -> Result<Rc<dyn RTOb
     )))
 }
 
-fn jarray_to_tags(obj: &Map<String, serde_json::Value>) -> Vec<String> {
+fn jarray_to_tags(obj: &Map<String, serde_json::Value>) -> Result<Vec<String>, StoryError> {
     let mut tags: Vec<String> = Vec::new();
 
     let prop_value = obj.get("tags");
     if let Some(pv) = prop_value {
-        let tags_array = pv.as_array().unwrap();
-        for tag in tags_array {
-            tags.push(tag.as_str().unwrap().to_string());
+        for tag in to_array(pv)? {
+            tags.push(to_str(tag)?.to_string());
         }
     }
 
-    tags
+    Ok(tags)
 }
 
 pub fn jtoken_to_list_definitions(
@@ -455,11 +489,11 @@ pub fn jtoken_to_list_definitions(
 ) -> Result<ListDefinitionsOrigin, StoryError> {
     let mut all_defs: Vec<ListDefinition> = Vec::with_capacity(0);
 
-    for (name, list_def_json) in def.as_object().unwrap() {
+    for (name, list_def_json) in to_object(def)? {
         // Cast (string, object) to (string, int) for items
         let mut items: HashMap<String, i32> = HashMap::new();
-        for (k, v) in list_def_json.as_object().unwrap() {
-            items.insert(k.clone(), v.as_u64().unwrap() as i32);
+        for (k, v) in to_object(list_def_json)? {
+            items.insert(k.clone(), to_i32(v)?);
         }
 
         let def = ListDefinition::new(name.clone(), items);
@@ -480,7 +514,7 @@ pub(crate) fn jobject_to_hashmap_values(
             jtoken_to_runtime_object(v, None)?
                 .into_any()
                 .downcast::<Value>()
-                .unwrap(),
+                .map_err(|_| unexpected("value", v))?,
         );
     }
 
@@ -493,7 +527,7 @@ pub(crate) fn jobject_to_int_hashmap(
     let mut dict: HashMap<String, i32> = HashMap::new();
 
     for (k, v) in jobj.iter() {
-        dict.insert(k.clone(), v.as_i64().unwrap() as i32);
+        dict.insert(k.clone(), to_i32(v)?);
     }
 
     Ok(dict)
diff --git a/runtime/src/json/json_read_stream.rs b/runtime/src/json/json_read_stream.rs
index 047ec58..6bad8a9 100644
--- a/runtime/src/json/json_read_stream.rs
+++ b/runtime/src/json/json_read_stream.rs
@@ -27,7 +27,7 @@ use crate::{
     void::Void,
 };
 
-use super::json_tokenizer::{JsonTokenizer, JsonValue};
+use super::json_tokenizer::{JsonTokenizer, JsonValue, Number};
 
 pub fn load_from_string(
     s: &str,
@@ -41,6 +41,7 @@ fn parse(
     tok: &mut JsonTokenizer,
 ) -> Result<(i32, Rc<Container>, Rc<ListDefinitionsOrigin>), StoryError> {
     tok.expect('{')?;
+    tok.enter()?;
 
     let version_key = tok.read_obj_key()?;
 
@@ -50,7 +51,7 @@ fn parse(
         ));
     }
 
-    let version: i32 = tok.read_number().unwrap().as_integer().unwrap();
+    let version: i32 = tok.read_integer()?;
 
     if version > INK_VERSION_CURRENT {
         return Err(StoryError::BadJson(
@@ -123,29 +124,37 @@ fn jtoken_to_runtime_object(
     tok: &mut JsonTokenizer,
     value: JsonValue,
     name: Option<String>,
+) -> Result<ArrayElement, StoryError> {
+    if !matches!(value, JsonValue::Array | JsonValue::Object) {
+        return jvalue_to_runtime_object(tok, value, name);
+    }
+
+    tok.enter()?;
+    let result = jvalue_to_runtime_object(tok, value, name);
+    tok.leave();
+
+    result
+}
+
+fn jvalue_to_runtime_object(
+    tok: &mut JsonTokenizer,
+    value: JsonValue,
+    name: Option<String>,
 ) -> Result<ArrayElement, StoryError> {
     match value {
         JsonValue::Null => Ok(ArrayElement::NullElement),
         JsonValue::Boolean(value) => Ok(ArrayElement::RTObject(Rc::new(Value::new::<bool>(value)))),
-        JsonValue::Number(value) => {
-            if value.is_integer() {
-                let val: i32 = value.as_integer().unwrap();
-                Ok(ArrayElement::RTObject(Rc::new(Value::new::<i32>(val))))
-            } else {
-                let val: f32 = value.as_float().unwrap();
-                Ok(ArrayElement::RTObject(Rc::new(Value::new::<f32>(val))))
-            }
-        }
+        JsonValue::Number(value) => Ok(ArrayElement::RTObject(match value {
+            Number::Int(val) => Rc::new(Value::new::<i32>(val)),
+            Number::Float(val) => Rc::new(Value::new::<f32>(val)),
+        })),
         JsonValue::String(value) => {
             let str = value.as_str();
 
             // String value
-            let first_char = str.chars().next().unwrap();
-            if first_char == '^' {
-                return Ok(ArrayElement::RTObject(Rc::new(Value::new::<&str>(
-                    &str[1..],
-                ))));
-            } else if first_char == '\n' && str.len() == 1 {
+            if let Some(text) = str.strip_prefix('^') {
+                return Ok(ArrayElement::RTObject(Rc::new(Value::new::<&str>(text))));
+            } else if str == "\n" {
                 return Ok(ArrayElement::RTObject(Rc::new(Value::new::<&str>("\n"))));
             }
 
@@ -195,19 +204,19 @@ fn jtoken_to_runtime_object(
             if prop == "^->" {
                 tok.expect('}')?;
                 return Ok(ArrayElement::RTObject(Rc::new(Value::new::<Path>(
-                    Path::new_with_components_string(prop_value.as_str()),
+                    Path::new_with_components_string(Some(prop_value.to_str()?)),
                 ))));
             }
 
             // // VariablePointerValue
             if prop == "^var" {
-                let variable_name = prop_value.as_str().unwrap();
+                let variable_name = prop_value.to_str()?;
                 let mut contex_index = -1;
 
                 if tok.peek()? == ',' {
                     tok.expect(',')?;
                     tok.expect_obj_key("ci")?;
-                    contex_index = tok.read_number().unwrap().as_integer().unwrap();
+                    contex_index = tok.read_integer()?;
                 }
 
                 let var_ptr = Rc::new(Value::new_variable_pointer(variable_name, contex_index));
@@ -239,7 +248,7 @@ fn jtoken_to_runtime_object(
             }
 
             if is_divert {
-                let target = prop_value.as_str().unwrap().to_string();
+                let target = prop_value.to_str()?.to_string();
 
                 let mut var_divert_name: Option<String> = None;
                 let mut target_path: Option<String> = None;
@@ -258,7 +267,8 @@ fn jtoken_to_runtime_object(
                     } else if prop == "c" {
                         conditional = true;
                     } else if prop == "exArgs" {
-                        external_args = prop_value.as_integer().unwrap() as usize;
+                        external_args = usize::try_from(prop_value.to_integer()?)
+                            .map_err(|_| StoryError::BadJson("exArgs is negative".to_owned()))?;
                     }
                 }
 
@@ -281,12 +291,12 @@ fn jtoken_to_runtime_object(
             // Choice
             if prop == "*" {
                 let mut flags = 0;
-                let path_string_on_choice = prop_value.as_str().unwrap();
+                let path_string_on_choice = prop_value.to_str()?;
 
                 if tok.peek()? == ',' {
                     tok.expect(',')?;
                     tok.expect_obj_key("flg")?;
-                    flags = tok.read_number().unwrap().as_integer().unwrap();
+                    flags = tok.read_integer()?;
                 }
 
                 tok.expect('}')?;
@@ -300,14 +310,14 @@ fn jtoken_to_runtime_object(
             if prop == "VAR?" {
                 tok.expect('}')?;
                 return Ok(ArrayElement::RTObject(Rc::new(VariableReference::new(
-                    prop_value.as_str().unwrap(),
+                    prop_value.to_str()?,
                 ))));
             }
 
             if prop == "CNT?" {
                 tok.expect('}')?;
                 return Ok(ArrayElement::RTObject(Rc::new(
-                    VariableReference::from_path_for_count(prop_value.as_str().unwrap()),
+                    VariableReference::from_path_for_count(prop_value.to_str()?),
                 )));
             }
 
@@ -324,7 +334,7 @@ fn jtoken_to_runtime_object(
             }
 
             if is_var_ass {
-                let var_name = prop_value.as_str().unwrap();
+                let var_name = prop_value.to_str()?;
                 let mut is_new_decl = true;
 
                 if tok.peek()? == ',' {
@@ -347,7 +357,7 @@ fn jtoken_to_runtime_object(
             if prop == "#" {
                 tok.expect('}')?;
                 return Ok(ArrayElement::RTObject(Rc::new(Tag::new(
-                    prop_value.as_str().unwrap(),
+                    prop_value.to_str()?,
                 ))));
             }
 
@@ -363,6 +373,7 @@ fn jtoken_to_runtime_object(
 
                     // read array of strings
                     tok.expect('[')?;
+                    tok.enter()?;
 
                     let mut names = Vec::new();
                     while tok.peek()? != ']' {
@@ -375,6 +386,7 @@ fn jtoken_to_runtime_object(
                     }
 
                     tok.expect(']')?;
+                    tok.leave();
 
                     raw_list.set_initial_origin_names(names);
                 }
@@ -400,9 +412,9 @@ fn jtoken_to_runtime_object(
 
             loop {
                 if p == "#f" {
-                    flags = pv.as_integer().unwrap();
+                    flags = pv.to_integer()?;
                 } else if p == "#n" {
-                    name = Some(pv.as_str().unwrap().to_string());
+                    name = Some(pv.to_str()?.to_string());
                 } else {
                     let named_content_item = jtoken_to_runtime_object(tok, pv, Some(p.clone()))?;
 
@@ -418,7 +430,14 @@ fn jtoken_to_runtime_object(
                     let named_sub_container = named_content_item
                         .into_any()
                         .downcast::<Container>()
-                        .unwrap();
+                        .map_err(|_| StoryError::BadJson(format!("'{p}' is not a container")))?;
+
+                    // Without a name there is no path to it
+                    if !named_sub_container.has_valid_name() {
+                        return Err(StoryError::BadJson(
+                            "Named container without a name".to_owned(),
+                        ));
+                    }
 
                     named_only_content.insert(p, named_sub_container);
                 }
@@ -446,9 +465,11 @@ fn jtoken_to_runtime_object(
 fn parse_list(tok: &mut JsonTokenizer) -> Result<HashMap<String, i32>, StoryError> {
     let mut list_content: HashMap<String, i32> = HashMap::new();
 
+    tok.enter()?;
+
     while tok.peek()? != '}' {
         let key = tok.read_obj_key()?;
-        let value = tok.read_number().unwrap().as_integer().unwrap();
+        let value = tok.read_integer()?;
         list_content.insert(key, value);
 
         if tok.peek()? != '}' {
@@ -457,6 +478,7 @@ fn parse_list(tok: &mut JsonTokenizer) -> Result<HashMap<String, i32>, StoryErro
     }
 
     tok.expect('}')?;
+    tok.leave();
 
     Ok(list_content)
 }
diff --git a/runtime/src/json/json_tokenizer.rs b/runtime/src/json/json_tokenizer.rs
index f8f0176..52f4901 100644
--- a/runtime/src/json/json_tokenizer.rs
+++ b/runtime/src/json/json_tokenizer.rs
@@ -1,6 +1,11 @@
 //! Tokenizer for the streamed JSON parser.
 use std::io::{self, Read};
 
+use crate::story_error::StoryError;
+
+/// The nesting that the default loader accepts.
+const MAX_DEPTH: usize = 127;
+
 #[derive(Debug)]
 pub(super) enum Number {
     Int(i32),
@@ -14,20 +19,6 @@ impl Number {
             Number::Float(_) => None,
         }
     }
-
-    pub(super) fn as_float(&self) -> Option<f32> {
-        match self {
-            Number::Int(n) => Some(*n as f32),
-            Number::Float(n) => Some(*n),
-        }
-    }
-
-    pub(super) fn is_integer(&self) -> bool {
-        match self {
-            Number::Int(_) => true,
-            Number::Float(_) => false,
-        }
-    }
 }
 
 #[derive(Debug)]
@@ -41,17 +32,21 @@ pub(super) enum JsonValue {
 }
 
 impl JsonValue {
-    pub(super) fn as_str(&self) -> Option<&str> {
+    pub(super) fn to_str(&self) -> Result<&str, StoryError> {
         match self {
-            JsonValue::String(s) => Some(s),
-            _ => None,
+            JsonValue::String(s) => Ok(s),
+            _ => Err(StoryError::BadJson(format!(
+                "Expected string, found: {self:?}"
+            ))),
         }
     }
 
-    pub(super) fn as_integer(&self) -> Option<i32> {
+    pub(super) fn to_integer(&self) -> Result<i32, StoryError> {
         match self {
-            JsonValue::Number(n) => n.as_integer(),
-            _ => None,
+            JsonValue::Number(Number::Int(n)) => Ok(*n),
+            _ => Err(StoryError::BadJson(format!(
+                "Expected integer, found: {self:?}"
+            ))),
         }
     }
 }
@@ -60,6 +55,7 @@ pub(super) struct JsonTokenizer<'a> {
     json: &'a [u8],
     lookahead: Option<char>,
     skip_whitespaces: bool,
+    depth: usize,
 }
 
 impl<'a> JsonTokenizer<'a> {
@@ -68,7 +64,26 @@ impl<'a> JsonTokenizer<'a> {
             json: s.as_bytes(),
             lookahead: None,
             skip_whitespaces: true,
+            depth: 0,
+        }
+    }
+
+    /// Called on entering an array or object that may contain others.
+    pub(super) fn enter(&mut self) -> io::Result<()> {
+        self.depth += 1;
+
+        if self.depth > MAX_DEPTH {
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidData,
+                "Arrays and objects are nested too deeply",
+            ));
         }
+
+        Ok(())
+    }
+
+    pub(super) fn leave(&mut self) {
+        self.depth -= 1;
     }
 
     pub(super) fn read(&mut self) -> io::Result<char> {
@@ -180,6 +195,12 @@ impl<'a> JsonTokenizer<'a> {
         })
     }
 
+    pub(super) fn read_integer(&mut self) -> io::Result<i32> {
+        self.read_number()?
+            .as_integer()
+            .ok_or_else(|| io::Error::new(io::ErrorKind::InvalidData, "Expected an integer"))
+    }
+
     pub(super) fn read_string(&mut self) -> io::Result<String> {
         self.expect('"')?;
         self.skip_whitespaces = false;
@@ -235,9 +256,10 @@ impl<'a> JsonTokenizer<'a> {
         let mut code = 0;
 
         for _ in 0..4 {
-            let digit = self.read()?.to_digit(16).ok_or_else(|| {
-                io::Error::new(io::ErrorKind::InvalidData, "Invalid \\u escape")
-            })?;
+            let digit = self
+                .read()?
+                .to_digit(16)
+                .ok_or_else(|| io::Error::new(io::ErrorKind::InvalidData, "Invalid \\u escape"))?;
             code = code * 16 + digit;
         }
 
diff --git a/runtime/src/story_state.rs b/runtime/src/story_state.rs
index aa46d5d..8399c2f 100644
--- a/runtime/src/story_state.rs
+++ b/runtime/src/story_state.rs
@@ -1376,19 +1376,13 @@ impl StoryState {
 
             if let Some(output_stream_obj) = j_object.get("outputStream") {
                 self.current_flow.output_stream = json_read::jarray_to_runtime_obj_list(
-                    output_stream_obj.as_array().unwrap(),
+                    json_read::to_array(output_stream_obj)?,
                     false,
                 )?;
             }
 
             if let Some(current_choices_obj) = j_object.get("currentChoices") {
-                self.current_flow.current_choices = json_read::jarray_to_runtime_obj_list(
-                    current_choices_obj.as_array().unwrap(),
-                    false,
-                )?
-                .iter()
-                .map(|o| o.clone().into_any().downcast::<Choice>().unwrap())
-                .collect();
+                self.current_flow.current_choices = Flow::choices_from_json(current_choices_obj)?;
             }
 
             let j_choice_threads_obj = j_object.get("choiceThreads");
@@ -1412,7 +1406,7 @@ impl StoryState {
 
         if let Some(eval_stack_obj) = j_object.get("evalStack") {
             self.evaluation_stack =
-                json_read::jarray_to_runtime_obj_list(eval_stack_obj.as_array().unwrap(), false)?;
+                json_read::jarray_to_runtime_obj_list(json_read::to_array(eval_stack_obj)?, false)?;
         }
 
         if let Some(current_divert_target_path) = j_object.get("currentDivertTarget") {
diff --git a/runtime/src/variables_state.rs b/runtime/src/variables_state.rs
index df5a1a9..2d876bd 100644
--- a/runtime/src/variables_state.rs
+++ b/runtime/src/variables_state.rs
@@ -411,7 +411,7 @@ impl VariablesState {
                     json_read::jtoken_to_runtime_object(loaded_token, None)?
                         .into_any()
                         .downcast::<Value>()
-                        .unwrap(),
+                        .map_err(|_| json_read::unexpected("value", loaded_token))?,
                 );
             } else {
                 self.global_variables.insert(k.clone(), v.clone());
-- 
2.43.0


From 9e1424a47f93653e5c546b570d16cbba3b3b0b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:54 +0000
Subject: [PATCH 68/78] hook: list definitions (cfg bladeink_verif)

---
 runtime/src/list_definition.rs         |  5 +++++
 runtime/src/list_definitions_origin.rs | 15 +++++++++++++++
 runtime/src/story/verif_audit.rs       |  5 +++++
 3 files changed, 25 insertions(+)

diff --git a/runtime/src/list_definition.rs b/runtime/src/list_definition.rs
index b458dc4..7e0672a 100644
--- a/runtime/src/list_definition.rs
+++ b/runtime/src/list_definition.rs
@@ -58,4 +58,9 @@ impl ListDefinition {
             .min()
             .map(|item_name| InkListItem::new(Some(self.name.clone()), item_name.clone()))
     }
+
+    #[cfg(bladeink_verif)]
+    pub(crate) fn verif_items(&self) -> std::collections::BTreeMap<&String, &i32> {
+        self.item_name_to_values.iter().collect()
+    }
 }
diff --git a/runtime/src/list_definitions_origin.rs b/runtime/src/list_definitions_origin.rs
index 53e4c0d..58d8fb6 100644
--- a/runtime/src/list_definitions_origin.rs
+++ b/runtime/src/list_definitions_origin.rs
@@ -49,4 +49,19 @@ impl ListDefinitionsOrigin {
 
         self.all_unambiguous_list_value_cache.get(name)
     }
+
+    /// Lists all definitions and what each item name alone denotes.
+    #[cfg(bladeink_verif)]
+    pub(crate) fn verif_list(&self) -> Vec<String> {
+        let mut out: Vec<String> = self
+            .lists
+            .iter()
+            .map(|(k, l)| format!("list {k:?} {:?} {:?}", l.get_name(), l.verif_items()))
+            .collect();
+        for (k, v) in &self.all_unambiguous_list_value_cache {
+            out.push(format!("item {k:?} is {v}"));
+        }
+        out.sort();
+        out
+    }
 }
diff --git a/runtime/src/story/verif_audit.rs b/runtime/src/story/verif_audit.rs
index 3454128..ca1c014 100644
--- a/runtime/src/story/verif_audit.rs
+++ b/runtime/src/story/verif_audit.rs
@@ -550,4 +550,9 @@ impl Story {
         ));
         out
     }
+
+    /// Lists the list definitions.
+    pub fn verif_list_definitions(&self) -> Vec<String> {
+        self.list_definitions.verif_list()
+    }
 }
-- 
2.43.0


From 76a7e9eab1b031a0f4b22a16f50275f369f53872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:10 +0000
Subject: [PATCH 69/78] fix: a jump in the global declarations could keep
 Story::new from returning

---
 runtime/src/story/mod.rs   |  1 +
 runtime/src/story/state.rs | 43 ++++++++++++++++++++++++++++++++++----
 2 files changed, 40 insertions(+), 4 deletions(-)

diff --git a/runtime/src/story/mod.rs b/runtime/src/story/mod.rs
index fc6a497..5329dcf 100644
--- a/runtime/src/story/mod.rs
+++ b/runtime/src/story/mod.rs
@@ -86,6 +86,7 @@ mod misc {
                 externals: HashMap::with_capacity(0),
             };
 
+            story.check_global_declarations()?;
             story.reset_globals()?;
 
             if version != INK_VERSION_CURRENT {
diff --git a/runtime/src/story/state.rs b/runtime/src/story/state.rs
index 1598c8b..2807a5d 100644
--- a/runtime/src/story/state.rs
+++ b/runtime/src/story/state.rs
@@ -1,8 +1,12 @@
+use std::rc::Rc;
+
 use crate::{
-    path::Path, story::Story, story_error::StoryError, story_state::StoryState,
-    value_type::ValueType,
+    container::Container, divert::Divert, path::Path, story::Story, story_error::StoryError,
+    story_state::StoryState, value_type::ValueType,
 };
 
+const GLOBAL_DECLARATIONS: &str = "global decl";
+
 /// # State
 /// Methods to read and write story state.
 impl Story {
@@ -16,16 +20,47 @@ impl Story {
         &mut self.state
     }
 
+    /// The global declarations run while the story is being constructed, so
+    /// they have to come to an end: there can be no jump in them, nor anything
+    /// after them to fall through to.
+    pub(crate) fn check_global_declarations(&self) -> Result<(), StoryError> {
+        fn has_jump(container: &Container) -> bool {
+            container.content.iter().any(|obj| {
+                let obj = obj.as_any();
+                obj.is::<Divert>() || obj.downcast_ref::<Container>().is_some_and(has_jump)
+            })
+        }
+
+        let root = &self.main_content_container;
+
+        match root.named_content.get(GLOBAL_DECLARATIONS) {
+            Some(declarations)
+                if has_jump(declarations)
+                    || root.content.iter().any(|obj| {
+                        std::ptr::eq(
+                            Rc::as_ptr(obj) as *const (),
+                            Rc::as_ptr(declarations) as *const (),
+                        )
+                    }) =>
+            {
+                Err(StoryError::BadJson(
+                    "The global declarations contain or lead to other content".to_owned(),
+                ))
+            }
+            _ => Ok(()),
+        }
+    }
+
     pub(crate) fn reset_globals(&mut self) -> Result<(), StoryError> {
         if self
             .main_content_container
             .named_content
-            .contains_key("global decl")
+            .contains_key(GLOBAL_DECLARATIONS)
         {
             let original_pointer = self.get_state().get_current_pointer().clone();
 
             self.choose_path(
-                &Path::new_with_components_string(Some("global decl")),
+                &Path::new_with_components_string(Some(GLOBAL_DECLARATIONS)),
                 false,
             )?;
 
-- 
2.43.0


From 63fe1d0b77ad1cf35724095ac4b4d1265c2b430f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:11 +0000
Subject: [PATCH 70/78] fix: rinklecate -j wrote control characters, and
 backslashes in failed diverts, unescaped

---
 rinklecate/src/player.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rinklecate/src/player.rs b/rinklecate/src/player.rs
index 679b1d8..e0897e8 100644
--- a/rinklecate/src/player.rs
+++ b/rinklecate/src/player.rs
@@ -139,9 +139,8 @@ pub fn play(mut story: Story, opts: &Options) -> anyhow::Result<()> {
                     if let Err(e) = story.choose_path_string(&path, true, None) {
                         if opts.json_output {
                             println!(
-                                "{{\"issues\": [\"Error diverting to '{}': {}\"]}}",
-                                path,
-                                e.to_string().replace('"', "\\\"")
+                                "{{\"issues\": [\"{}\"]}}",
+                                escape_json_string(&format!("Error diverting to '{path}': {e}"))
                             );
                         } else {
                             eprintln!("<error diverting to '{path}': {e}>");
@@ -271,6 +270,7 @@ fn escape_json_string(s: &str) -> String {
             '\n' => out.push_str("\\n"),
             '\r' => out.push_str("\\r"),
             '\t' => out.push_str("\\t"),
+            c if c < ' ' => out.push_str(&format!("\\u{:04x}", c as u32)),
             c => out.push(c),
         }
     }
-- 
2.43.0


From d8ce04800951bc4a5ee74c77b64405a25d75ef59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:13 +0000
Subject: [PATCH 71/78] fix: a gather's line could not start with an inline
 conditional, nor open a block with a bare brace

---
 compiler/src/parser/statement.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/compiler/src/parser/statement.rs b/compiler/src/parser/statement.rs
index 2d536fd..3a58308 100644
--- a/compiler/src/parser/statement.rs
+++ b/compiler/src/parser/statement.rs
@@ -213,7 +213,10 @@ pub fn parse_statement(
         // Build a synthetic slice: the first entry uses gather_content as its content, then
         // the remaining (not-yet-consumed) lines follow.  We track how many lines the
         // sub-parser consumed and advance the outer line_index accordingly.
-        if looks_like_conditional(gather_content) || looks_like_sequence(gather_content) {
+        let opens_conditional = gather_content.trim() == "{"
+            || (looks_like_conditional(gather_content)
+                && brace_spans_multiple_lines(gather_content));
+        if opens_conditional || looks_like_sequence(gather_content) {
             // Synthetic opening line using gather_content.
             let synthetic = Line {
                 content: gather_content,
-- 
2.43.0


From 5597b17d0d9314b461423e5c0467b7944588b0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:19 +0000
Subject: [PATCH 72/78] fix: a branch's dash line took only text, and a blank
 line hid the cases of a switch

---
 compiler/src/parser/conditional.rs | 153 +++++++++++++----------------
 compiler/src/parser/sequence.rs    |  18 +++-
 2 files changed, 87 insertions(+), 84 deletions(-)

diff --git a/compiler/src/parser/conditional.rs b/compiler/src/parser/conditional.rs
index a8474e6..07e50b9 100644
--- a/compiler/src/parser/conditional.rs
+++ b/compiler/src/parser/conditional.rs
@@ -4,7 +4,7 @@ use crate::{
 };
 
 use super::{
-    Line, ParsedStatement,
+    Line, ParsedStatement, brace_spans_multiple_lines,
     expression::parse_expression,
     inline::{
         parse_condition, parse_inline_conditional, split_condition_colon, tokenize_inline_content,
@@ -69,20 +69,23 @@ pub fn parse_conditional(
     })?;
 
     // Detect switch-style: `{ expr: \n - Case1: ... }` — look ahead at next body line
-    let first_body_line_index = *line_index + 1;
-    let is_switch = rest_after_colon.trim().is_empty() && first_body_line_index < lines.len() && {
-        let first_body = lines[first_body_line_index].content.trim();
-        if first_body.starts_with('-')
-            && !first_body.starts_with("->")
-            && else_branch(first_body).is_none()
-        {
-            // Check that the branch looks like "- case_expr: body" (has a colon after stripping -)
-            let branch_content = first_body.trim_start_matches('-').trim_start();
-            split_condition_colon(branch_content).is_some() && !branch_content.starts_with("->")
-        } else {
-            false
-        }
-    };
+    let first_body_line = lines[*line_index + 1..]
+        .iter()
+        .map(|body_line| body_line.content.trim())
+        .find(|body_line| !body_line.is_empty());
+    let is_switch = rest_after_colon.trim().is_empty()
+        && first_body_line.is_some_and(|first_body| {
+            if first_body.starts_with('-')
+                && !first_body.starts_with("->")
+                && else_branch(first_body).is_none()
+            {
+                // Check that the branch looks like "- case_expr: body" (has a colon after stripping -)
+                let branch_content = first_body.trim_start_matches('-').trim_start();
+                split_condition_colon(branch_content).is_some() && !branch_content.starts_with("->")
+            } else {
+                false
+            }
+        });
 
     if is_switch {
         let value = parse_expression(condition_text.trim())?;
@@ -171,14 +174,15 @@ pub fn parse_conditional(
         // `- else:`, perhaps with content on the same line
         if let Some(else_content) = else_branch(trimmed) {
             in_else = true;
-            *line_index += 1;
-            let rest = else_content.trim();
-            if !rest.is_empty() {
-                when_false.extend(tokenize_inline_content(rest)?);
-            }
             if body_line.had_newline {
                 when_false.push(Node::Newline);
             }
+            when_false.extend(parse_branch_start(
+                else_content,
+                lines,
+                line_index,
+                parse_stmt,
+            )?);
             continue;
         }
 
@@ -306,13 +310,7 @@ pub fn parse_multi_branch_conditional(
             let header = header.trim_start();
             if let Some(rest) = else_branch(trimmed) {
                 current_condition = None;
-                if !rest.trim().is_empty() {
-                    current_nodes.extend(tokenize_inline_content(rest.trim())?);
-                    if line.had_newline {
-                        current_nodes.push(Node::Newline);
-                    }
-                }
-                *line_index += 1;
+                current_nodes.extend(parse_branch_start(rest, lines, line_index, parse_stmt)?);
                 continue;
             }
 
@@ -353,13 +351,8 @@ pub fn parse_multi_branch_conditional(
                 None => {
                     // Bare default branch: `- content` with no colon — treat as else
                     current_condition = None;
-                    if !header.trim().is_empty() {
-                        current_nodes.extend(tokenize_inline_content(header.trim())?);
-                        if line.had_newline {
-                            current_nodes.push(Node::Newline);
-                        }
-                    }
-                    *line_index += 1;
+                    current_nodes
+                        .extend(parse_branch_start(header, lines, line_index, parse_stmt)?);
                     continue;
                 }
             };
@@ -390,11 +383,12 @@ pub fn parse_multi_branch_conditional(
                         current_nodes.append(&mut nodes);
                     }
                 } else {
-                    current_nodes.extend(tokenize_inline_content(rest_trimmed)?);
-                    if line.had_newline {
-                        current_nodes.push(Node::Newline);
-                    }
-                    *line_index += 1;
+                    current_nodes.extend(parse_branch_start(
+                        rest_trimmed,
+                        lines,
+                        line_index,
+                        parse_stmt,
+                    )?);
                 }
             } else {
                 *line_index += 1;
@@ -421,6 +415,39 @@ pub fn parse_multi_branch_conditional(
     ))
 }
 
+/// The statement that a branch has on the line of its dash; `line_index` goes past it.
+fn parse_branch_start(
+    content: &str,
+    lines: &[Line<'_>],
+    line_index: &mut usize,
+    parse_stmt: &impl Fn(&[Line<'_>], &mut usize, bool) -> Result<ParsedStatement, CompilerError>,
+) -> Result<Vec<Node>, CompilerError> {
+    let content = content.trim();
+    let line = &lines[*line_index];
+    *line_index += 1;
+    if content.is_empty() {
+        return Ok(Vec::new());
+    }
+    let mut statement = vec![Line {
+        content,
+        indent: 0,
+        had_newline: line.had_newline,
+    }];
+    // A block opened here goes on below.
+    if content.starts_with('{') && brace_spans_multiple_lines(content) {
+        statement.extend_from_slice(&lines[*line_index..]);
+    }
+    let mut consumed = 0;
+    let parsed = parse_stmt(&statement, &mut consumed, true)?;
+    *line_index += consumed.saturating_sub(1);
+    match parsed {
+        ParsedStatement::Nodes(nodes) => Ok(nodes),
+        _ => Err(CompilerError::unsupported_feature(
+            "global declarations are not supported inside conditionals".to_owned(),
+        )),
+    }
+}
+
 /// What follows `- else:` on its line.
 fn else_branch(line: &str) -> Option<&str> {
     let header = line.strip_prefix('-')?.trim_start();
@@ -503,21 +530,7 @@ fn parse_switch_conditional(
             let header = header.trim_start();
             if let Some(rest) = else_branch(trimmed) {
                 current_case = None; // else branch
-                let rest = rest.trim();
-                if !rest.is_empty() {
-                    let inline_line = Line {
-                        content: rest,
-                        had_newline: line.had_newline,
-                        indent: 0,
-                    };
-                    let inline_lines = std::slice::from_ref(&inline_line);
-                    let mut idx = 0;
-                    let statement = parse_stmt(inline_lines, &mut idx, true)?;
-                    if let ParsedStatement::Nodes(mut nodes) = statement {
-                        current_nodes.append(&mut nodes);
-                    }
-                }
-                *line_index += 1;
+                current_nodes.extend(parse_branch_start(rest, lines, line_index, parse_stmt)?);
                 continue;
             }
 
@@ -526,39 +539,13 @@ fn parse_switch_conditional(
                 None => {
                     // Bare default branch `- content` with no colon
                     current_case = None;
-                    if !header.trim().is_empty() {
-                        let inline_line = Line {
-                            content: header.trim(),
-                            had_newline: line.had_newline,
-                            indent: 0,
-                        };
-                        let inline_lines = std::slice::from_ref(&inline_line);
-                        let mut idx = 0;
-                        let statement = parse_stmt(inline_lines, &mut idx, true)?;
-                        if let ParsedStatement::Nodes(mut nodes) = statement {
-                            current_nodes.append(&mut nodes);
-                        }
-                    }
-                    *line_index += 1;
+                    current_nodes
+                        .extend(parse_branch_start(header, lines, line_index, parse_stmt)?);
                     continue;
                 }
             };
             current_case = Some(parse_expression(case_text.trim())?);
-            let rest = rest.trim();
-            if !rest.is_empty() {
-                let inline_line = Line {
-                    content: rest,
-                    had_newline: line.had_newline,
-                    indent: 0,
-                };
-                let inline_lines = std::slice::from_ref(&inline_line);
-                let mut idx = 0;
-                let statement = parse_stmt(inline_lines, &mut idx, true)?;
-                if let ParsedStatement::Nodes(mut nodes) = statement {
-                    current_nodes.append(&mut nodes);
-                }
-            }
-            *line_index += 1;
+            current_nodes.extend(parse_branch_start(rest, lines, line_index, parse_stmt)?);
             continue;
         }
 
diff --git a/compiler/src/parser/sequence.rs b/compiler/src/parser/sequence.rs
index 173ed7c..f61e7f7 100644
--- a/compiler/src/parser/sequence.rs
+++ b/compiler/src/parser/sequence.rs
@@ -3,7 +3,7 @@ use crate::{
     error::CompilerError,
 };
 
-use super::{Line, ParsedStatement, inline::tokenize_inline_content};
+use super::{Line, ParsedStatement, brace_spans_multiple_lines, inline::tokenize_inline_content};
 
 pub fn looks_like_sequence(content: &str) -> bool {
     if !content.starts_with('{') || !content.contains(':') {
@@ -133,6 +133,22 @@ pub fn parse_sequence(
             // and must be parsed as such; otherwise tokenize it as inline content.
             let mut nodes = if inline_text.is_empty() {
                 Vec::new()
+            } else if inline_text.starts_with('{') && brace_spans_multiple_lines(inline_text) {
+                // A block opened on the branch header line goes on below it.
+                let combined: Vec<Line<'_>> = std::iter::once(Line {
+                    content: inline_text,
+                    had_newline: body_line.had_newline,
+                    indent: body_line.indent + 1,
+                })
+                .chain(lines[*line_index..].iter().cloned())
+                .collect();
+                let mut idx = 0;
+                let statement = parse_stmt(&combined, &mut idx, true)?;
+                *line_index += idx.saturating_sub(1);
+                match statement {
+                    ParsedStatement::Nodes(n) => n,
+                    _ => Vec::new(),
+                }
             } else if inline_text.starts_with('~') {
                 let synthetic = [Line {
                     content: inline_text,
-- 
2.43.0


From 2f10c83e5939df301fe1692696d325993a4f0c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:19 +0000
Subject: [PATCH 73/78] fix: an indented line after a LIST declaration was
 taken for more of its items

---
 compiler/src/parser/statement.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/compiler/src/parser/statement.rs b/compiler/src/parser/statement.rs
index 3a58308..c56a332 100644
--- a/compiler/src/parser/statement.rs
+++ b/compiler/src/parser/statement.rs
@@ -90,8 +90,9 @@ pub fn parse_statement(
                     break;
                 }
             }
-            // Stop at line-comments
-            if next.starts_with("//") {
+            // Stop at line-comments, and at what is not a further item
+            let expects_item = full.trim_end().ends_with([',', '=', '(']);
+            if next.starts_with("//") || !(expects_item || next.starts_with([',', ')'])) {
                 break;
             }
             full.push(' ');
-- 
2.43.0


From 77f270af9b7c9a2a8b883aefcecb6e8f6700b953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:20 +0000
Subject: [PATCH 74/78] fix: a tab after a declaration's keyword, or more than
 one blank after ~, hid the statement

---
 compiler/src/parser/choice.rs       |  4 +--
 compiler/src/parser/declarations.rs |  3 +-
 compiler/src/parser/statement.rs    | 49 ++++++++++++++---------------
 3 files changed, 26 insertions(+), 30 deletions(-)

diff --git a/compiler/src/parser/choice.rs b/compiler/src/parser/choice.rs
index a114f2b..b7ae0e7 100644
--- a/compiler/src/parser/choice.rs
+++ b/compiler/src/parser/choice.rs
@@ -216,9 +216,9 @@ pub fn parse_choice(
 }
 
 fn is_declaration(line: &str) -> bool {
-    ["VAR ", "CONST ", "LIST ", "EXTERNAL "]
+    ["VAR", "CONST", "LIST", "EXTERNAL"]
         .iter()
-        .any(|keyword| line.starts_with(keyword))
+        .any(|keyword| super::strip_keyword(line, keyword).is_some())
 }
 
 fn choice_marker_nesting_level(trimmed_start: &str) -> Option<usize> {
diff --git a/compiler/src/parser/declarations.rs b/compiler/src/parser/declarations.rs
index d20c252..cde9784 100644
--- a/compiler/src/parser/declarations.rs
+++ b/compiler/src/parser/declarations.rs
@@ -90,7 +90,7 @@ fn parse_list_declaration(input: &str) -> Result<ListDeclaration, CompilerError>
 
 fn parse_assignment(input: &str) -> Result<Node, CompilerError> {
     // Strip optional `temp` keyword (marks the assignment as a local/temporary variable)
-    let (input, is_temp) = if let Some(rest) = input.strip_prefix("temp ") {
+    let (input, is_temp) = if let Some(rest) = strip_keyword(input, "temp") {
         (rest.trim_start(), true)
     } else {
         (input, false)
@@ -175,4 +175,3 @@ fn split_assignment(input: &str, separator: &str) -> Result<(String, String), Co
 
     Ok((name.trim().to_owned(), expression.trim().to_owned()))
 }
-
diff --git a/compiler/src/parser/statement.rs b/compiler/src/parser/statement.rs
index c56a332..8d8b582 100644
--- a/compiler/src/parser/statement.rs
+++ b/compiler/src/parser/statement.rs
@@ -47,28 +47,28 @@ pub fn parse_statement(
         .map_err(|e| e.with_line(ln));
     }
 
-    if let Some(rest) = trimmed.strip_prefix("EXTERNAL ") {
+    if let Some(rest) = strip_keyword(trimmed, "EXTERNAL") {
         *line_index += 1;
         // Extract the function name from "funcName(params)"
         let name = rest.split('(').next().unwrap_or(rest).trim().to_owned();
         return Ok(ParsedStatement::ExternalFunction(name));
     }
 
-    if let Some(rest) = trimmed.strip_prefix("VAR ") {
+    if let Some(rest) = strip_keyword(trimmed, "VAR") {
         *line_index += 1;
         return Ok(ParsedStatement::Global(
             parse_global_assignment(rest).map_err(|e| e.with_line(ln))?,
         ));
     }
 
-    if let Some(rest) = trimmed.strip_prefix("CONST ") {
+    if let Some(rest) = strip_keyword(trimmed, "CONST") {
         *line_index += 1;
         return Ok(ParsedStatement::Const(
             parse_global_assignment(rest).map_err(|e| e.with_line(ln))?,
         ));
     }
 
-    if let Some(rest) = trimmed.strip_prefix("LIST ") {
+    if let Some(rest) = strip_keyword(trimmed, "LIST") {
         *line_index += 1;
         // Collect continuation lines (indented) that are part of the same LIST declaration.
         let mut full = rest.to_owned();
@@ -106,29 +106,20 @@ pub fn parse_statement(
         ));
     }
 
-    if trimmed == "~ return" || trimmed == "~return" {
-        *line_index += 1;
-        return Ok(ParsedStatement::Nodes(vec![Node::ReturnVoid]));
-    }
-
-    if let Some(rest) = trimmed
-        .strip_prefix("~ return ")
-        .or_else(|| trimmed.strip_prefix("~return "))
-    {
-        *line_index += 1;
-        // Try as bool first (legacy), otherwise parse as expression
-        let expr = match parse_bool(rest.trim()) {
-            Ok(b) => Expression::Bool(b),
-            Err(_) => parse_expression(rest.trim()).map_err(|e| e.with_line(ln))?,
-        };
-        return Ok(ParsedStatement::Nodes(vec![Node::ReturnExpr(expr)]));
-    }
-
-    if let Some(rest) = trimmed
-        .strip_prefix("~ ")
-        .or_else(|| trimmed.strip_prefix('~'))
-    {
+    if let Some(rest) = trimmed.strip_prefix('~') {
+        let rest = rest.trim_start();
         *line_index += 1;
+        if rest == "return" {
+            return Ok(ParsedStatement::Nodes(vec![Node::ReturnVoid]));
+        }
+        if let Some(value) = strip_keyword(rest, "return") {
+            // Try as bool first (legacy), otherwise parse as expression
+            let expr = match parse_bool(value.trim()) {
+                Ok(b) => Expression::Bool(b),
+                Err(_) => parse_expression(value.trim()).map_err(|e| e.with_line(ln))?,
+            };
+            return Ok(ParsedStatement::Nodes(vec![Node::ReturnExpr(expr)]));
+        }
         return Ok(ParsedStatement::Nodes(vec![
             parse_assignment(rest).map_err(|e| e.with_line(ln))?,
         ]));
@@ -309,3 +300,9 @@ pub fn parse_statement(
         .map(ParsedStatement::Nodes)
         .map_err(|e| e.with_line(ln))
 }
+
+/// What follows a keyword and the blank that ends it.
+fn strip_keyword<'a>(text: &'a str, keyword: &str) -> Option<&'a str> {
+    text.strip_prefix(keyword)
+        .filter(|rest| rest.starts_with([' ', '\t']))
+}
-- 
2.43.0


From 84f3270bf4ca543aeb6c5309abbf46c7f506c693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:20 +0000
Subject: [PATCH 75/78] fix: a declaration ended the choice it stands in, or
 was refused there

---
 compiler/src/parser/choice.rs    | 13 ++-----------
 compiler/src/parser/statement.rs |  6 ++++++
 compiler/src/parser/story.rs     | 24 +++++++++++++++++++++++-
 3 files changed, 31 insertions(+), 12 deletions(-)

diff --git a/compiler/src/parser/choice.rs b/compiler/src/parser/choice.rs
index b7ae0e7..271724b 100644
--- a/compiler/src/parser/choice.rs
+++ b/compiler/src/parser/choice.rs
@@ -173,11 +173,8 @@ pub fn parse_choice(
         }
 
         // Whatever its indentation, content that follows a choice belongs to it. Only the end of
-        // the surrounding block and declarations do not.
-        if gather_level == 0
-            && body_line.indent <= choice_indent
-            && (body_trimmed.starts_with('}') || is_declaration(body_trimmed))
-        {
+        // the surrounding block does not.
+        if gather_level == 0 && body_line.indent <= choice_indent && body_trimmed.starts_with('}') {
             break;
         }
 
@@ -215,12 +212,6 @@ pub fn parse_choice(
     })]))
 }
 
-fn is_declaration(line: &str) -> bool {
-    ["VAR", "CONST", "LIST", "EXTERNAL"]
-        .iter()
-        .any(|keyword| super::strip_keyword(line, keyword).is_some())
-}
-
 fn choice_marker_nesting_level(trimmed_start: &str) -> Option<usize> {
     let marker = trimmed_start.chars().next()?;
     if marker != '*' && marker != '+' {
diff --git a/compiler/src/parser/statement.rs b/compiler/src/parser/statement.rs
index 8d8b582..4467159 100644
--- a/compiler/src/parser/statement.rs
+++ b/compiler/src/parser/statement.rs
@@ -301,6 +301,12 @@ pub fn parse_statement(
         .map_err(|e| e.with_line(ln))
 }
 
+fn is_declaration(line: &str) -> bool {
+    ["VAR", "CONST", "LIST", "EXTERNAL"]
+        .iter()
+        .any(|keyword| strip_keyword(line, keyword).is_some())
+}
+
 /// What follows a keyword and the blank that ends it.
 fn strip_keyword<'a>(text: &'a str, keyword: &str) -> Option<&'a str> {
     text.strip_prefix(keyword)
diff --git a/compiler/src/parser/story.rs b/compiler/src/parser/story.rs
index c4587ba..07c767b 100644
--- a/compiler/src/parser/story.rs
+++ b/compiler/src/parser/story.rs
@@ -11,7 +11,7 @@ impl<'a> Parser<'a> {
         }
 
         let normalized = self.source.replace("\r\n", "\n");
-        let lines = split_lines(&normalized);
+        let mut lines = split_lines(&normalized);
 
         if lines.is_empty() {
             return Err(CompilerError::invalid_source(
@@ -27,6 +27,28 @@ impl<'a> Parser<'a> {
         let mut flows = Vec::new();
         let mut current_flow: Option<FlowBuilder> = None;
         let mut current_stitch: Option<FlowBuilder> = None;
+        // Declarations are global wherever they stand.
+        let mut line_index = 0;
+        while line_index < lines.len() {
+            let first = line_index;
+            if !is_declaration(lines[first].content.trim_start()) {
+                line_index += 1;
+                continue;
+            }
+            match parse_statement(&lines, &mut line_index, false)? {
+                ParsedStatement::Global(global) => globals.push(global),
+                ParsedStatement::Const(c) => {
+                    consts.insert(c.name.clone(), c.initial_value);
+                }
+                ParsedStatement::List(list_decl) => list_declarations.push(list_decl),
+                ParsedStatement::ExternalFunction(name) => external_functions.push(name),
+                ParsedStatement::Nodes(_) => {}
+            }
+            for line in &mut lines[first..line_index] {
+                line.content = "";
+            }
+        }
+
         let mut line_index = 0;
 
         while line_index < lines.len() {
-- 
2.43.0


From ffefb7412f23d1d5d88bc766a348c4086ffe0381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:12 +0000
Subject: [PATCH 76/78] Verification hook: internal listings under a cfg flag
 of their own

---
 runtime/src/callstack.rs               | 2 +-
 runtime/src/list_definition.rs         | 2 +-
 runtime/src/list_definitions_origin.rs | 2 +-
 runtime/src/story/mod.rs               | 2 +-
 runtime/src/story_state.rs             | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/runtime/src/callstack.rs b/runtime/src/callstack.rs
index 73bec1d..01f84c3 100644
--- a/runtime/src/callstack.rs
+++ b/runtime/src/callstack.rs
@@ -204,7 +204,7 @@ impl CallStack {
         cs
     }
 
-    #[cfg(bladeink_verif)]
+    #[cfg(bladeink_verif_audit)]
     pub(crate) fn verif_threads(&self) -> &[Thread] {
         &self.threads
     }
diff --git a/runtime/src/list_definition.rs b/runtime/src/list_definition.rs
index 7e0672a..131c811 100644
--- a/runtime/src/list_definition.rs
+++ b/runtime/src/list_definition.rs
@@ -59,7 +59,7 @@ impl ListDefinition {
             .map(|item_name| InkListItem::new(Some(self.name.clone()), item_name.clone()))
     }
 
-    #[cfg(bladeink_verif)]
+    #[cfg(bladeink_verif_audit)]
     pub(crate) fn verif_items(&self) -> std::collections::BTreeMap<&String, &i32> {
         self.item_name_to_values.iter().collect()
     }
diff --git a/runtime/src/list_definitions_origin.rs b/runtime/src/list_definitions_origin.rs
index 58d8fb6..4ddd65d 100644
--- a/runtime/src/list_definitions_origin.rs
+++ b/runtime/src/list_definitions_origin.rs
@@ -51,7 +51,7 @@ impl ListDefinitionsOrigin {
     }
 
     /// Lists all definitions and what each item name alone denotes.
-    #[cfg(bladeink_verif)]
+    #[cfg(bladeink_verif_audit)]
     pub(crate) fn verif_list(&self) -> Vec<String> {
         let mut out: Vec<String> = self
             .lists
diff --git a/runtime/src/story/mod.rs b/runtime/src/story/mod.rs
index 5329dcf..1aedcd3 100644
--- a/runtime/src/story/mod.rs
+++ b/runtime/src/story/mod.rs
@@ -207,5 +207,5 @@ mod progress;
 mod state;
 mod tags;
 pub mod variable_observer;
-#[cfg(bladeink_verif)]
+#[cfg(bladeink_verif_audit)]
 pub mod verif_audit;
diff --git a/runtime/src/story_state.rs b/runtime/src/story_state.rs
index 8399c2f..d0ac19d 100644
--- a/runtime/src/story_state.rs
+++ b/runtime/src/story_state.rs
@@ -57,7 +57,7 @@ pub(crate) struct StoryState {
 }
 
 impl StoryState {
-    #[cfg(bladeink_verif)]
+    #[cfg(bladeink_verif_audit)]
     pub(crate) fn verif_named_flows(&self) -> impl Iterator<Item = (&String, &Flow)> {
         self.named_flows.iter().flatten()
     }
-- 
2.43.0


From 9fcb3ee995a519bc8f9f527a9736eda2c4e000be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:24 +0000
Subject: [PATCH 77/78] fix: a sequence branch's dash line broke the line after
 a divert or an assignment

---
 compiler/src/parser/sequence.rs | 41 ++++++++-------------------------
 1 file changed, 10 insertions(+), 31 deletions(-)

diff --git a/compiler/src/parser/sequence.rs b/compiler/src/parser/sequence.rs
index f61e7f7..c3d3fe6 100644
--- a/compiler/src/parser/sequence.rs
+++ b/compiler/src/parser/sequence.rs
@@ -128,50 +128,29 @@ pub fn parse_sequence(
             *line_index = body_end;
             nodes
         } else {
-            // Non-choice branch: parse the inline text on the branch header line.
-            // If it starts with '~' it is a statement (assignment, return, etc.)
-            // and must be parsed as such; otherwise tokenize it as inline content.
+            // Non-choice branch: what stands on the branch header line is a statement of its own.
             let mut nodes = if inline_text.is_empty() {
                 Vec::new()
-            } else if inline_text.starts_with('{') && brace_spans_multiple_lines(inline_text) {
-                // A block opened on the branch header line goes on below it.
-                let combined: Vec<Line<'_>> = std::iter::once(Line {
-                    content: inline_text,
-                    had_newline: body_line.had_newline,
-                    indent: body_line.indent + 1,
-                })
-                .chain(lines[*line_index..].iter().cloned())
-                .collect();
-                let mut idx = 0;
-                let statement = parse_stmt(&combined, &mut idx, true)?;
-                *line_index += idx.saturating_sub(1);
-                match statement {
-                    ParsedStatement::Nodes(n) => n,
-                    _ => Vec::new(),
-                }
-            } else if inline_text.starts_with('~') {
-                let synthetic = [Line {
+            } else {
+                let mut statement = vec![Line {
                     content: inline_text,
                     had_newline: body_line.had_newline,
                     indent: body_line.indent + 1,
                 }];
+                // A block opened here goes on below.
+                if inline_text.starts_with('{') && brace_spans_multiple_lines(inline_text) {
+                    statement.extend_from_slice(&lines[*line_index..]);
+                }
                 let mut idx = 0;
-                match parse_stmt(&synthetic, &mut idx, true)? {
+                let parsed = parse_stmt(&statement, &mut idx, true)?;
+                *line_index += idx.saturating_sub(1);
+                match parsed {
                     ParsedStatement::Nodes(n) => n,
                     _ => Vec::new(),
                 }
-            } else {
-                tokenize_inline_content(inline_text)?
             };
             if body_line.had_newline {
                 nodes.insert(0, Node::Newline);
-                // Only add the trailing Newline when there is inline content.
-                // When inline_text is empty (dash on its own line), the body lines
-                // already produce their own trailing Newline; adding one here would
-                // produce an extra blank line between the leading \n and the content.
-                if !inline_text.is_empty() {
-                    nodes.push(Node::Newline);
-                }
             }
             // Collect body lines (stops at }, next branch header, or knot/stitch header)
             while *line_index < lines.len() {
-- 
2.43.0


From b6f508b375930877c387659469ed7ee9644f800a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:30 +0000
Subject: [PATCH 78/78] fix: a list item after the greatest number made a story
 that does not load

---
 compiler/src/parser/declarations.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/compiler/src/parser/declarations.rs b/compiler/src/parser/declarations.rs
index cde9784..57526cf 100644
--- a/compiler/src/parser/declarations.rs
+++ b/compiler/src/parser/declarations.rs
@@ -82,6 +82,11 @@ fn parse_list_declaration(input: &str) -> Result<ListDeclaration, CompilerError>
         } else {
             items.push((inner.to_owned(), value, selected));
         }
+        if value > i32::MAX as u32 {
+            return Err(CompilerError::invalid_source(format!(
+                "the value of LIST item '{inner}' is out of range"
+            )));
+        }
         value += 1;
     }
 
-- 
2.43.0

