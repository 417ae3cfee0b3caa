From b7512e23eb43a4a277128d6d380abd77bf5013b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:57 +0000
Subject: [PATCH 01/60] fix: escape operator names in the output

The name of an \operatorname can contain <, > or &, which ended up
unescaped in the <mo> element.
---
 crates/mathml-renderer/src/ast.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mathml-renderer/src/ast.rs b/crates/mathml-renderer/src/ast.rs
index 5f77263..0daeced 100644
--- a/crates/mathml-renderer/src/ast.rs
+++ b/crates/mathml-renderer/src/ast.rs
@@ -356,7 +356,7 @@ impl<'state> Emitter<'state> {
                 name,
             } => {
                 emit_operator_attributes(&mut self.s, attrs, left, right)?;
-                write!(self.s, ">{name}</mo>")?;
+                write!(self.s, ">{}</mo>", EscapeHtml(name))?;
             }
             Node::IdentifierStr(letters) => {
                 // The "<mrow>" with "<mspace/>" is needed to prevent Firefox from adding
-- 
2.43.0


From 6cc2ef3c62000a1bbb39bbb5571173534646ebbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:57 +0000
Subject: [PATCH 02/60] fix: escape the names of unknown commands in the output

With ignore_unknown_commands, a command like \< was copied verbatim into
the <merror> element.
---
 crates/mathml-renderer/src/ast.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/mathml-renderer/src/ast.rs b/crates/mathml-renderer/src/ast.rs
index 0daeced..4964a50 100644
--- a/crates/mathml-renderer/src/ast.rs
+++ b/crates/mathml-renderer/src/ast.rs
@@ -812,8 +812,9 @@ impl<'state> Emitter<'state> {
                 self.warnings.set_unknown_commands();
                 write!(
                     self.s,
-                    r#"<merror class="{}"><mtext>\{cmd_name}</mtext></merror>"#,
-                    self.css_classes.unknown_command
+                    r#"<merror class="{}"><mtext>\{}</mtext></merror>"#,
+                    self.css_classes.unknown_command,
+                    EscapeHtml(cmd_name)
                 )?;
             }
         }
-- 
2.43.0


From 3154174e77e3b854e91c0f8c338be836f1a78a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:10 +0000
Subject: [PATCH 03/60] fix: don't disable stretching of an explicitly stretchy
 delimiter

\mathrel\big/ set both stretchy="false" and stretchy="true" on one <mo>
(and failed a debug assertion).
---
 crates/math-core/src/parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index ad6ce85..16309e7 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -765,7 +765,12 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                         right: _,
                     } => Ok(Node::Operator {
                         op,
-                        attrs: attrs | OpAttrs::STRETCHY_FALSE,
+                        // `\big` and `\middle` delimiters may have asked for stretching.
+                        attrs: if attrs.contains(OpAttrs::STRETCHY_TRUE) {
+                            attrs
+                        } else {
+                            attrs | OpAttrs::STRETCHY_FALSE
+                        },
                         left,
                         right,
                         size,
-- 
2.43.0


From 5a88dbc90affe4382fded997f575ed00a9a4ec96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:12 +0000
Subject: [PATCH 04/60] fix: let the expansion of a custom command start with a
 switch or an end token

The first token of an expansion was parsed as if it were an argument, so a
command whose body starts with, e.g., \rm, \over, \tag, \right or \end was
rejected even where its body is accepted.
---
 crates/math-core/src/parser.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 16309e7..d06c4b0 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -231,7 +231,17 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                     }
                 }
                 // Parse the token.
-                self.parse_token(cur_tokloc, ParseAs::Sequence, prev_class)?
+                match self.parse_one_token(cur_tokloc, ParseAs::Sequence, prev_class)? {
+                    Parsed::Node(class, node) => (class, node),
+                    // An expansion without any content is typeset as an empty group.
+                    Parsed::Expansion if matches!(self.tokens.peek().token(), Token::Relax) => {
+                        let relax = self.next_token();
+                        self.parse_token(relax, ParseAs::Sequence, prev_class)?
+                    }
+                    // The expansion may start with a token which only a sequence can handle,
+                    // so we start over with the first token of the expansion.
+                    Parsed::Expansion => continue,
+                }
             };
             prev_class = class;
 
-- 
2.43.0


From f949193679fde74b25275eea9cfa67e87464aa78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:13 +0000
Subject: [PATCH 05/60] fix: don't let cell and row separators end up inside of
 other constructs

'&' and '\\' inside of a group, an argument, '\left...\right' or after a
switch were turned into separator nodes which aren't direct children of the
table: a panic with debug assertions, silently dropped without. Groups now
reject '&', and switches and infix fractions end at the end of the cell.
---
 crates/math-core/src/environments.rs |  34 ++++++++
 crates/math-core/src/parser.rs       | 114 +++++++++++++++++++--------
 2 files changed, 116 insertions(+), 32 deletions(-)

diff --git a/crates/math-core/src/environments.rs b/crates/math-core/src/environments.rs
index f4d4796..de0bba6 100644
--- a/crates/math-core/src/environments.rs
+++ b/crates/math-core/src/environments.rs
@@ -1,6 +1,7 @@
 use alloc::string::String;
 use alloc::vec;
 use core::fmt::Write;
+use core::mem;
 use core::num::NonZeroU16;
 
 use mathml_renderer::{
@@ -12,6 +13,7 @@ use mathml_renderer::{
 };
 
 use crate::character_class::{StretchableOp, fenced};
+use crate::token::Token;
 
 static ENVIRONMENTS: phf::Map<&'static str, Env> = phf::phf_map! {
     "array" => Env::Array,
@@ -325,6 +327,38 @@ pub struct EnvState<'arena> {
     pub numbered: Option<NumberedEnvState<'arena>>,
 }
 
+/// Whether `&`, `\\` and `\hline` were allowed; see [`EnvState::forbid_separators`].
+pub(super) type OldSeparators = (bool, bool, bool);
+
+impl EnvState<'_> {
+    /// `true` if the given token separates cells or rows of the current environment.
+    #[inline]
+    pub(super) fn is_separator(&self, token: &Token) -> bool {
+        match token {
+            Token::NewColumn => self.allow_columns,
+            Token::NewLine => self.meaningful_newlines,
+            _ => false,
+        }
+    }
+
+    /// Stop treating `&`, `\\` and `\hline` as parts of the current environment.
+    pub(super) fn forbid_separators(&mut self) -> OldSeparators {
+        (
+            mem::replace(&mut self.allow_columns, false),
+            mem::replace(&mut self.meaningful_newlines, false),
+            mem::replace(&mut self.allow_hlines, false),
+        )
+    }
+
+    pub(super) fn restore_separators(&mut self, old_separators: OldSeparators) {
+        (
+            self.allow_columns,
+            self.meaningful_newlines,
+            self.allow_hlines,
+        ) = old_separators;
+    }
+}
+
 #[derive(Clone, Copy, Debug, Default, PartialEq)]
 pub(super) enum NumberingMode {
     #[default]
diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index d06c4b0..667c5ae 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -210,9 +210,35 @@ impl<'state, 'arena> Parser<'state, 'arena> {
         let mut prev_class = prev_class;
         let old_tf = self.state.transform;
         let old_style = self.state.style;
+        // Inside of a group, `&` and `\\` can't refer to the cells of the surrounding table.
+        let old_separators = matches!(
+            sequence_end,
+            SequenceEnd::EndToken(
+                EndToken::GroupClose | EndToken::SquareBracketClose | EndToken::Right
+            )
+        )
+        .then(|| self.state.env.forbid_separators());
+        // The index of the first node of the current table cell.
+        let mut cell_start = 0;
 
         // Because we don't want to consume the end token, we just peek here.
         while !sequence_end.matches(self.tokens.peek().token()) {
+            if self.state.env.is_separator(self.tokens.peek().token()) {
+                // Switches and infix fractions only extend to the end of the table cell.
+                if matches!(sequence_end, SequenceEnd::AnyEndToken) {
+                    break;
+                }
+                if let Some(infix_frac) = infix_frac.take() {
+                    self.finish_infix_frac(&mut nodes, cell_start, infix_frac);
+                    self.state.style = old_style;
+                }
+                let separator = self.next_token();
+                let (class, node) = self.parse_token(separator, ParseAs::Sequence, prev_class)?;
+                prev_class = class;
+                nodes.push(node);
+                cell_start = nodes.len();
+                continue;
+            }
             // Check whether we need to collect letters.
             let (class, target) = if let Some(collected) = self.merge_and_transform_letters()? {
                 collected
@@ -224,6 +250,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                         tokloc,
                         sequence_end,
                         &mut nodes,
+                        cell_start,
                         &mut infix_frac,
                     )? {
                         ControlFlow::SkipToken => continue,
@@ -270,37 +297,11 @@ impl<'state, 'arena> Parser<'state, 'arena> {
             // If there are superscripts or subscripts, we need to wrap the node we just got into
             // one of the node types for superscripts and subscripts.
         }
-        if let Some((numerator, with_line, delim)) = infix_frac {
-            let denominator = mem::replace(&mut nodes, Vec::with_capacity(1));
-            let (lt_value, lt_unit) = if with_line {
-                Length::none().into_parts()
-            } else {
-                Length::zero().into_parts()
-            };
-            let frac = self.commit(Node::Frac {
-                num: node_vec_to_node(self.arena, &numerator, false),
-                denom: node_vec_to_node(self.arena, &denominator, false),
-                lt_value,
-                lt_unit,
-                attr: None,
-            });
-            let node = if let Some(delim) = delim {
-                let (open, close) = match delim {
-                    InfixDelim::Paren => (OPEN_PAREN, CLOSE_PAREN),
-                    InfixDelim::Brace => (OPEN_BRACE, CLOSE_BRACE),
-                    InfixDelim::Brack => (OPEN_BRACKET, CLOSE_BRACKET),
-                };
-                self.commit(fenced(
-                    self.arena,
-                    vec![frac],
-                    Some(open),
-                    Some(close),
-                    None,
-                ))
-            } else {
-                frac
-            };
-            nodes.push(node);
+        if let Some(infix_frac) = infix_frac {
+            self.finish_infix_frac(&mut nodes, cell_start, infix_frac);
+        }
+        if let Some(old_separators) = old_separators {
+            self.state.env.restore_separators(old_separators);
         }
         if !keep_end_token {
             // Discard the end token.
@@ -311,12 +312,52 @@ impl<'state, 'arena> Parser<'state, 'arena> {
         Ok(nodes)
     }
 
+    /// Replace the nodes of the current table cell, which form the denominator, with the fraction.
+    fn finish_infix_frac(
+        &self,
+        nodes: &mut Vec<&'arena Node<'arena>>,
+        cell_start: usize,
+        (numerator, with_line, delim): (Vec<&'arena Node<'arena>>, bool, Option<InfixDelim>),
+    ) {
+        let denominator = nodes.split_off(cell_start);
+        let (lt_value, lt_unit) = if with_line {
+            Length::none().into_parts()
+        } else {
+            Length::zero().into_parts()
+        };
+        let frac = self.commit(Node::Frac {
+            num: node_vec_to_node(self.arena, &numerator, false),
+            denom: node_vec_to_node(self.arena, &denominator, false),
+            lt_value,
+            lt_unit,
+            attr: None,
+        });
+        let node = if let Some(delim) = delim {
+            let (open, close) = match delim {
+                InfixDelim::Paren => (OPEN_PAREN, CLOSE_PAREN),
+                InfixDelim::Brace => (OPEN_BRACE, CLOSE_BRACE),
+                InfixDelim::Brack => (OPEN_BRACKET, CLOSE_BRACKET),
+            };
+            self.commit(fenced(
+                self.arena,
+                vec![frac],
+                Some(open),
+                Some(close),
+                None,
+            ))
+        } else {
+            frac
+        };
+        nodes.push(node);
+    }
+
     #[inline]
     fn handle_tokens_without_output(
         &mut self,
         tokspan: &TokSpan,
         sequence_end: SequenceEnd,
         collected_nodes: &mut Vec<&'arena Node<'arena>>,
+        cell_start: usize,
         infix_frac: &mut Option<(Vec<&'arena Node<'arena>>, bool, Option<InfixDelim>)>,
     ) -> ParseResult<ControlFlow> {
         let span = tokspan.span().into();
@@ -331,7 +372,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
             }
             Token::InfixGenFrac { with_line, delim } => {
                 if infix_frac.is_none() {
-                    *infix_frac = Some((mem::take(collected_nodes), with_line, delim));
+                    *infix_frac = Some((collected_nodes.split_off(cell_start), with_line, delim));
                     // The numerator was already parsed in the surrounding style (we only
                     // learn it's a fraction here), but we can at least shrink the style
                     // for the denominator. `parse_sequence` restores the style on exit.
@@ -1701,6 +1742,15 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                     node_vec_to_node(self.arena, &nodes, false),
                 ));
             }
+            Token::NewColumn | Token::NewLine
+                if !matches!(parse_as, ParseAs::Sequence)
+                    && self.state.env.is_separator(&cur_token) =>
+            {
+                Err(LatexError(
+                    span.into(),
+                    LatexErrKind::CannotBeUsedAsArgument,
+                ))
+            }
             Token::NewColumn => {
                 if self.state.env.allow_columns {
                     class = Class::Close;
-- 
2.43.0


From ddb70a1060301d9438f4cdb0d860a981b0119803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:24 +0000
Subject: [PATCH 06/60] fix: never report an error span that ends before it
 starts

---
 crates/math-core/src/parser.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 667c5ae..70be0f4 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -3117,7 +3117,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
             is_negative = sign == '-';
             let span = self.tokens.next()?.span();
             arg_start.get_or_insert(span.start());
-            arg_end = span.end();
+            arg_end = arg_end.max(span.end());
         }
 
         // The value: digits with at most one decimal separator (`.` or `,`).
@@ -3140,7 +3140,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
             let span = self.tokens.next()?.span();
             in_number = true;
             arg_start.get_or_insert(span.start());
-            arg_end = span.end();
+            arg_end = arg_end.max(span.end());
         }
         let value: &str = &buf;
         if value.is_empty() {
@@ -3174,14 +3174,14 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 let start = unit_start.unwrap_or(peek_span.start());
                 let unit_str = core::str::from_utf8(&unit[..i]).unwrap_or("");
                 return Err(Box::new(LatexError(
-                    start..peek_span.start(),
+                    start..peek_span.start().max(start),
                     LatexErrKind::InvalidUnit(KString::from_ref(unit_str)),
                 )));
             };
             unit[i] = unit_char as u8;
             let span = self.tokens.next()?.span();
             unit_start.get_or_insert(span.start());
-            arg_end = span.end();
+            arg_end = arg_end.max(span.end());
         }
         let unit = core::str::from_utf8(&unit).unwrap_or("");
 
-- 
2.43.0


From a7d9d6fe6b9b79a68043e2a9d2840840acaff9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:43 +0000
Subject: [PATCH 07/60] fix: make \def and \let resolve commands which are
 already buffered

Only \newcommand did, so with ignore_unknown_commands a use of the new command
that had already been queued was still rendered as an unknown command.
---
 crates/math-core/src/token_queue.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/crates/math-core/src/token_queue.rs b/crates/math-core/src/token_queue.rs
index 2447548..e404559 100644
--- a/crates/math-core/src/token_queue.rs
+++ b/crates/math-core/src/token_queue.rs
@@ -698,11 +698,10 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
             if let Some(tok) = store.get(name, source) {
                 self.resolve_buffered_redefined_command(name, tok);
             }
-        } else {
-            // The token after the definition has already been loaded, so it may still say
-            // "unknown command" for the command we have just defined.
-            self.resolve_buffered_unknown_commands();
         }
+        // The token after the definition has already been loaded, so it may still say
+        // "unknown command" for the command we have just defined.
+        self.resolve_buffered_unknown_commands();
         true
     }
 
-- 
2.43.0


From 134230e4f4460ab4f1ce2464dddf3cde526a8ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:13 +0000
Subject: [PATCH 08/60] fix: keep the label of a multline which isn't in its
 last row

---
 crates/math-core/src/parser.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 70be0f4..2e230f5 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -24,8 +24,8 @@ use crate::{
     color_defs::get_color,
     custom_cmds::RecordedToken,
     environments::{
-        CLOSE_BRACE, CLOSE_BRACKET, CLOSE_PAREN, Env, EnvState, OPEN_BRACE, OPEN_BRACKET,
-        OPEN_PAREN,
+        CLOSE_BRACE, CLOSE_BRACKET, CLOSE_PAREN, Env, EnvState, NumberingMode, OPEN_BRACE,
+        OPEN_BRACKET, OPEN_PAREN,
     },
     error::{DelimiterModifier, LatexErrKind, LatexError, LimitedUsabilityToken, Place},
     global_state::GlobalState,
@@ -1820,7 +1820,13 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                         self.arena,
                     ) {
                         Ok(tag) => {
-                            let link_target = numbered_state.label.take();
+                            // If there is one number for the whole environment, then the
+                            // label has to wait for it.
+                            let link_target = if numbered_state.mode == NumberingMode::OnlyLast {
+                                None
+                            } else {
+                                numbered_state.label.take()
+                            };
                             let label_info = if let Some(tag) = tag {
                                 if let Some(label) = link_target {
                                     self.tokens.stores.global_state.label_map.insert(
-- 
2.43.0


From 7f93839a06c09fd6678de0d146eaba2d97ea81bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:25 +0000
Subject: [PATCH 09/60] fix: don't run a failed conversion again to get its
 error

The first run may have changed the global state, so the second one could
succeed, which made the CLI panic.
---
 crates/math-core-cli/src/replace.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/crates/math-core-cli/src/replace.rs b/crates/math-core-cli/src/replace.rs
index c9514b5..e8f879f 100644
--- a/crates/math-core-cli/src/replace.rs
+++ b/crates/math-core-cli/src/replace.rs
@@ -185,18 +185,17 @@ impl<'args> Replacer<'args> {
             // Replace HTML entities
             let replaced = replace_html_entities(&mut self.entity_buffer, content);
             // Convert the content and check for error.
-            let is_error = { f(state, &mut result, replaced, open_typ).is_err() };
-            if is_error {
+            let conversion = f(state, &mut result, replaced, open_typ);
+            if let Err(latex_error) = conversion {
                 // If we stop on error, return the error together with the snippet.
-                // Unfortunately, due to limitations in the borrow checker, we have to run the
-                // conversion again to get the error.
+                // Unfortunately, due to limitations in the borrow checker, we have to replace
+                // the HTML entities again to get the snippet.
                 // The reason seems to be that the borrow checker cannot tell that when we
                 // return `replaced` here, we are not maintaining the borrow for the next
                 // iteration of the loop.
-                // This is quite unfortunate, but we only have to do this in the error case,
-                // which is hopefully not too common.
+                // (The conversion must not be run again, because the first run may have changed
+                // the state.)
                 let replaced = replace_html_entities(&mut self.entity_buffer, content);
-                let latex_error = f(state, &mut result, replaced, open_typ).unwrap_err();
                 return Err(ConversionError(
                     start,
                     ConvErrKind::LatexError(*latex_error, replaced),
-- 
2.43.0


From 7e416e17f031886199f34b6fc45b6661f9101d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:18 +0000
Subject: [PATCH 10/60] fix: report a missing argument within \set and friends
 as such

It was reported as an internal parser error.
---
 crates/math-core/src/parser.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 2e230f5..24cecd3 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -2248,10 +2248,13 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                     ))
                 }
             }
-            Token::Whitespace
-            | Token::MathOrTextMode(_, _)
-            | Token::VerticalLineDef(_)
-            | Token::CustomCmdArg(_) => {
+            // This only gets here if the argument of `\set` and friends ends with a command which
+            // is missing an argument of its own.
+            Token::VerticalLineDef(_) => Err(LatexError(
+                span.into(),
+                LatexErrKind::ExpectedArgumentGotClose,
+            )),
+            Token::Whitespace | Token::MathOrTextMode(_, _) | Token::CustomCmdArg(_) => {
                 // These tokens should have been skipped.
                 // We report an internal error here.
                 Err(LatexError(span.into(), LatexErrKind::Internal))
-- 
2.43.0


From ac5d9697f20d757d7509e4b1d940f77381a3fce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:39 +0000
Subject: [PATCH 11/60] fix: reject separators after \mathbin, \not and the
 like as well

---
 crates/math-core/src/parser.rs | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 24cecd3..1a4e180 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -233,10 +233,13 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                     self.state.style = old_style;
                 }
                 let separator = self.next_token();
-                let (class, node) = self.parse_token(separator, ParseAs::Sequence, prev_class)?;
-                prev_class = class;
-                nodes.push(node);
-                cell_start = nodes.len();
+                if let Parsed::Node(class, node) =
+                    self.parse_one_token(separator, ParseAs::Sequence, prev_class)?
+                {
+                    prev_class = class;
+                    nodes.push(node);
+                    cell_start = nodes.len();
+                }
                 continue;
             }
             // Check whether we need to collect letters.
@@ -490,6 +493,15 @@ impl<'state, 'arena> Parser<'state, 'arena> {
     ) -> ParseResult<(Class, &'arena Node<'arena>)> {
         let mut cur_tokloc = cur_tokloc;
         loop {
+            // Only `parse_sequence` can handle the separators between table cells.
+            if let Ok(tokspan) = &cur_tokloc
+                && self.state.env.is_separator(tokspan.token())
+            {
+                return Err(Box::new(LatexError(
+                    tokspan.span().into(),
+                    LatexErrKind::CannotBeUsedAsArgument,
+                )));
+            }
             match self.parse_one_token(cur_tokloc, parse_as, prev_class)? {
                 Parsed::Node(class, node) => return Ok((class, node)),
                 Parsed::Expansion => cur_tokloc = self.next_token(),
@@ -1742,15 +1754,6 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                     node_vec_to_node(self.arena, &nodes, false),
                 ));
             }
-            Token::NewColumn | Token::NewLine
-                if !matches!(parse_as, ParseAs::Sequence)
-                    && self.state.env.is_separator(&cur_token) =>
-            {
-                Err(LatexError(
-                    span.into(),
-                    LatexErrKind::CannotBeUsedAsArgument,
-                ))
-            }
             Token::NewColumn => {
                 if self.state.env.allow_columns {
                     class = Class::Close;
-- 
2.43.0


From 60e0b4cdc5a5d600e8fff6449b724fdc4762b7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:29 +0000
Subject: [PATCH 12/60] fix: don't take the class of a macro from what follows
 a leading parameter or macro

---
 crates/math-core/src/lib.rs         | 15 +++++++++++++--
 crates/math-core/src/token_queue.rs |  7 ++++++-
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/crates/math-core/src/lib.rs b/crates/math-core/src/lib.rs
index a1da1c0..5301eee 100644
--- a/crates/math-core/src/lib.rs
+++ b/crates/math-core/src/lib.rs
@@ -555,6 +555,7 @@ fn parse_custom_commands(
         body.clear();
         let mut num_args = 0;
         let mut first_class: Option<character_class::Class> = None;
+        let mut class_is_settled = false;
         let result = 'body: {
             let mut lexer = Lexer::new(definition.as_str());
             loop {
@@ -566,10 +567,16 @@ fn parse_custom_commands(
                                 // resolved and to know its class. The actual resolution is done
                                 // when the macro is used.
                                 if let Some(resolved) = resolve_builtin_cmd(&parser_cfg, cmd_name) {
-                                    if first_class.is_none() {
+                                    if !class_is_settled {
                                         first_class = resolved.class();
+                                        class_is_settled = first_class.is_some();
                                     }
                                 } else {
+                                    // Another macro, whose class we don't know here.
+                                    if !class_is_settled {
+                                        first_class = Some(character_class::Class::Default);
+                                        class_is_settled = true;
+                                    }
                                     unresolved.push((
                                         idx,
                                         KString::from_ref(cmd_name),
@@ -587,11 +594,15 @@ fn parse_custom_commands(
                                 if n >= num_args {
                                     num_args = n + 1;
                                 }
+                                // The class is the one of an argument which we don't know
+                                // yet, not the one of what comes after it.
+                                class_is_settled = true;
                                 body.push(RecordedToken::Token(Token::CustomCmdArg(n)));
                             }
                             tok => {
-                                if first_class.is_none() {
+                                if !class_is_settled {
                                     first_class = tok.class();
+                                    class_is_settled = first_class.is_some();
                                 }
                                 body.push(RecordedToken::Token(tok))
                             }
diff --git a/crates/math-core/src/token_queue.rs b/crates/math-core/src/token_queue.rs
index e404559..1beaf3e 100644
--- a/crates/math-core/src/token_queue.rs
+++ b/crates/math-core/src/token_queue.rs
@@ -795,6 +795,7 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
         num_args: u8,
     ) -> Result<(Vec<RecordedToken>, Option<Class>), Box<LatexError>> {
         let mut first_class: Option<Class> = None;
+        let mut class_is_settled = false;
         let body = body_tokspans
             .into_iter()
             .map(|queued| {
@@ -810,6 +811,9 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
                                 },
                             )));
                         }
+                        // If the body starts with a parameter, the class is the one of an
+                        // argument which we don't know yet, not the one of what comes after it.
+                        class_is_settled = true;
                         Ok(RecordedToken::Token(Token::CustomCmdArg(arg_num)))
                     }
                     // This has to come before the arm below, which would otherwise record
@@ -823,8 +827,9 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
                     tok => {
                         // The class has to be known now, because it is stored with the
                         // definition, so we take it from the meaning the command has here.
-                        if first_class.is_none() {
+                        if !class_is_settled {
                             first_class = tok.class();
+                            class_is_settled = first_class.is_some();
                         }
                         // A command is recorded by name rather than by what it means right
                         // now, so that the body follows a later redefinition of that name,
-- 
2.43.0


From 30f325c35a4372595ae5bf381c3974a2df7a5bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:44 +0000
Subject: [PATCH 13/60] fix: bound the number of tokens which expanding custom
 commands may queue

---
 crates/math-core/src/parser.rs      |  4 ++--
 crates/math-core/src/token_queue.rs | 30 ++++++++++++++++++++++-------
 2 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 1a4e180..5f4bd82 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -2356,14 +2356,14 @@ impl<'state, 'arena> Parser<'state, 'arena> {
             Token::CustomCmdRef(source, num_args, _, start, end) => {
                 self.count_expansion(span)?;
                 self.read_cmd_args(num_args)?;
-                if !self.tokens.queue_stored_body_substituting(
+                if let Err(kind) = self.tokens.queue_stored_body_substituting(
                     source,
                     start,
                     end,
                     &self.state.cmd_args,
                     span,
                 ) {
-                    return Err(Box::new(LatexError(span.into(), LatexErrKind::Internal)));
+                    return Err(Box::new(LatexError(span.into(), kind)));
                 }
                 return Ok(Parsed::Expansion);
             }
diff --git a/crates/math-core/src/token_queue.rs b/crates/math-core/src/token_queue.rs
index 1beaf3e..a050384 100644
--- a/crates/math-core/src/token_queue.rs
+++ b/crates/math-core/src/token_queue.rs
@@ -172,6 +172,12 @@ impl Stores<'_, '_> {
     }
 }
 
+/// How many tokens the expansion of custom commands may put into the queue.
+///
+/// The number of expansions is limited by [`MaxExpansions`](crate::MaxExpansions), but that
+/// doesn't bound their size.
+const MAX_QUEUED_TOKENS: usize = 1 << 16;
+
 static EOI_TOK: QueuedTok<'static> =
     QueuedTok::new(TokSpan::new(Token::Eoi, Span::zero_width(0)), None);
 
@@ -566,9 +572,8 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
     /// copied out of its store first: the store and the buffer are separate fields, so both
     /// can be borrowed at once.
     ///
-    /// Returns `false` if the range doesn't name a body in that store, which can only happen
-    /// if something has gone wrong.
-    #[must_use]
+    /// Fails if the range doesn't name a body in that store, which can only happen if something
+    /// has gone wrong, or if the queue would grow beyond [`MAX_QUEUED_TOKENS`].
     pub(super) fn queue_stored_body_substituting(
         &mut self,
         source: CmdSource,
@@ -576,13 +581,24 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
         end: usize,
         args: &CmdArgs<'arena>,
         span: Span,
-    ) -> bool {
+    ) -> Result<(), LatexErrKind> {
         let Some(body) = self.stores.get_body(source, start, end) else {
-            return false;
+            return Err(LatexErrKind::Internal);
         };
         if body.is_empty() {
             self.queue_empty_body(span);
-            return true;
+            return Ok(());
+        }
+        // A body may mention an argument any number of times, so the arguments of commands
+        // which expand to one another can double in length with every expansion.
+        let queued_len = body.iter().fold(self.queue.len(), |len, recorded| {
+            len.saturating_add(match recorded {
+                RecordedToken::Token(Token::CustomCmdArg(arg_num)) => args.get(*arg_num).len(),
+                _ => 1,
+            })
+        });
+        if queued_len > MAX_QUEUED_TOKENS {
+            return Err(LatexErrKind::TooManyExpansions);
         }
         self.queue.reserve(body.len());
         // Queue the token stream in the front in reverse order.
@@ -610,7 +626,7 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
             }
         }
         self.update_next_non_whitespace();
-        true
+        Ok(())
     }
 
     /// Queue what the body of a custom command with no tokens in it expands to.
-- 
2.43.0


From 204dbd18a3362d29f27f9710ada82ee74055510b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:23 +0000
Subject: [PATCH 14/60] fix: take only one digit as the argument of \mathrel
 and the like

---
 crates/math-core/src/parser.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 5f4bd82..694d312 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -100,6 +100,9 @@ enum ParseAs {
     /// A continued sequence keeps the previous sequence state even if a new group is
     /// started.
     ContinueSequence,
+    /// The argument of a command which only changes how the argument relates to the sequence
+    /// around it, so that it is still parsed as a part of that sequence.
+    ArgInSequence,
     /// For an `Arg`, all spacing is ignored, so we may as well strip it away.
     Arg,
     /// For an `ArgWithSpace`, operator spacing is significant, so we have to be
@@ -110,7 +113,10 @@ enum ParseAs {
 impl ParseAs {
     #[inline]
     fn in_sequence(self) -> bool {
-        matches!(self, ParseAs::Sequence | ParseAs::ContinueSequence)
+        matches!(
+            self,
+            ParseAs::Sequence | ParseAs::ContinueSequence | ParseAs::ArgInSequence
+        )
     }
 }
 
@@ -776,7 +782,12 @@ impl<'state, 'arena> Parser<'state, 'arena> {
             }
             Token::MathClass(kind) => {
                 let tok_span = self.next_token()?;
-                let (_, node) = self.parse_token(Ok(tok_span), parse_as, prev_class)?;
+                // Without braces, the argument is a single digit and not a whole number.
+                let parse_arg_as = match parse_as {
+                    ParseAs::Sequence => ParseAs::ArgInSequence,
+                    other => other,
+                };
+                let (_, node) = self.parse_token(Ok(tok_span), parse_arg_as, prev_class)?;
                 // Recompute the next class:
                 let next_class = self.peek_class_token(parse_as.in_sequence())?;
                 let (left, right) = match kind {
-- 
2.43.0


From bdc75cfa7d9d093aecb84a8f1ef1f7219379af52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:40 +0000
Subject: [PATCH 15/60] fix: a blank macro argument or body does not take what
 follows

---
 crates/math-core/src/token_queue.rs | 34 +++++++++++++++++------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/crates/math-core/src/token_queue.rs b/crates/math-core/src/token_queue.rs
index a050384..ece8b6e 100644
--- a/crates/math-core/src/token_queue.rs
+++ b/crates/math-core/src/token_queue.rs
@@ -548,7 +548,7 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
         args: &CmdArgs<'arena>,
         span: Span,
     ) {
-        if tokens.is_empty() {
+        if tokens.iter().all(|tok| matches!(tok, Token::Whitespace)) {
             self.queue_empty_body(span);
             return;
         }
@@ -585,7 +585,10 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
         let Some(body) = self.stores.get_body(source, start, end) else {
             return Err(LatexErrKind::Internal);
         };
-        if body.is_empty() {
+        if body
+            .iter()
+            .all(|recorded| matches!(recorded, RecordedToken::Token(Token::Whitespace)))
+        {
             self.queue_empty_body(span);
             return Ok(());
         }
@@ -629,7 +632,7 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
         Ok(())
     }
 
-    /// Queue what the body of a custom command with no tokens in it expands to.
+    /// Queue what the body of a custom command with nothing but whitespace in it expands to.
     ///
     /// Such a body produces nothing at all, but we still have to queue something: without it,
     /// the caller would take the token which comes after the command and treat that as the
@@ -952,10 +955,10 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
 
 /// Queue the tokens of one argument of a custom command in the front of the buffer.
 ///
-/// An argument with no tokens is queued as an empty group, because an empty argument is
-/// equivalent to `{}`. Substituting nothing at all would make it disappear from constructs
-/// which need an argument, which would then take whatever comes next instead. The `span` is
-/// only used for the braces of that empty group.
+/// An argument with nothing but whitespace in it is queued as an empty group, because an empty
+/// argument is equivalent to `{}`. Substituting nothing at all would make it disappear from
+/// constructs which need an argument, which would then take whatever comes next instead. The
+/// `span` is only used for the braces of that empty group.
 ///
 /// The space for the tokens is reserved here rather than in the caller, because an argument
 /// stands for a single token in the body it is substituted into: a caller which reserved room
@@ -968,15 +971,18 @@ fn push_arg_front<'arena>(
     arg: &[QueuedTok<'arena>],
     span: Span,
 ) {
-    if arg.is_empty() {
-        queue.reserve(2);
+    let is_blank = arg
+        .iter()
+        .all(|queued| matches!(queued.token(), Token::Whitespace));
+    queue.reserve(arg.len() + 2);
+    if is_blank {
         queue.push_front(TokSpan::new(Token::GroupEnd, span).into());
+    }
+    for queued in arg.iter().rev() {
+        queue.push_front(*queued);
+    }
+    if is_blank {
         queue.push_front(TokSpan::new(Token::GroupBegin, span).into());
-    } else {
-        queue.reserve(arg.len());
-        for queued in arg.iter().rev() {
-            queue.push_front(*queued);
-        }
     }
 }
 
-- 
2.43.0


From 0ca2eae4945056686d55146eccc1ef29903b0d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:40 +0000
Subject: [PATCH 16/60] fix: a star after a command without a starred form is a
 star

---
 crates/math-core/src/commands.rs | 5 +++++
 crates/math-core/src/lexer.rs    | 8 +++++---
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/math-core/src/commands.rs b/crates/math-core/src/commands.rs
index b8bd6fd..e842932 100644
--- a/crates/math-core/src/commands.rs
+++ b/crates/math-core/src/commands.rs
@@ -949,6 +949,11 @@ static COMMANDS: phf::Map<&'static str, Token> = phf::phf_map! {
     "~" => TextMode(TextToken::Accent(symbol::COMBINING_TILDE)),
 };
 
+/// Whether there is a built-in command of this name, which includes a trailing `*`.
+pub fn is_starred_cmd(command: &str) -> bool {
+    COMMANDS.contains_key(command)
+}
+
 pub fn resolve_builtin_cmd(parser_cfg: &ParserConfig, command: &str) -> Option<Token> {
     // First check some conditionally-available commands which are built into the crate.
     'unreliable_rendering: {
diff --git a/crates/math-core/src/lexer.rs b/crates/math-core/src/lexer.rs
index e8ceda5..a789c70 100644
--- a/crates/math-core/src/lexer.rs
+++ b/crates/math-core/src/lexer.rs
@@ -6,7 +6,7 @@ use core::str::CharIndices;
 use kstring::KString;
 use mathml_renderer::symbol;
 
-use crate::commands::get_operator_from_unicode;
+use crate::commands::{get_operator_from_unicode, is_starred_cmd};
 use crate::environments::Env;
 use crate::error::{GetUnwrap, LatexErrKind, LatexError};
 use crate::token::{EndToken, Mode, PrimeKind, Span, TokSpan, Token};
@@ -79,8 +79,10 @@ impl<'source> Lexer<'source> {
             self.read_char();
         }
 
-        // Commands may end with a "*".
-        if self.peek.1 == Some('*') {
+        // Some commands have a starred form. After any other command, a "*" is a token of its own.
+        if let (star, Some('*')) = self.peek
+            && is_starred_cmd(self.input_string.get_unwrap(start..star + 1))
+        {
             self.read_char();
         }
 
-- 
2.43.0


From aac16bc579552eff99b3868f94c12905c641dfb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:45 +0000
Subject: [PATCH 17/60] fix: a group counts as an ordinary atom for the
 operator in front of it

---
 crates/math-core/src/token.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/math-core/src/token.rs b/crates/math-core/src/token.rs
index 0674478..277d875 100644
--- a/crates/math-core/src/token.rs
+++ b/crates/math-core/src/token.rs
@@ -551,9 +551,9 @@ impl Token {
         match self.unwrap_math_ref() {
             Relation(_) | ForceRelation(_) | XArrow(_) => Some(Class::Relation),
             Punctuation(_) | ForcePunctuation(_) => Some(Class::Punctuation),
-            Open(_) | Left | SquareBracketOpen | ForceOpen(..) | Begin(_) | GroupBegin => {
-                Some(Class::Open)
-            }
+            Open(_) | Left | SquareBracketOpen | ForceOpen(..) | Begin(_) => Some(Class::Open),
+            // A group is an ordinary atom to what surrounds it.
+            GroupBegin => Some(Class::Default),
             Close(_) | SquareBracketClose | ForceClose(..) | Right | Middle => Some(Class::Close),
             BinaryOp(_) | ForceBinaryOp(_) => Some(Class::BinaryOp),
             Op(_)
-- 
2.43.0


From dd017ef8ce896d114f3f79062f5a9f96036880cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:46 +0000
Subject: [PATCH 18/60] fix: a braced base of \overset and \underset keeps its
 class

---
 crates/math-core/src/parser.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 694d312..1510b07 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -1082,11 +1082,27 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 let symbol = self.parse_next(ParseAs::Arg)?;
                 self.state.style = old_style;
                 let token = self.next_token();
+                let braced_class = if let Ok(tokspan) = &token
+                    && matches!(tokspan.token(), Token::GroupBegin)
+                {
+                    Some(self.peek_class_token(true)?)
+                } else {
+                    None
+                };
                 let old_boundary_hack = mem::replace(&mut self.state.right_boundary_hack, true);
                 let (cls, target) =
                     self.parse_token(token, ParseAs::ContinueSequence, prev_class)?;
                 self.state.right_boundary_hack = old_boundary_hack;
-                class = cls;
+                class = match (braced_class, target) {
+                    // The result has the class of the base, even if the base is in braces.
+                    (Some(Class::Relation), Node::Operator { .. }) => Class::Relation,
+                    (Some(Class::BinaryOp), Node::Operator { left, .. })
+                        if !matches!(left, Some(MathSpacing::Zero)) =>
+                    {
+                        Class::BinaryOp
+                    }
+                    _ => cls,
+                };
                 if matches!(cur_token, Token::Overset) {
                     Ok(Node::Over { symbol, target })
                 } else {
-- 
2.43.0


From d803daef8857f2c8c008558483bb43b7a6142440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:08 +0000
Subject: [PATCH 19/60] fix: a font switch in a table cell ends with the cell

---
 crates/math-core/src/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 1510b07..e506929 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -245,6 +245,8 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                     prev_class = class;
                     nodes.push(node);
                     cell_start = nodes.len();
+                    // A font switch lasts until the end of its cell.
+                    self.state.transform = old_tf;
                 }
                 continue;
             }
-- 
2.43.0


From e82dbe32cab1314f925b832c6855ad113dd1f5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:27 +0000
Subject: [PATCH 20/60] fix: an inch is 72.27 points

---
 crates/math-core/src/specifications.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/math-core/src/specifications.rs b/crates/math-core/src/specifications.rs
index 055d882..27aacfa 100644
--- a/crates/math-core/src/specifications.rs
+++ b/crates/math-core/src/specifications.rs
@@ -53,7 +53,7 @@ impl LatexUnit {
             LatexUnit::Pt => Length::new(0.1 * value, Rem),
             LatexUnit::Mm => Length::new(0.28453 * value, Rem),
             LatexUnit::Cm => Length::new(2.8453 * value, Rem),
-            LatexUnit::In => Length::new(7.2 * value, Rem),
+            LatexUnit::In => Length::new(7.227 * value, Rem),
             LatexUnit::Ex => Length::new(value, Ex),
             LatexUnit::Em => Length::new(value, Em),
             LatexUnit::Mu => Length::new(0.055555556 * value, Em),
-- 
2.43.0


From 34440b4640c4ce9c38e230fcae0185ba4729c301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:34 +0000
Subject: [PATCH 21/60] fix: \hspace leaves the spacing of its neighbours to
 them, like \kern

---
 crates/math-core/src/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index e506929..caf16c2 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -909,6 +909,8 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 Ok(Node::Space(space))
             }
             Token::CustomSpace(kind) => {
+                // Spaces pass through the symbol class.
+                class = prev_class;
                 let (length, span) = self.parse_string_literal()?;
                 let trimmed = length.trim_ascii();
                 match parse_length_specification(trimmed) {
-- 
2.43.0


From df1e9e2a59c7b5e4be7905c30ca54badbf888004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:51 +0000
Subject: [PATCH 22/60] fix: \raisebox accepts spaces around its length, like
 \hspace

---
 crates/math-core/src/parser.rs      | 2 +-
 crates/math-core/src/text_parser.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index caf16c2..15e783a 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -1733,7 +1733,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
             }
             Token::RaiseBox => {
                 let (initial_voffset_str, span) = self.parse_string_literal()?;
-                let initial_voffset = match parse_length_specification(initial_voffset_str) {
+                let initial_voffset = match parse_length_specification(initial_voffset_str.trim_ascii()) {
                     Some((voffset, unit, is_math_unit)) => {
                         if is_math_unit {
                             return Err(Box::new(LatexError(
diff --git a/crates/math-core/src/text_parser.rs b/crates/math-core/src/text_parser.rs
index 50a76f4..4fc1282 100644
--- a/crates/math-core/src/text_parser.rs
+++ b/crates/math-core/src/text_parser.rs
@@ -284,7 +284,7 @@ impl<'arena> Parser<'_, 'arena> {
                         }
 
                         let (voffset_str, span) = self.parse_string_literal()?;
-                        let new_voffset = match parse_length_specification(voffset_str) {
+                        let new_voffset = match parse_length_specification(voffset_str.trim_ascii()) {
                             Some((voffset, unit, is_math_unit)) => {
                                 if is_math_unit {
                                     return Err(Box::new(LatexError(
-- 
2.43.0


From c666fbf4d1decf5624d968526f4b614378ecbee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:06 +0000
Subject: [PATCH 23/60] fix: colour specifications with a non-hexadecimal digit
 or a fourth component are errors

---
 crates/math-core/src/parser.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 15e783a..ea853d2 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -1970,8 +1970,8 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                     match type_name {
                         "rgb" => {
                             let mut parts = split_on_ascii(color_description, b',');
-                            let (Some(r), Some(g), Some(b)) =
-                                (parts.next(), parts.next(), parts.next())
+                            let (Some(r), Some(g), Some(b), None) =
+                                (parts.next(), parts.next(), parts.next(), parts.next())
                             else {
                                 break 'color Err(LatexError(
                                     span,
@@ -2000,8 +2000,8 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                         }
                         "RGB" => {
                             let mut parts = split_on_ascii(color_description, b',');
-                            let (Some(r), Some(g), Some(b)) =
-                                (parts.next(), parts.next(), parts.next())
+                            let (Some(r), Some(g), Some(b), None) =
+                                (parts.next(), parts.next(), parts.next(), parts.next())
                             else {
                                 break 'color Err(LatexError(
                                     span,
@@ -2034,11 +2034,17 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                                 }
                             }
                             match color_description.as_bytes() {
-                                &[r1, r2, g1, g2, b1, b2] => (
-                                    hex(r1) * 16 + hex(r2),
-                                    hex(g1) * 16 + hex(g2),
-                                    hex(b1) * 16 + hex(b2),
-                                ),
+                                &[r1, r2, g1, g2, b1, b2]
+                                    if color_description
+                                        .bytes()
+                                        .all(|h| h.is_ascii_hexdigit()) =>
+                                {
+                                    (
+                                        hex(r1) * 16 + hex(r2),
+                                        hex(g1) * 16 + hex(g2),
+                                        hex(b1) * 16 + hex(b2),
+                                    )
+                                }
                                 _ => {
                                     break 'color Err(LatexError(
                                         span,
-- 
2.43.0


From 102d3fc4d6a8e1736ca5f82c89666ff0dc4a5bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:20 +0000
Subject: [PATCH 24/60] fix: an accent on an accent replaced it in text

---
 crates/math-core/src/text_parser.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/math-core/src/text_parser.rs b/crates/math-core/src/text_parser.rs
index 4fc1282..ecccb47 100644
--- a/crates/math-core/src/text_parser.rs
+++ b/crates/math-core/src/text_parser.rs
@@ -36,7 +36,8 @@ impl<'arena> Parser<'_, 'arena> {
         let mut style_stack = vec![(0usize, initial_style, initial_voffset)];
         let mut str_builder: Option<StringBuilder> = None;
         let mut snippets: Vec<TextSnippet<'arena>> = Vec::new();
-        let mut accent_to_insert: Option<char> = None;
+        // Accents waiting for their base character, outermost first.
+        let mut accents_to_insert: Vec<char> = Vec::new();
         let mut brace_nesting = 0usize;
         // Size declarations like `\large`. Each entry records the `style_stack` depth and the
         // brace nesting level at which the size was declared, because the size stays in effect
@@ -67,7 +68,7 @@ impl<'arena> Parser<'_, 'arena> {
                     match text_token {
                         TextToken::Accent(accent) => {
                             if str_builder.is_some() {
-                                accent_to_insert = Some(accent);
+                                accents_to_insert.push(accent);
                                 continue;
                             } else {
                                 Err(LatexErrKind::ExpectedArgumentGotEOI)
@@ -396,7 +397,7 @@ impl<'arena> Parser<'_, 'arena> {
             let c = c.map_err(|err| Box::new(LatexError(span.into(), err)))?;
             if let Some(builder) = &mut str_builder {
                 builder.push_superchar(c);
-                if let Some(accent) = accent_to_insert.take() {
+                while let Some(accent) = accents_to_insert.pop() {
                     builder.push_char(accent);
                 }
             } else {
-- 
2.43.0


From 60dc13f5c213dfd8dcd8305e1aeaf6e233758790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:08 +0000
Subject: [PATCH 25/60] fix: keep the space after an escaped character in text

---
 crates/math-core/src/lexer.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/math-core/src/lexer.rs b/crates/math-core/src/lexer.rs
index a789c70..f07fcbf 100644
--- a/crates/math-core/src/lexer.rs
+++ b/crates/math-core/src/lexer.rs
@@ -244,8 +244,11 @@ impl<'source> Lexer<'source> {
             '\\' => {
                 let (cmd_string, end) = self.read_command();
                 let span = Span::new(loc, end);
-                // After a command, all whitespace is skipped, even in text mode.
-                self.skip_whitespace();
+                // After a command, all whitespace is skipped, even in text mode, except after an
+                // escaped character, like `\%` in `\text{5\% of}`.
+                if !matches!(cmd_string, "#" | "$" | "%" | "&" | "_" | "{" | "}") {
+                    self.skip_whitespace();
+                }
                 return self.parse_env_marker(span, cmd_string);
             }
             c if c.is_ascii_digit() => Token::Digit(c),
-- 
2.43.0


From 879105029f21f75fd7ccc1560f260ad2809359eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:52 +0000
Subject: [PATCH 26/60] fix: an ampersand in a formula hid the entity after it

---
 crates/math-core-cli/src/html_entities.rs | 41 ++++++++++++-----------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/crates/math-core-cli/src/html_entities.rs b/crates/math-core-cli/src/html_entities.rs
index 6768076..d64ac07 100644
--- a/crates/math-core-cli/src/html_entities.rs
+++ b/crates/math-core-cli/src/html_entities.rs
@@ -42,30 +42,33 @@ where
         // Copy the part between the last `&` and the current `&`.
         buffer.push_str(&input[last_end..next_start]);
 
+        // A name ends at the first byte which cannot be part of it. (Ending it only at the next
+        // `;` would swallow an entity which comes after an `&` that does not start one.)
         let entity_start = next_start + 1;
-        let Some(index) = bytes[entity_start..].iter().position(|&b| b == b';') else {
-            // No `;` character found, exit the loop.
-            last_end = next_start;
-            break;
-        };
-        let end = entity_start + index;
+        let end = bytes[entity_start..]
+            .iter()
+            .position(|&b| !(b.is_ascii_alphanumeric() || b == b'#'))
+            .map_or(bytes.len(), |index| entity_start + index);
 
-        // We use `next_start + 1` to skip the `&` character.
-        if let Some(replacement) = HTML_RESERVED_MAP.get(&bytes[entity_start..end]) {
-            unsafe {
-                buffer.push_str(std::str::from_utf8_unchecked(&[*replacement]));
-            }
+        // Where to look for the next ampersand.
+        let search_start = if let Some(replacement) =
+            HTML_RESERVED_MAP.get(&bytes[entity_start..end])
+            && bytes.get(end) == Some(&b';')
+        {
+            buffer.push(char::from(*replacement));
+            // We use `end + 1` to skip the `;` character.
+            last_end = end + 1;
+            last_end
         } else {
-            // No match, copy the original string.
-            buffer.push_str(&input[next_start..=end]);
-        }
-
-        // We use `end + 1` to include the `;` character.
-        last_end = end + 1;
+            // No match, leave the ampersand (and what follows it) as it is. In `&&`, neither
+            // ampersand starts an entity.
+            last_end = next_start;
+            end.max(entity_start + 1).min(bytes.len())
+        };
 
         // Check for the next ampersand
-        match memchr(b'&', &bytes[last_end..]) {
-            Some(idx) => next_start = last_end + idx,
+        match memchr(b'&', &bytes[search_start..]) {
+            Some(idx) => next_start = search_start + idx,
             None => break,
         }
     }
-- 
2.43.0


From eabf77333a18289ab5d4d4cf56ec3a50b008561d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:52 +0000
Subject: [PATCH 27/60] fix: an empty delimiter made the tool run forever

---
 crates/math-core-cli/src/main.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/crates/math-core-cli/src/main.rs b/crates/math-core-cli/src/main.rs
index f395e36..9efe75b 100644
--- a/crates/math-core-cli/src/main.rs
+++ b/crates/math-core-cli/src/main.rs
@@ -4,7 +4,7 @@ use std::{
     path::{Path, PathBuf},
 };
 
-use clap::Parser;
+use clap::{Parser, builder::NonEmptyStringValueParser};
 
 use math_core::{LatexError, LatexToMathML, MathDisplay};
 
@@ -29,7 +29,8 @@ struct Args {
         long,
         default_value = "$",
         conflicts_with = "formula",
-        value_name = "STR"
+        value_name = "STR",
+        value_parser = NonEmptyStringValueParser::new()
     )]
     inline_del: String,
 
@@ -38,7 +39,8 @@ struct Args {
         long,
         default_value = "$$",
         conflicts_with = "formula",
-        value_name = "STR"
+        value_name = "STR",
+        value_parser = NonEmptyStringValueParser::new()
     )]
     block_del: String,
 
@@ -47,7 +49,8 @@ struct Args {
         long,
         conflicts_with = "inline_del",
         requires = "inline_close",
-        value_name = "STR"
+        value_name = "STR",
+        value_parser = NonEmptyStringValueParser::new()
     )]
     inline_open: Option<String>,
 
@@ -56,7 +59,8 @@ struct Args {
         long,
         conflicts_with = "inline_del",
         requires = "inline_open",
-        value_name = "STR"
+        value_name = "STR",
+        value_parser = NonEmptyStringValueParser::new()
     )]
     inline_close: Option<String>,
 
@@ -65,7 +69,8 @@ struct Args {
         long,
         conflicts_with = "block_del",
         requires = "block_close",
-        value_name = "STR"
+        value_name = "STR",
+        value_parser = NonEmptyStringValueParser::new()
     )]
     block_open: Option<String>,
 
@@ -74,7 +79,8 @@ struct Args {
         long,
         conflicts_with = "block_del",
         requires = "block_open",
-        value_name = "STR"
+        value_name = "STR",
+        value_parser = NonEmptyStringValueParser::new()
     )]
     block_close: Option<String>,
 
-- 
2.43.0


From 41d10dbc1ff183644ca948f3c516198d72530163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:22 +0000
Subject: [PATCH 28/60] fix: lines after the last column were dropped

---
 crates/mathml-renderer/src/ast.rs   |  2 +
 crates/mathml-renderer/src/table.rs | 76 +++++++++++++++++++++--------
 2 files changed, 58 insertions(+), 20 deletions(-)

diff --git a/crates/mathml-renderer/src/ast.rs b/crates/mathml-renderer/src/ast.rs
index 4964a50..834364a 100644
--- a/crates/mathml-renderer/src/ast.rs
+++ b/crates/mathml-renderer/src/ast.rs
@@ -856,6 +856,7 @@ impl<'state> Emitter<'state> {
                     border_top,
                 } => {
                     writeln_indent!(self, child_indent2, "</mtd>");
+                    col_gen.write_trailing_lines(&mut self.s, child_indent2, self.indentation)?;
                     if let Some(numbering_cols) = numbering_cols {
                         write_equation_num(
                             &mut self.s,
@@ -889,6 +890,7 @@ impl<'state> Emitter<'state> {
             }
         }
         writeln_indent!(self, child_indent2, "</mtd>");
+        col_gen.write_trailing_lines(&mut self.s, child_indent2, self.indentation)?;
         if let Some(numbering_cols) = numbering_cols {
             write_equation_num(
                 &mut self.s,
diff --git a/crates/mathml-renderer/src/table.rs b/crates/mathml-renderer/src/table.rs
index 5d4bb23..21d31d7 100644
--- a/crates/mathml-renderer/src/table.rs
+++ b/crates/mathml-renderer/src/table.rs
@@ -150,6 +150,37 @@ impl<'arena> ColumnGenerator<'arena> {
         self.row_border_top = border_top;
     }
 
+    /// Write the lines which come after the last cell of a row. (Those between two cells are
+    /// written together with the second cell.)
+    pub fn write_trailing_lines(
+        &mut self,
+        s: &mut String,
+        indent_num: usize,
+        indentation: Indentation,
+    ) -> Result<(), core::fmt::Error> {
+        let AlignmentType::Custom(array_spec) = self.typ else {
+            return Ok(());
+        };
+        let border_top = self.border_top();
+        while let Some(ColumnSpecEntry::OnlyLine(line_type)) =
+            array_spec.column_spec.get(self.column_idx)
+        {
+            self.column_idx += 1;
+            new_line_and_indent(s, indent_num, indentation);
+            write_only_line(s, *line_type, border_top, array_spec.is_sub)?;
+        }
+        Ok(())
+    }
+
+    /// The top border (from `\hline`/`\hdashline`) applied to every cell of the current row.
+    fn border_top(&self) -> &'static str {
+        match self.row_border_top {
+            None => "",
+            Some(LineType::Solid) => BORDER_TOP_SOLID,
+            Some(LineType::Dashed) => BORDER_TOP_DASHED,
+        }
+    }
+
     pub fn write_next_mtd(
         &mut self,
         s: &mut String,
@@ -159,14 +190,9 @@ impl<'arena> ColumnGenerator<'arena> {
         new_line_and_indent(s, indent_num, indentation);
         let column_idx = self.column_idx;
         self.column_idx += 1;
-        // Top border (from `\hline`/`\hdashline`) applied to every cell of the current row.
         // When non-empty, the plain `<mtd>` fast paths are replaced by a styled cell, and the
         // border is injected at the start of every other cell's style.
-        let border_top = match self.row_border_top {
-            None => "",
-            Some(LineType::Solid) => BORDER_TOP_SOLID,
-            Some(LineType::Dashed) => BORDER_TOP_DASHED,
-        };
+        let border_top = self.border_top();
         match self.typ {
             AlignmentType::Predefined(align) => {
                 let is_even = column_idx.is_multiple_of(2);
@@ -210,20 +236,7 @@ impl<'arena> ColumnGenerator<'arena> {
                         .get(self.column_idx)
                         .unwrap_or(&DEFAULT_COLUMN_SPEC);
                     self.column_idx += 1;
-                    write!(s, "{MTD_OPEN_STYLE}{border_top}")?;
-                    match line_type {
-                        LineType::Solid => {
-                            write!(s, "{BORDER_RIGHT_SOLID}")?;
-                        }
-                        LineType::Dashed => {
-                            write!(s, "{BORDER_RIGHT_DASHED}")?;
-                        }
-                    }
-                    if array_spec.is_sub {
-                        write!(s, "{PADDING_TOP_BOTTOM_ZERO}")?;
-                    }
-                    write!(s, "padding-left: 0.1em;padding-right: 0.1em;")?;
-                    write!(s, "\"></mtd>")?;
+                    write_only_line(s, *line_type, border_top, array_spec.is_sub)?;
                     new_line_and_indent(s, indent_num, indentation);
                 }
                 match column_spec {
@@ -297,3 +310,26 @@ fn write_simple_mtd(s: &mut String, border_top: &str) -> core::fmt::Result {
         write!(s, "{MTD_OPEN_STYLE}{border_top}{MTD_CLOSE_STYLE}")
     }
 }
+
+/// Write a cell with no content, whose only purpose is to draw a line.
+fn write_only_line(
+    s: &mut String,
+    line_type: LineType,
+    border_top: &str,
+    is_sub: bool,
+) -> core::fmt::Result {
+    write!(s, "{MTD_OPEN_STYLE}{border_top}")?;
+    match line_type {
+        LineType::Solid => {
+            write!(s, "{BORDER_RIGHT_SOLID}")?;
+        }
+        LineType::Dashed => {
+            write!(s, "{BORDER_RIGHT_DASHED}")?;
+        }
+    }
+    if is_sub {
+        write!(s, "{PADDING_TOP_BOTTOM_ZERO}")?;
+    }
+    write!(s, "padding-left: 0.1em;padding-right: 0.1em;")?;
+    write!(s, "\"></mtd>")
+}
-- 
2.43.0


From a424d29f66b8439db257d47000a320565b08f18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:41 +0000
Subject: [PATCH 29/60] =?UTF-8?q?fix:=20=E2=A4=99=20and=20=E2=A4=9A=20type?=
 =?UTF-8?q?d=20as=20characters=20were=20not=20relations?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 crates/math-core/src/commands.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/math-core/src/commands.rs b/crates/math-core/src/commands.rs
index e842932..db56d9f 100644
--- a/crates/math-core/src/commands.rs
+++ b/crates/math-core/src/commands.rs
@@ -1637,6 +1637,8 @@ static UNICODE_OPERATORS: phf::Map<char, Token> = phf::phf_map! {
     '⤖' => Relation(symbol::RIGHTWARDS_TWO_HEADED_ARROW_WITH_TAIL),
     '⤗' => Relation(symbol::RIGHTWARDS_TWO_HEADED_ARROW_WITH_TAIL_WITH_VERTICAL_STROKE),
     '⤘' => Relation(symbol::RIGHTWARDS_TWO_HEADED_ARROW_WITH_TAIL_WITH_DOUBLE_VERTICAL_STROKE),
+    '⤙' => Relation(symbol::LEFTWARDS_ARROW_TAIL),
+    '⤚' => Relation(symbol::RIGHTWARDS_ARROW_TAIL),
     '⤛' => Relation(symbol::LEFTWARDS_DOUBLE_ARROW_TAIL),
     '⤜' => Relation(symbol::RIGHTWARDS_DOUBLE_ARROW_TAIL),
     '⤝' => Relation(symbol::LEFTWARDS_ARROW_TO_BLACK_DIAMOND),
-- 
2.43.0


From 2b69110a5ca3f512582630f2a64b7c6d1f21de61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:48 +0000
Subject: [PATCH 30/60] fix: root indices, prescripts and brace labels were
 spaced as if not scripts

---
 crates/math-core/src/parser.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index ea853d2..29262ad 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -950,11 +950,13 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                     && matches!(tokloc.token(), Token::SquareBracketOpen)
                 {
                     // FIXME: We should perhaps use set `right_boundary_hack` here.
+                    let old_style = mem::replace(&mut self.state.style, Style::ScriptScript);
                     let degree = self.parse_sequence(
                         SequenceEnd::EndToken(EndToken::SquareBracketClose),
                         Class::Open,
                         false,
                     )?;
+                    self.state.style = old_style;
                     let content = self.parse_next(ParseAs::Arg)?;
                     Ok(Node::Root(
                         node_vec_to_node(self.arena, &degree, true),
@@ -1082,7 +1084,8 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 }
             }
             Token::Overset | Token::Underset => {
-                let old_style = mem::replace(&mut self.state.style, Style::Script);
+                let script_style = self.state.style.scriptify();
+                let old_style = mem::replace(&mut self.state.style, script_style);
                 let symbol = self.parse_next(ParseAs::Arg)?;
                 self.state.style = old_style;
                 let token = self.next_token();
@@ -1125,7 +1128,10 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 {
                     let target = self.commit(base);
                     self.next_token()?; // Discard the circumflex or underscore token.
+                    let script_style = self.state.style.scriptify();
+                    let old_style = mem::replace(&mut self.state.style, script_style);
                     let expl = self.parse_next(ParseAs::Arg)?;
+                    self.state.style = old_style;
                     if is_over {
                         Ok(Node::Over {
                             symbol: expl,
@@ -2152,8 +2158,11 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 return Ok(Parsed::Expansion);
             }
             Token::Prescript => {
+                let script_style = self.state.style.scriptify();
+                let old_style = mem::replace(&mut self.state.style, script_style);
                 let sup = self.parse_next(ParseAs::Arg)?;
                 let sub = self.parse_next(ParseAs::Arg)?;
+                self.state.style = old_style;
                 let base = self.parse_next(ParseAs::Arg)?;
                 let pre = self
                     .arena
@@ -2308,7 +2317,8 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 // Parse the over-argument in the same state the original token-stream
                 // expansion used: `style` is set by the outer `\overset`, and
                 // `right_boundary_hack` is set by the inner `\overset`'s target group.
-                let old_style = mem::replace(&mut self.state.style, Style::Script);
+                let script_style = self.state.style.scriptify();
+                let old_style = mem::replace(&mut self.state.style, script_style);
                 let old_boundary_hack = mem::replace(&mut self.state.right_boundary_hack, true);
 
                 // Optional under-argument in square brackets (e.g. `\xrightarrow[a]{b}`),
-- 
2.43.0


From 59a1d675d34f7a08fbb0d47b4ec9afbc9f7745bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:22 +0000
Subject: [PATCH 31/60] fix: a fraction or phantom holding only an operator was
 spaced like the operator

---
 crates/math-core/src/parser.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 29262ad..a0645da 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -975,7 +975,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                     Some(FracAttr::DisplayStyleFalse) => Style::Script,
                 };
                 let old_style = mem::replace(&mut self.state.style, inner_style);
-                let num = self.parse_next(ParseAs::Arg)?;
+                let num = self.parse_next(ParseAs::ArgWithSpace)?;
                 let denom = self.parse_next(ParseAs::Arg)?;
                 self.state.style = old_style;
                 if matches!(cur_token, Token::Binom(_)) {
@@ -1057,7 +1057,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 } else {
                     None
                 };
-                let num = self.parse_next(ParseAs::Arg)?;
+                let num = self.parse_next(ParseAs::ArgWithSpace)?;
                 let denom = self.parse_next(ParseAs::Arg)?;
                 let attr = None;
                 let (lt_value, lt_unit) = lt.into_parts();
@@ -2094,7 +2094,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 })
             }
             Token::Phantom(kind) => {
-                let inner = self.parse_next(ParseAs::Arg)?;
+                let inner = self.parse_next(ParseAs::ArgWithSpace)?;
                 match kind {
                     PhantomKind::Full => Ok(Node::Phantom { node: inner }),
                     PhantomKind::H => Ok(Node::Padded {
-- 
2.43.0


From 7d17bb19761c7ee05f4bba2826744d4f1f10f868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:25 +0000
Subject: [PATCH 32/60] fix: a binary operator in a script no longer counted as
 one for the operator after it

---
 crates/math-core/src/parser.rs | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index a0645da..d3b6682 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -748,8 +748,8 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                     next_class,
                     false,
                 );
-                class = if matches!(spacing, Some(MathSpacing::Zero)) {
-                    // If the spacing is zero, this operator behaves like an ordinary symbol in
+                class = if is_unary_op(prev_class, next_class) {
+                    // Without two operands, this operator behaves like an ordinary symbol in
                     // terms of spacing.
                     Class::Default
                 } else {
@@ -767,8 +767,8 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 let spacing =
                     self.state
                         .bin_op_spacing(parse_as.in_sequence(), prev_class, next_class, true);
-                class = if matches!(spacing, Some(MathSpacing::Zero)) {
-                    // If the spacing is zero, this operator behaves like an ordinary symbol in
+                class = if is_unary_op(prev_class, next_class) {
+                    // Without two operands, this operator behaves like an ordinary symbol in
                     // terms of spacing.
                     Class::Default
                 } else {
@@ -3333,6 +3333,17 @@ impl<'state, 'arena> Parser<'state, 'arena> {
     }
 }
 
+/// Whether a binary operator lacks one of its operands, judging by what is on either side.
+fn is_unary_op(prev_class: Class, next_class: Class) -> bool {
+    matches!(
+        prev_class,
+        Class::Relation | Class::Punctuation | Class::BinaryOp | Class::Operator | Class::Open
+    ) || matches!(
+        next_class,
+        Class::Relation | Class::Punctuation | Class::Close | Class::End
+    )
+}
+
 impl ParserState<'_> {
     fn relation_spacing(
         &self,
@@ -3376,13 +3387,8 @@ impl ParserState<'_> {
         if !in_sequence {
             // Don't add spacing if we are in an argument.
             None
-        } else if matches!(
-            prev_class,
-            Class::Relation | Class::Punctuation | Class::BinaryOp | Class::Operator | Class::Open
-        ) || matches!(
-            next_class,
-            Class::Relation | Class::Punctuation | Class::Close | Class::End
-        ) || matches!(self.style, Style::Script | Style::ScriptScript)
+        } else if is_unary_op(prev_class, next_class)
+            || matches!(self.style, Style::Script | Style::ScriptScript)
         {
             Some(MathSpacing::Zero)
         } else if force {
-- 
2.43.0


From 69b8b26eb08aa7c8891a5548604aa717b7054b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:50 +0000
Subject: [PATCH 33/60] fix: \mathbin without an operand was still binary for
 the operator after it

---
 crates/math-core/src/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index d3b6682..a7fbffd 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -802,7 +802,11 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                         self.mathop_spacing(parse_as, prev_class, true)?
                     }
                     MathClassKind::Bin => {
-                        class = Class::BinaryOp;
+                        class = if is_unary_op(prev_class, next_class) {
+                            Class::Default
+                        } else {
+                            Class::BinaryOp
+                        };
                         let spacing = self.state.bin_op_spacing(
                             parse_as.in_sequence(),
                             prev_class,
-- 
2.43.0


From 9987db92acf182ead198f8d65426230621ff40a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:51 +0000
Subject: [PATCH 34/60] fix: \over did not end one formula and start another
 for operator spacing

---
 crates/math-core/src/parser.rs | 8 +++++++-
 crates/math-core/src/token.rs  | 5 +++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index a7fbffd..8f968a4 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -264,7 +264,13 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                         cell_start,
                         &mut infix_frac,
                     )? {
-                        ControlFlow::SkipToken => continue,
+                        ControlFlow::SkipToken => {
+                            if matches!(tokloc.token(), Token::InfixGenFrac { .. }) {
+                                // The denominator is a formula of its own.
+                                prev_class = Class::Open;
+                            }
+                            continue;
+                        }
                         ControlFlow::ProcessToken => {}
                     }
                 }
diff --git a/crates/math-core/src/token.rs b/crates/math-core/src/token.rs
index 277d875..88265ff 100644
--- a/crates/math-core/src/token.rs
+++ b/crates/math-core/src/token.rs
@@ -561,7 +561,9 @@ impl Token {
             | PseudoOperator(_)
             | PseudoOperatorLimits(_)
             | OperatorName { .. } => Some(Class::Operator),
-            End(_) | NewLine | NewColumn | GroupEnd | Eoi => Some(Class::End),
+            End(_) | NewLine | NewColumn | GroupEnd | InfixGenFrac { .. } | Eoi => {
+                Some(Class::End)
+            }
             Inner(_) | ForceMathInner(_) | Dots => Some(Class::Inner),
             Big(_, Some(paren_type)) => Some(match paren_type {
                 ParenType::Left => Class::Open,
@@ -623,7 +625,6 @@ impl Token {
             | Digit(_)
             | Big(_, None)
             | Frac(_)
-            | InfixGenFrac { .. }
             | Genfrac
             | Underscore
             | Circumflex
-- 
2.43.0


From f316b813fb598fe100adf2bdfbf1f093cae2419a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:49 +0000
Subject: [PATCH 35/60] fix: \dfrac, \tfrac and their binomials stayed small in
 scripts

---
 crates/math-core/src/parser.rs | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 8f968a4..9f57952 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -988,6 +988,17 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 let num = self.parse_next(ParseAs::ArgWithSpace)?;
                 let denom = self.parse_next(ParseAs::Arg)?;
                 self.state.style = old_style;
+                // In a script, a change of the display style alone would leave the size of the
+                // script, so there the whole style has to be set.
+                let (attr, style) = match attr {
+                    Some(FracAttr::DisplayStyleTrue) if self.state.in_script() => {
+                        (None, Some(Style::Display))
+                    }
+                    Some(FracAttr::DisplayStyleFalse) if self.state.in_script() => {
+                        (None, Some(Style::Text))
+                    }
+                    attr => (attr, None),
+                };
                 if matches!(cur_token, Token::Binom(_)) {
                     let (lt_value, lt_unit) = Length::zero().into_parts();
                     Ok(fenced(
@@ -1001,17 +1012,27 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                         })],
                         Some(OPEN_PAREN),
                         Some(CLOSE_PAREN),
-                        None,
+                        style,
                     ))
                 } else {
                     let (lt_value, lt_unit) = Length::none().into_parts();
-                    Ok(Node::Frac {
+                    let frac = Node::Frac {
                         num,
                         denom,
                         lt_value,
                         lt_unit,
                         attr,
-                    })
+                    };
+                    match style {
+                        None => Ok(frac),
+                        Some(_) => Ok(Node::Row {
+                            nodes: self.arena.push_slice(&[self.commit(frac)]),
+                            attrs: RowAttrs {
+                                style,
+                                ..RowAttrs::DEFAULT
+                            },
+                        }),
+                    }
                 }
             }
             Token::Genfrac => 'genfrac: {
@@ -3355,6 +3376,10 @@ fn is_unary_op(prev_class: Class, next_class: Class) -> bool {
 }
 
 impl ParserState<'_> {
+    fn in_script(&self) -> bool {
+        matches!(self.style, Style::Script | Style::ScriptScript)
+    }
+
     fn relation_spacing(
         &self,
         prev_class: Class,
-- 
2.43.0


From a714fc196c5b5d319d828e722d8a0f465209c6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:17 +0000
Subject: [PATCH 36/60] fix: keep the size of a \big delimiter that stands
 alone in an argument

---
 crates/math-core/src/parser.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 9f57952..97bd272 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -3497,13 +3497,16 @@ pub(crate) fn node_vec_to_node<'arena>(
 ) -> &'arena Node<'arena> {
     if let [single] = nodes {
         if reset_spacing {
-            if let Node::Operator { op, attrs, .. } = **single {
+            if let Node::Operator {
+                op, attrs, size, ..
+            } = **single
+            {
                 arena.push(Node::Operator {
                     op,
                     attrs,
                     left: None,
                     right: None,
-                    size: None,
+                    size,
                 })
             } else {
                 single
-- 
2.43.0


From 201078380070eb0a5ba974e3c5485436b5b4a887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:03 +0000
Subject: [PATCH 37/60] fix: \mathord and the like don't keep a \big delimiter
 from its size

---
 crates/math-core/src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 97bd272..a27332b 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -852,7 +852,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                     } => Ok(Node::Operator {
                         op,
                         // `\big` and `\middle` delimiters may have asked for stretching.
-                        attrs: if attrs.contains(OpAttrs::STRETCHY_TRUE) {
+                        attrs: if attrs.contains(OpAttrs::STRETCHY_TRUE) || size.is_some() {
                             attrs
                         } else {
                             attrs | OpAttrs::STRETCHY_FALSE
-- 
2.43.0


From f6fe1764b89c9496d3e55875ad62279beed587df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:27 +0000
Subject: [PATCH 38/60] fix: an operator at the end of the base of a stack is
 at the end of its formula

---
 crates/math-core/src/parser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index a27332b..f70ae46 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -216,6 +216,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
         let mut prev_class = prev_class;
         let old_tf = self.state.transform;
         let old_style = self.state.style;
+        let old_boundary_hack = self.state.right_boundary_hack;
         // Inside of a group, `&` and `\\` can't refer to the cells of the surrounding table.
         let old_separators = matches!(
             sequence_end,
@@ -288,6 +289,8 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 }
             };
             prev_class = class;
+            // What comes later in the sequence is at a real boundary at the end of it.
+            self.state.right_boundary_hack = false;
 
             // Check if there are any superscripts or subscripts following the parsed node.
             let bounds = self.get_bounds(None)?.ensure_no_explicit_limits()?;
@@ -326,6 +329,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
         }
         self.state.transform = old_tf;
         self.state.style = old_style;
+        self.state.right_boundary_hack = old_boundary_hack;
         Ok(nodes)
     }
 
-- 
2.43.0


From 30433a4cd3a368370de9cc95949990dbfe2a9864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:25 +0000
Subject: [PATCH 39/60] fix: \genfrac passes its style on to its parts

---
 crates/math-core/src/parser.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index f70ae46..243d174 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -1092,8 +1092,17 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 } else {
                     None
                 };
+                // A given script style is not passed on to the parts.
+                let inner_style = match style {
+                    None => self.state.style.shrink(),
+                    Some(Style::Display) => Style::Text,
+                    Some(Style::Text) => Style::Script,
+                    Some(Style::Script | Style::ScriptScript) => self.state.style,
+                };
+                let old_style = mem::replace(&mut self.state.style, inner_style);
                 let num = self.parse_next(ParseAs::ArgWithSpace)?;
                 let denom = self.parse_next(ParseAs::Arg)?;
+                self.state.style = old_style;
                 let attr = None;
                 let (lt_value, lt_unit) = lt.into_parts();
                 Ok(fenced(
-- 
2.43.0


From 277124278fc1cc66d49340ff1c04e7e16b3d2fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:36 +0000
Subject: [PATCH 40/60] fix: the parts of the base of a stack have boundaries
 of their own

---
 crates/math-core/src/parser.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 243d174..6ebbe4d 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -276,6 +276,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                     }
                 }
                 // Parse the token.
+                let right_boundary_hack = self.state.right_boundary_hack;
                 match self.parse_one_token(cur_tokloc, ParseAs::Sequence, prev_class)? {
                     Parsed::Node(class, node) => (class, node),
                     // An expansion without any content is typeset as an empty group.
@@ -285,7 +286,10 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                     }
                     // The expansion may start with a token which only a sequence can handle,
                     // so we start over with the first token of the expansion.
-                    Parsed::Expansion => continue,
+                    Parsed::Expansion => {
+                        self.state.right_boundary_hack = right_boundary_hack;
+                        continue;
+                    }
                 }
             };
             prev_class = class;
@@ -520,9 +524,13 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                     LatexErrKind::CannotBeUsedAsArgument,
                 )));
             }
+            let right_boundary_hack = self.state.right_boundary_hack;
             match self.parse_one_token(cur_tokloc, parse_as, prev_class)? {
                 Parsed::Node(class, node) => return Ok((class, node)),
-                Parsed::Expansion => cur_tokloc = self.next_token(),
+                Parsed::Expansion => {
+                    self.state.right_boundary_hack = right_boundary_hack;
+                    cur_tokloc = self.next_token();
+                }
             }
         }
     }
@@ -537,7 +545,9 @@ impl<'state, 'arena> Parser<'state, 'arena> {
         let (cur_token, span) = cur_tokloc?.into_parts();
         let mut class = Class::default();
         let next_class = self.peek_class_token(parse_as.in_sequence())?;
-        let next_class = if self.state.right_boundary_hack && matches!(next_class, Class::End) {
+        // The parts of a construct have real boundaries.
+        let right_boundary_hack = mem::take(&mut self.state.right_boundary_hack);
+        let next_class = if right_boundary_hack && matches!(next_class, Class::End) {
             Class::Default
         } else {
             next_class
@@ -1418,6 +1428,8 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 })
             }
             Token::GroupBegin => {
+                self.state.right_boundary_hack =
+                    right_boundary_hack && matches!(parse_as, ParseAs::ContinueSequence);
                 let content = self.parse_sequence(
                     SequenceEnd::EndToken(EndToken::GroupClose),
                     if matches!(parse_as, ParseAs::ContinueSequence) {
-- 
2.43.0


From a93e0e3ace01ca174ba9a37039f688b26b7536ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:41 +0000
Subject: [PATCH 41/60] fix: a negated relation keeps its spacing in the base
 of a stack

---
 crates/math-core/src/parser.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 6ebbe4d..f913c6a 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -1290,6 +1290,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
 
                 let tok_span = self.next_token()?;
                 let new_span = tok_span.span();
+                self.state.right_boundary_hack = right_boundary_hack;
                 let (cls, node) = self.parse_token(Ok(tok_span), parse_as, prev_class)?;
                 class = cls;
 
-- 
2.43.0


From 1c3c4651f11897d934abea9131100e4d735afebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:41 +0000
Subject: [PATCH 42/60] fix: the argument of a text command in \operatorname is
 in text mode

---
 crates/math-core/src/text_parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/math-core/src/text_parser.rs b/crates/math-core/src/text_parser.rs
index ecccb47..52a48c5 100644
--- a/crates/math-core/src/text_parser.rs
+++ b/crates/math-core/src/text_parser.rs
@@ -49,6 +49,8 @@ impl<'arena> Parser<'_, 'arena> {
             style_stack.last().copied()
         {
             let current_size = size_stack.last().map(|&(_, _, size)| size);
+            // The argument of a text command is always in text mode.
+            let text_mode = text_mode || style_stack.len() > 1;
             let tokloc = if text_mode {
                 self.tokens.next_any_token()
             } else {
-- 
2.43.0


From a029181b187a98ae5d10592d6e553d4c0a2e856e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:57 +0000
Subject: [PATCH 43/60] fix: the line thickness of \genfrac is a text length

---
 crates/math-core/src/parser.rs | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index f913c6a..dad5cf2 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -1066,16 +1066,24 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 let (length, span) = self.parse_string_literal()?;
                 let lt = match length.trim_ascii() {
                     "" => Length::none(),
-                    decimal => {
-                        parse_length_specification(decimal)
-                            .ok_or_else(|| {
-                                Box::new(LatexError(
-                                    span,
-                                    LatexErrKind::ExpectedLength(KString::from_ref(decimal)),
-                                ))
-                            })?
-                            .0
-                    }
+                    decimal => match parse_length_specification(decimal) {
+                        Some((length, _, false)) => length,
+                        Some((_, unit, true)) => {
+                            break 'genfrac Err(LatexError(
+                                span,
+                                LatexErrKind::IllegalUnit {
+                                    unit: KString::from_ref(unit),
+                                    math_unit_expected: false,
+                                },
+                            ));
+                        }
+                        None => {
+                            break 'genfrac Err(LatexError(
+                                span,
+                                LatexErrKind::ExpectedLength(KString::from_ref(decimal)),
+                            ));
+                        }
+                    },
                 };
                 let style_token: Option<TokSpan> =
                     self.tokens.read_argument(false)?.into_one_or_none()?.into();
-- 
2.43.0


From 37a4fd4a16a4d539f6946edf5844d76b682a9e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 44/60] fix: an overlay goes behind variation selector 16, too

---
 crates/math-core/src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index dad5cf2..95f85ce 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -1320,7 +1320,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                         return s.len();
                     };
 
-                    if matches!(snd_char, '\u{FE00}'..'\u{FE0F}') {
+                    if matches!(snd_char, '\u{FE00}'..='\u{FE0F}') {
                         // There's a variation selector (3 bytes in utf8)
                         after_first_char_idx + 3
                     } else {
-- 
2.43.0


From c662e781365872d4d6e3424d28a6d6f0e371b2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:07 +0000
Subject: [PATCH 45/60] fix: a closing brace is not a macro argument

---
 crates/math-core/src/parser.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 95f85ce..bbf63de 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -2648,11 +2648,20 @@ impl<'state, 'arena> Parser<'state, 'arena> {
             self.next_token()?;
         } else {
             let queued = self.tokens.next_keeping_name()?;
-            if matches!(queued.token(), Token::Eoi) {
-                return Err(Box::new(LatexError(
-                    queued.span().into(),
-                    LatexErrKind::ExpectedArgumentGotEOI,
-                )));
+            match queued.token() {
+                Token::Eoi => {
+                    return Err(Box::new(LatexError(
+                        queued.span().into(),
+                        LatexErrKind::ExpectedArgumentGotEOI,
+                    )));
+                }
+                Token::GroupEnd => {
+                    return Err(Box::new(LatexError(
+                        queued.span().into(),
+                        LatexErrKind::ExpectedArgumentGotClose,
+                    )));
+                }
+                _ => {}
             }
             // A body which isn't a group consists of a single token.
             body_tokspans.push(queued);
@@ -2872,6 +2881,13 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                         LatexErrKind::ExpectedArgumentGotEOI,
                     )));
                 }
+                // This ends the group which the command is in, it is not an argument.
+                Token::GroupEnd => {
+                    return Err(Box::new(LatexError(
+                        queued.span().into(),
+                        LatexErrKind::ExpectedArgumentGotClose,
+                    )));
+                }
                 // An argument which isn't a group consists of a single token.
                 _ => self.state.cmd_args.push(queued),
             }
-- 
2.43.0


From 657d37923d286d935c80f3ac255e35a3fee9c45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:01 +0000
Subject: [PATCH 46/60] fix: \mathchoice takes no cell separator or \right as
 an alternative

---
 crates/math-core/src/parser.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index bbf63de..d4f9392 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -2509,6 +2509,21 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 // All four alternatives are read, but only the chosen one is queued; the
                 // others are not typeset at all, unlike in LaTeX.
                 self.read_cmd_args(4)?;
+                // An alternative which isn't used must not swallow what ends a cell, a fence
+                // or an environment.
+                for arg_num in 0..4 {
+                    if let [queued] = self.state.cmd_args.get(arg_num)
+                        && matches!(
+                            queued.token(),
+                            Token::Right | Token::End(_) | Token::NewColumn | Token::NewLine
+                        )
+                    {
+                        return Err(Box::new(LatexError(
+                            queued.span().into(),
+                            LatexErrKind::ExpectedArgumentGotClose,
+                        )));
+                    }
+                }
                 self.tokens
                     .queue_arg_in_front(self.state.cmd_args.get(chosen), span);
                 return Ok(Parsed::Expansion);
-- 
2.43.0


From 47be3c90bbc501f720fa201d400a6b1b62225d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:13 +0000
Subject: [PATCH 47/60] fix: a script right after the script sign of a brace is
 an error

---
 crates/math-core/src/parser.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index d4f9392..5d4fd28 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -1192,7 +1192,17 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                     self.next_token()?; // Discard the circumflex or underscore token.
                     let script_style = self.state.style.scriptify();
                     let old_style = mem::replace(&mut self.state.style, script_style);
-                    let expl = self.parse_next(ParseAs::Arg)?;
+                    let next = self.tokens.next()?;
+                    if matches!(
+                        next.token(),
+                        Token::Underscore | Token::Circumflex | Token::Prime(_)
+                    ) {
+                        return Err(Box::new(LatexError(
+                            next.span().into(),
+                            LatexErrKind::BoundFollowedByBound,
+                        )));
+                    }
+                    let expl = self.parse_token(Ok(next), ParseAs::Arg, Class::Default)?.1;
                     self.state.style = old_style;
                     if is_over {
                         Ok(Node::Over {
-- 
2.43.0


From 5a6382d625898f9bc940e53d8815aca367fccd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:21 +0000
Subject: [PATCH 48/60] fix: a braced base of \overset keeps its class when it
 comes out of a macro

---
 crates/math-core/src/parser.rs | 66 +++++++++++++++++++++-------------
 1 file changed, 41 insertions(+), 25 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 5d4fd28..5fdfc8d 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -515,26 +515,37 @@ impl<'state, 'arena> Parser<'state, 'arena> {
     ) -> ParseResult<(Class, &'arena Node<'arena>)> {
         let mut cur_tokloc = cur_tokloc;
         loop {
-            // Only `parse_sequence` can handle the separators between table cells.
-            if let Ok(tokspan) = &cur_tokloc
-                && self.state.env.is_separator(tokspan.token())
-            {
-                return Err(Box::new(LatexError(
-                    tokspan.span().into(),
-                    LatexErrKind::CannotBeUsedAsArgument,
-                )));
-            }
-            let right_boundary_hack = self.state.right_boundary_hack;
-            match self.parse_one_token(cur_tokloc, parse_as, prev_class)? {
+            match self.parse_or_expand(cur_tokloc, parse_as, prev_class)? {
                 Parsed::Node(class, node) => return Ok((class, node)),
-                Parsed::Expansion => {
-                    self.state.right_boundary_hack = right_boundary_hack;
-                    cur_tokloc = self.next_token();
-                }
+                Parsed::Expansion => cur_tokloc = self.next_token(),
             }
         }
     }
 
+    /// One step of `parse_token`.
+    fn parse_or_expand(
+        &mut self,
+        cur_tokloc: ParseResult<TokSpan>,
+        parse_as: ParseAs,
+        prev_class: Class,
+    ) -> ParseResult<Parsed<'arena>> {
+        // Only `parse_sequence` can handle the separators between table cells.
+        if let Ok(tokspan) = &cur_tokloc
+            && self.state.env.is_separator(tokspan.token())
+        {
+            return Err(Box::new(LatexError(
+                tokspan.span().into(),
+                LatexErrKind::CannotBeUsedAsArgument,
+            )));
+        }
+        let right_boundary_hack = self.state.right_boundary_hack;
+        let parsed = self.parse_one_token(cur_tokloc, parse_as, prev_class)?;
+        if matches!(parsed, Parsed::Expansion) {
+            self.state.right_boundary_hack = right_boundary_hack;
+        }
+        Ok(parsed)
+    }
+
     /// Parse one token into a node, or into the first token of its expansion.
     fn parse_one_token(
         &mut self,
@@ -1150,17 +1161,22 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 let old_style = mem::replace(&mut self.state.style, script_style);
                 let symbol = self.parse_next(ParseAs::Arg)?;
                 self.state.style = old_style;
-                let token = self.next_token();
-                let braced_class = if let Ok(tokspan) = &token
-                    && matches!(tokspan.token(), Token::GroupBegin)
-                {
-                    Some(self.peek_class_token(true)?)
-                } else {
-                    None
-                };
                 let old_boundary_hack = mem::replace(&mut self.state.right_boundary_hack, true);
-                let (cls, target) =
-                    self.parse_token(token, ParseAs::ContinueSequence, prev_class)?;
+                let mut token = self.next_token();
+                let (braced_class, cls, target) = loop {
+                    let braced_class = if let Ok(tokspan) = &token
+                        && matches!(tokspan.token(), Token::GroupBegin)
+                    {
+                        Some(self.peek_class_token(true)?)
+                    } else {
+                        None
+                    };
+                    match self.parse_or_expand(token, ParseAs::ContinueSequence, prev_class)? {
+                        Parsed::Node(cls, target) => break (braced_class, cls, target),
+                        // The base may also be what a custom command expands to.
+                        Parsed::Expansion => token = self.next_token(),
+                    }
+                };
                 self.state.right_boundary_hack = old_boundary_hack;
                 class = match (braced_class, target) {
                     // The result has the class of the base, even if the base is in braces.
-- 
2.43.0


From 5bb60d94a0dc52c5f246ef44e772335db895cd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:56 +0000
Subject: [PATCH 49/60] fix: a braced alternative of \mathchoice may be a line
 break

---
 crates/math-core/src/parser.rs | 35 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 5fdfc8d..a7fe063 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -2486,14 +2486,14 @@ impl<'state, 'arena> Parser<'state, 'arena> {
             }
             Token::CustomCmd(num_args, token_stream) => {
                 self.count_expansion(span)?;
-                self.read_cmd_args(num_args)?;
+                self.read_cmd_args(num_args, true)?;
                 self.tokens
                     .queue_body_substituting(token_stream, &self.state.cmd_args, span);
                 return Ok(Parsed::Expansion);
             }
             Token::CustomCmdRef(source, num_args, _, start, end) => {
                 self.count_expansion(span)?;
-                self.read_cmd_args(num_args)?;
+                self.read_cmd_args(num_args, true)?;
                 if let Err(kind) = self.tokens.queue_stored_body_substituting(
                     source,
                     start,
@@ -2534,22 +2534,9 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 };
                 // All four alternatives are read, but only the chosen one is queued; the
                 // others are not typeset at all, unlike in LaTeX.
-                self.read_cmd_args(4)?;
-                // An alternative which isn't used must not swallow what ends a cell, a fence
-                // or an environment.
-                for arg_num in 0..4 {
-                    if let [queued] = self.state.cmd_args.get(arg_num)
-                        && matches!(
-                            queued.token(),
-                            Token::Right | Token::End(_) | Token::NewColumn | Token::NewLine
-                        )
-                    {
-                        return Err(Box::new(LatexError(
-                            queued.span().into(),
-                            LatexErrKind::ExpectedArgumentGotClose,
-                        )));
-                    }
-                }
+                // (An alternative which isn't used must not swallow what ends a cell, a fence or an
+                // environment.)
+                self.read_cmd_args(4, false)?;
                 self.tokens
                     .queue_arg_in_front(self.state.cmd_args.get(chosen), span);
                 return Ok(Parsed::Expansion);
@@ -2905,7 +2892,9 @@ impl<'state, 'arena> Parser<'state, 'arena> {
     /// The arguments are read as raw token streams; nothing in them is expanded here. They
     /// are only needed until the body has been queued, so they go straight into the one
     /// buffer, overwriting the arguments of whichever command was expanded before.
-    fn read_cmd_args(&mut self, num_args: u8) -> ParseResult<()> {
+    ///
+    /// An argument without braces may be any token (as in TeX) only if `any_token` is set.
+    fn read_cmd_args(&mut self, num_args: u8, any_token: bool) -> ParseResult<()> {
         self.state.cmd_args.clear();
         for arg_num in 0..num_args {
             // The tokens keep the names they came from, so that an argument which is
@@ -2929,6 +2918,14 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                         LatexErrKind::ExpectedArgumentGotClose,
                     )));
                 }
+                Token::Right | Token::End(_) | Token::NewColumn | Token::NewLine
+                    if !any_token =>
+                {
+                    return Err(Box::new(LatexError(
+                        queued.span().into(),
+                        LatexErrKind::ExpectedArgumentGotClose,
+                    )));
+                }
                 // An argument which isn't a group consists of a single token.
                 _ => self.state.cmd_args.push(queued),
             }
-- 
2.43.0


From 01e4c2ab15d1cbf59821eb886278b0d86ac3b0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:15 +0000
Subject: [PATCH 50/60] fix: a braced base of \overset keeps its class in
 script style

---
 crates/math-core/src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index a7fe063..8ab3e48 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -1181,8 +1181,8 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 class = match (braced_class, target) {
                     // The result has the class of the base, even if the base is in braces.
                     (Some(Class::Relation), Node::Operator { .. }) => Class::Relation,
-                    (Some(Class::BinaryOp), Node::Operator { left, .. })
-                        if !matches!(left, Some(MathSpacing::Zero)) =>
+                    (Some(Class::BinaryOp), Node::Operator { .. })
+                        if !is_unary_op(prev_class, Class::Default) =>
                     {
                         Class::BinaryOp
                     }
-- 
2.43.0


From 1a2e7534dcc0de2de7f92df9808263d59d8d98c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:43 +0000
Subject: [PATCH 51/60] fix: what follows the bar of \set, \Set or \Braket
 begins a formula

---
 crates/math-core/src/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 8ab3e48..9ed6798 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -718,6 +718,8 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                         VerticalLineDef::RelSpacingStretchy => (true, None),
                         VerticalLineDef::RelSpacing => (false, None),
                     };
+                    // What comes after the line is at the beginning of a formula of its own.
+                    class = Class::Open;
                     // `form="infix"` also implies `stretchy="false"`, so we have to explicitly set
                     // `stretchy="true"` if the vertical line is stretchy.
                     if stretchy {
-- 
2.43.0


From 9c1f454ce159ed8046b055e075e97c41901d3cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:10 +0000
Subject: [PATCH 52/60] fix: the style given to \cramped is known to its
 argument

---
 crates/math-core/src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 9ed6798..0551483 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -2021,7 +2021,10 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                         }
                     };
 
+                    let old_style = self.state.style;
+                    self.state.style = style.unwrap_or(old_style);
                     let inner = self.parse_next(ParseAs::Arg)?;
+                    self.state.style = old_style;
                     (style, inner)
                 } else {
                     let inner = self.parse_token(next, ParseAs::Arg, prev_class)?.1;
-- 
2.43.0


From 416ba3ddff569aaee7376d8924329ed57bbb56e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:32 +0000
Subject: [PATCH 53/60] fix: the class of a macro that begins with another than
 its first argument is not taken from the first

---
 crates/math-core/src/lib.rs         | 6 +++++-
 crates/math-core/src/token_queue.rs | 6 ++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/math-core/src/lib.rs b/crates/math-core/src/lib.rs
index 5301eee..8c9edbb 100644
--- a/crates/math-core/src/lib.rs
+++ b/crates/math-core/src/lib.rs
@@ -595,7 +595,11 @@ fn parse_custom_commands(
                                     num_args = n + 1;
                                 }
                                 // The class is the one of an argument which we don't know
-                                // yet, not the one of what comes after it.
+                                // yet, not the one of what comes after it. The lookahead gets
+                                // to the first argument by itself, but not to another one.
+                                if !class_is_settled && n > 0 {
+                                    first_class = Some(character_class::Class::Default);
+                                }
                                 class_is_settled = true;
                                 body.push(RecordedToken::Token(Token::CustomCmdArg(n)));
                             }
diff --git a/crates/math-core/src/token_queue.rs b/crates/math-core/src/token_queue.rs
index ece8b6e..54e1187 100644
--- a/crates/math-core/src/token_queue.rs
+++ b/crates/math-core/src/token_queue.rs
@@ -832,6 +832,12 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
                         }
                         // If the body starts with a parameter, the class is the one of an
                         // argument which we don't know yet, not the one of what comes after it.
+                        // The first argument comes right after the macro, so the lookahead
+                        // gets to it by itself, but for another one it would get to the wrong
+                        // argument.
+                        if !class_is_settled && arg_num > 0 {
+                            first_class = Some(Class::Default);
+                        }
                         class_is_settled = true;
                         Ok(RecordedToken::Token(Token::CustomCmdArg(arg_num)))
                     }
-- 
2.43.0


From 6b9b7c87c70a63a2d23775409a3cc9253bb24089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:45 +0000
Subject: [PATCH 54/60] fix: \sideset has the class of an operator

---
 crates/math-core/src/parser.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 0551483..3ab8b60 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -2270,6 +2270,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 })
             }
             Token::Sideset => {
+                class = Class::Operator;
                 // Collect arguments
                 let (pre_bounds_limits, mut after_pre_bounds) = self.get_bounds_arg()?;
                 let pre_bounds = pre_bounds_limits.ensure_no_explicit_limits()?;
-- 
2.43.0


From 8d1db040d39a23752731c2f15f8f074268a270a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:39 +0000
Subject: [PATCH 55/60] fix: An empty argument between braces of a macro body
 adds no second group

---
 crates/math-core/src/token_queue.rs | 40 ++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/crates/math-core/src/token_queue.rs b/crates/math-core/src/token_queue.rs
index 54e1187..2ac2a13 100644
--- a/crates/math-core/src/token_queue.rs
+++ b/crates/math-core/src/token_queue.rs
@@ -554,10 +554,11 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
         }
         self.queue.reserve(tokens.len());
         // Queue the token stream in the front in reverse order.
-        for tok in tokens.iter().rev() {
+        for (idx, tok) in tokens.iter().enumerate().rev() {
             match *tok {
                 Token::CustomCmdArg(arg_num) => {
-                    push_arg_front(&mut self.queue, args.get(arg_num), span);
+                    let is_braced = is_braced(tokens, idx, |tok| Some(tok));
+                    push_arg_front(&mut self.queue, args.get(arg_num), is_braced, span);
                 }
                 tok => self.queue.push_front(tok.into()),
             }
@@ -605,10 +606,14 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
         }
         self.queue.reserve(body.len());
         // Queue the token stream in the front in reverse order.
-        for recorded in body.iter().rev() {
+        for (idx, recorded) in body.iter().enumerate().rev() {
             match recorded {
                 RecordedToken::Token(Token::CustomCmdArg(arg_num)) => {
-                    push_arg_front(&mut self.queue, args.get(*arg_num), span);
+                    let is_braced = is_braced(body, idx, |recorded| match recorded {
+                        RecordedToken::Token(tok) => Some(tok),
+                        RecordedToken::CommandName(_) => None,
+                    });
+                    push_arg_front(&mut self.queue, args.get(*arg_num), is_braced, span);
                 }
                 RecordedToken::Token(tok) => self.queue.push_front((*tok).into()),
                 // A command which the body only refers to by name gets its meaning here, so a
@@ -646,7 +651,7 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
     /// Queue one argument of a custom command in the front of the buffer, as
     /// [`push_arg_front`] does. Always queues at least one token.
     pub(super) fn queue_arg_in_front(&mut self, arg: &[QueuedTok<'arena>], span: Span) {
-        push_arg_front(&mut self.queue, arg, span);
+        push_arg_front(&mut self.queue, arg, false, span);
         self.update_next_non_whitespace();
     }
 
@@ -963,8 +968,10 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
 ///
 /// An argument with nothing but whitespace in it is queued as an empty group, because an empty
 /// argument is equivalent to `{}`. Substituting nothing at all would make it disappear from
-/// constructs which need an argument, which would then take whatever comes next instead. The
-/// `span` is only used for the braces of that empty group.
+/// constructs which need an argument, which would then take whatever comes next instead. If the
+/// argument is all there is between two braces of the body (`is_braced`), then there already is
+/// such a group, and a second one would be in the way of anything which takes the content of the
+/// braces literally, like `\tag{#1}`. The `span` is only used for the braces of the empty group.
 ///
 /// The space for the tokens is reserved here rather than in the caller, because an argument
 /// stands for a single token in the body it is substituted into: a caller which reserved room
@@ -975,23 +982,32 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
 fn push_arg_front<'arena>(
     queue: &mut VecDeque<QueuedTok<'arena>>,
     arg: &[QueuedTok<'arena>],
+    is_braced: bool,
     span: Span,
 ) {
-    let is_blank = arg
-        .iter()
-        .all(|queued| matches!(queued.token(), Token::Whitespace));
+    let needs_group = !is_braced
+        && arg
+            .iter()
+            .all(|queued| matches!(queued.token(), Token::Whitespace));
     queue.reserve(arg.len() + 2);
-    if is_blank {
+    if needs_group {
         queue.push_front(TokSpan::new(Token::GroupEnd, span).into());
     }
     for queued in arg.iter().rev() {
         queue.push_front(*queued);
     }
-    if is_blank {
+    if needs_group {
         queue.push_front(TokSpan::new(Token::GroupBegin, span).into());
     }
 }
 
+/// Whether the element with the given index is directly between `{` and `}`.
+fn is_braced<T>(body: &[T], idx: usize, as_token: impl Fn(&T) -> Option<&Token>) -> bool {
+    let tok_at = |idx: Option<usize>| idx.and_then(|idx| body.get(idx)).and_then(&as_token);
+    matches!(tok_at(idx.checked_sub(1)), Some(Token::GroupBegin))
+        && matches!(tok_at(idx.checked_add(1)), Some(Token::GroupEnd))
+}
+
 fn is_not_whitespace(idx: usize, tok: &Token) -> Option<usize> {
     (!matches!(tok, Token::Whitespace)).then_some(idx)
 }
-- 
2.43.0


From a18e5bf46074d9ced5cd8e80782d54813b5a95c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:25 +0000
Subject: [PATCH 56/60] fix: The id prefix and the class of unknown commands
 were written unescaped into attributes

---
 crates/mathml-renderer/src/ast.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/mathml-renderer/src/ast.rs b/crates/mathml-renderer/src/ast.rs
index 834364a..72c7e3a 100644
--- a/crates/mathml-renderer/src/ast.rs
+++ b/crates/mathml-renderer/src/ast.rs
@@ -803,7 +803,7 @@ impl<'state> Emitter<'state> {
                 write!(
                     self.s,
                     r##"<mtext><a href="#{id_prefix}{id}">({text})</a></mtext>"##,
-                    id_prefix = self.id_prefix,
+                    id_prefix = EscapeHtml(self.id_prefix),
                     id = percent_encode(label.as_bytes(), FRAGMENT_SAFE),
                     text = EscapeHtml(tag),
                 )?;
@@ -813,7 +813,7 @@ impl<'state> Emitter<'state> {
                 write!(
                     self.s,
                     r#"<merror class="{}"><mtext>\{}</mtext></merror>"#,
-                    self.css_classes.unknown_command,
+                    EscapeHtml(&self.css_classes.unknown_command),
                     EscapeHtml(cmd_name)
                 )?;
             }
@@ -1002,6 +1002,7 @@ fn write_equation_num(
             write!(
                 s,
                 r#" id="{id_prefix}{id}">"#,
+                id_prefix = EscapeHtml(id_prefix),
                 id = percent_encode(link_target.as_bytes(), FRAGMENT_SAFE)
             )?;
         } else {
-- 
2.43.0


From 3d62a70ef05cddc3d199de9ec12c2eba10186030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:03 +0000
Subject: [PATCH 57/60] fix: \det takes limits

---
 crates/math-core/src/commands.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/math-core/src/commands.rs b/crates/math-core/src/commands.rs
index db56d9f..67604d7 100644
--- a/crates/math-core/src/commands.rs
+++ b/crates/math-core/src/commands.rs
@@ -22,7 +22,7 @@ use crate::{
 // These function names are essentially just passed-through, wrapped in a token.
 static FUNCTIONS: phf::Set<&'static str> = phf::phf_set!(
     "arccos", "arcctg", "arcsin", "arctan", "arctg", "arg", "ch", "cos", "cosec", "cosh", "cot",
-    "cotg", "coth", "csc", "ctg", "cth", "deg", "det", "dim", "erf", "erfc", "exp", "hom", "ker",
+    "cotg", "coth", "csc", "ctg", "cth", "deg", "dim", "erf", "erfc", "exp", "hom", "ker",
     "lg", "ln", "log", "sec", "sh", "sin", "sinh", "tan", "tanh", "tg", "th"
 );
 
@@ -311,6 +311,7 @@ static COMMANDS: phf::Map<&'static str, Token> = phf::phf_map! {
     "def" => Def(false),
     "degree" => Letter(SuperChar::from_char(symbol::DEGREE_SIGN), Mode::MathOrText),
     "delta" => Letter(SuperChar::from_char(symbol::GREEK_SMALL_LETTER_DELTA), Mode::Math),
+    "det" => PseudoOperatorLimits("det"),
     "dfrac" => Frac(Some(FracAttr::DisplayStyleTrue)),
     "diagdown" => ForceOrd(symbol::MATHEMATICAL_FALLING_DIAGONAL.as_op()),
     "diagup" => ForceOrd(symbol::MATHEMATICAL_RISING_DIAGONAL.as_op()),
-- 
2.43.0


From f7d079caa7c56afe8273a00994b0c268b7b3bb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:03 +0000
Subject: [PATCH 58/60] fix: \limits on the join operators was lost in text
 style

---
 crates/math-core/src/parser.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 3ab8b60..e352662 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -679,6 +679,17 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                             | OpAttrs::LARGEOP_TRUE
                             | OpAttrs::FORCE_MOVABLE_LIMITS,
                     ),
+                    // These have movable limits unless told otherwise.
+                    Some(LimitsKind::Always)
+                        if matches!(op, symbol::JOIN | symbol::LARGE_LEFT_TRIANGLE_OPERATOR) =>
+                    {
+                        (
+                            true,
+                            OpAttrs::SYMMETRIC_TRUE
+                                | OpAttrs::LARGEOP_TRUE
+                                | OpAttrs::NO_MOVABLE_LIMITS,
+                        )
+                    }
                     Some(LimitsKind::Always) => {
                         (true, OpAttrs::SYMMETRIC_TRUE | OpAttrs::LARGEOP_TRUE)
                     }
-- 
2.43.0


From cf38464d902cbe27439fb94813a37fb30ad651e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:12 +0000
Subject: [PATCH 59/60] fix: The numerator of \over left out what came before a
 style or colour switch

---
 crates/math-core/src/parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index e352662..14cf05c 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -87,7 +87,12 @@ impl SequenceEnd {
             SequenceEnd::EndToken(token) => token.matches(other),
             SequenceEnd::AnyEndToken => matches!(
                 other,
-                Token::Eoi | Token::GroupEnd | Token::End(_) | Token::Right
+                // The numerator of an infix fraction is everything that comes before it.
+                Token::Eoi
+                    | Token::GroupEnd
+                    | Token::End(_)
+                    | Token::Right
+                    | Token::InfixGenFrac { .. }
             ),
         }
     }
-- 
2.43.0


From 5aff4418a2a208752de0e30f350aece57c70f55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:17 +0000
Subject: [PATCH 60/60] fix: \colon is punctuation

---
 crates/math-core/src/commands.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/math-core/src/commands.rs b/crates/math-core/src/commands.rs
index 67604d7..ced17b0 100644
--- a/crates/math-core/src/commands.rs
+++ b/crates/math-core/src/commands.rs
@@ -265,7 +265,7 @@ static COMMANDS: phf::Map<&'static str, Token> = phf::phf_map! {
     "clubs" => Letter(SuperChar::from_char(symbol::BLACK_CLUB_SUIT), Mode::Math),
     "clubsuit" => Letter(SuperChar::from_char(symbol::BLACK_CLUB_SUIT), Mode::Math),
     "cnums" => Letter(SuperChar::from_char(symbol::DOUBLE_STRUCK_CAPITAL_C), Mode::Math),
-    "colon" => Letter(symbol::COLON.as_op().as_superchar(), Mode::Math),
+    "colon" => ForcePunctuation(symbol::COLON.as_op()),
     "colonapprox" => CustomCmd(0, &predefined::COLON_APPROX),
     "coloncolon" => CustomCmd(0, &predefined::DOUBLE_COLON),
     "coloncolonapprox" => CustomCmd(0, &predefined::DOUBLE_COLON_APPROX),
-- 
2.43.0

